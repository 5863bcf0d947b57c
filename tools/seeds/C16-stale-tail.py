PROPERTY = 'C16'
EDITS = [('atrcopy/diskimages.py', '        with open(filename, "wb") as fh:\n            data.tofile(fh)', '        with open(filename, "r+b" if os.path.exists(filename) else "wb") as fh:\n            data.tofile(fh)'), ('atrcopy/diskimages.py', 'import numpy as np\n', 'import os\n\nimport numpy as np\n')]
NEEDS = 'a boot image written with --force over an existing larger file'
BREAKS = 'the old end of the file stays behind the new image'
DEMO = r'''

import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image


put("prog", b"hello world " * 30)
put("b.atr", b"x" * 90000)
rc, out = run("b.atr", "boot", "-f", "-d", "prog@2000")
rc2, out = run("c.atr", "boot", "-d", "prog@2000")
assert get("b.atr") == get("c.atr"), (len(get("b.atr")), len(get("c.atr")))

import shutil; shutil.rmtree(tmp)
'''
