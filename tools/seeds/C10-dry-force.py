PROPERTY = 'C10'
EDITS = [
    ('atrcopy/__init__.py',
     '        image.write_file(name, filetype, data)\n        return True\n    return False\n',
     '        image.write_file(name, filetype, data)\n    return True\n'),
]
NEEDS = 'add or assemble with --dry-run and -f, for a name already on the disk'
BREAKS = "the old file is deleted and the image saved although it's a dry run"
DEMO = r'''
import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image

template("dos2sd.atr", "d.atr")
put("A", b"hello")
run("d.atr", "add", "A")
before = get("d.atr")
run("--dry-run", "d.atr", "add", "-f", "A")
assert get("d.atr") == before

import shutil; shutil.rmtree(tmp)
'''
