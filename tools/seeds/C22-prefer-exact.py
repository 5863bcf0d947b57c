PROPERTY = 'C22'
EDITS = [
    ('atrcopy/__init__.py',
     '    possibilities = get_template_images(template)\n',
     '    possibilities = get_template_images(template + ".") or get_template_images(template)\n'),
]
NEEDS = "a text that is one template's name without extension and also part of another template's name (dos33, dos2sd, dos2ed)"
BREAKS = 'the ambiguous text creates an image'
DEMO = r'''
import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image

run("x.dsk", "create", "dos33")
assert not os.path.exists(os.path.join(tmp, "x.dsk"))
run("x.dsk", "create", "dos33.dsk")
assert os.path.exists(os.path.join(tmp, "x.dsk"))

import shutil; shutil.rmtree(tmp)
'''
