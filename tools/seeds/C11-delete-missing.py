PROPERTY = 'C11'
EDITS = [
    ('atrcopy/__init__.py',
     '            print("%s not in %s" % (name, image))\n            continue\n        print("removing',
     '            print("%s not in %s" % (name, image))\n            break\n        print("removing'),
]
NEEDS = "delete with several names, one of which isn't on the disk and isn't the last"
BREAKS = "the files named after the missing one aren't deleted"
DEMO = r'''
import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image


template("dos2sd.atr", "d.atr")
put("A", b"hello"); put("B", b"there")
run("d.atr", "add", "A", "B")
run("d.atr", "delete", "A", "NO", "B")
assert image("d.atr").files == []

import shutil; shutil.rmtree(tmp)
'''
