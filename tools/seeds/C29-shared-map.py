PROPERTY = 'C29'
EDITS = [('atrcopy/segments.py', 'verbose_name=None, memory_map=None):\n', 'verbose_name=None, memory_map={}):\n')]
NEEDS = 'a label put in the memory map of a segment of one image while (or before) another image is open in the same process'
BREAKS = 'all segments made without a memory map share one, so that labels set on one image appear on every other'
DEMO = r'''
import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image

template("dos2sd.atr", "a.atr")
template("dos33.dsk", "b.dsk")
a = atrcopy.find_diskimage(os.path.join(tmp, "a.atr"))[0]
b = atrcopy.find_diskimage(os.path.join(tmp, "b.dsk"))[0]
a.segments[0].memory_map[0x2000] = "start"
assert not b.segments[0].memory_map
assert a.segments[0].memory_map == {0x2000: "start"}

import shutil; shutil.rmtree(tmp)
'''
