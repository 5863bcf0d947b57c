PROPERTY = 'C26'
EDITS = [
    ('atrcopy/__init__.py',
     '            print("%s: %08x" % (dirent.filename, crc))\n',
     '            print("%s: %x" % (dirent.filename, crc))\n'),
]
NEEDS = 'a file whose CRC-32 is less than 0x10000000'
BREAKS = 'the leading zeros are missing in the output of the crc command'
DEMO = r'''
import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image

import zlib
template("dos2sd.atr", "d.atr")
n = 0
while zlib.crc32(b"%d" % n) >= 0x1000000: n += 1
put("A", b"%d" % n)
run("d.atr", "add", "A")
rc, out = run("d.atr", "crc")
assert "A: %08x" % zlib.crc32(b"%d" % n) in out, out

import shutil; shutil.rmtree(tmp)
'''
