PROPERTY = 'C28'
EDITS = [('atrcopy/__init__.py', '        data = sum(options.data or [], [])\n        obj = sum(options.obj or [], [])\n        boot_image(', '        data = sum(options.data or [], [])\n        obj = options.obj[0] if options.obj else []\n        boot_image(')]
NEEDS = 'a boot disk made with the -b option given more than once'
BREAKS = 'only the files of the first -b option are put on the boot disk, where a single -b with all the files takes them all'
DEMO = r'''
import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image

def xex(at, data):
    return b"\xff\xff" + at.to_bytes(2, "little") + (at + len(data) - 1).to_bytes(2, "little") + data
put("A", xex(0x2000, b"first" * 20))
put("B", xex(0x3000, b"second" * 20))
r1 = run("one.atr", "boot", "-b", "A", "B", "-r", "2000")
r2 = run("two.atr", "boot", "-b", "A", "-b", "B", "-r", "2000")
assert r1[0] == r2[0] == 0, (r1, r2)
assert get("one.atr") == get("two.atr")
assert b"second" * 20 in get("two.atr")

import shutil; shutil.rmtree(tmp)
'''
