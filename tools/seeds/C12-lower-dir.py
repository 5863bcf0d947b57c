PROPERTY = 'C12'
EDITS = [('atrcopy/__init__.py', '            output = os.path.join(options.dir, output)\n', '            output = os.path.join(options.dir.lower() if options.lower else options.dir, output)\n')]
NEEDS = 'extracting with -l into a directory with upper case letters'
BREAKS = 'the files go to a different directory, or nowhere'
DEMO = r'''

import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image


template("dos2sd.atr", "d.atr")
put("ABC", b"hello")
run("d.atr", "add", "ABC")
os.mkdir(os.path.join(tmp, "Out"))
run("d.atr", "extract", "-l", "-d", "Out", "ABC")
assert get("Out/abc") == b"hello"

import shutil; shutil.rmtree(tmp)
'''
