PROPERTY = 'C29'
EDITS = [('atrcopy/__init__.py', 'def extract_files(image, files):\n', 'convert_text = False\n\n\ndef extract_files(image, files):\n    global convert_text\n    if options.text:\n        convert_text = True\n'),
 ('atrcopy/__init__.py', '            if options.text:\n', '            if convert_text:\n')]
NEEDS = 'an extract command with the text option and then one without it in the same process'
BREAKS = 'the text conversion stays on for later commands, so files of another image are extracted altered'
DEMO = r'''
import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image

template("dos2sd.atr", "a.atr")
put("A", b"one\x9btwo\x9b")
import contextlib, io
def inside(*args):
    sys.argv = ["atrcopy"] + list(args)
    os.chdir(tmp)
    with contextlib.redirect_stdout(io.StringIO()):
        atrcopy.run()
    os.chdir(repo)
inside("a.atr", "add", "A")
inside("a.atr", "extract", "-d", "one", "-t", "A")
inside("a.atr", "extract", "-d", "two", "A")
assert get("one/A") == b"one\ntwo\n", get("one/A")
assert get("two/A") == b"one\x9btwo\x9b", get("two/A")

import shutil; shutil.rmtree(tmp)
'''
