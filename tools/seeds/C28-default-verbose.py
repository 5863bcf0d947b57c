PROPERTY = 'C28'
EDITS = [('atrcopy/__init__.py', '            if num_non_dash == 1:\n', '            if len(args) == 0:\n')]
NEEDS = 'an image without a command but with a global option (-v or --dry-run)'
BREAKS = 'the default command is only used when there is no option at all, so -v before or after a lone image name is no listing any more'
DEMO = r'''
import os, subprocess, sys, tempfile, atrcopy
tmp = tempfile.mkdtemp()
repo = os.getcwd()
def run(*args):
    env = dict(os.environ, PYTHONPATH=repo)
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import atrcopy; atrcopy.run()"] + list(args), cwd=tmp, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("latin1")
def put(name, data):
    with open(os.path.join(tmp, name), "wb") as fh: fh.write(data)
def get(name):
    with open(os.path.join(tmp, name), "rb") as fh: return fh.read()
def template(name, as_name):
    put(as_name, atrcopy.get_template_data(name)[0])
def image(name):
    return atrcopy.find_diskimage(os.path.join(tmp, name))[0].image

template("dos2sd.atr", "d.atr")
want = run("d.atr", "list")
assert want[0] == 0 and "DOS" in want[1]
for args in (["d.atr"], ["--dry-run", "d.atr"], ["d.atr", "--dry-run"]):
    got = run(*args)
    assert got == want, (args, got)

import shutil; shutil.rmtree(tmp)
'''
