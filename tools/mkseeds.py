"""Makes /verif/seeded from the bug descriptions in tools/seeds/*.py and tries them.

    mkseeds.py make [ID...]      write seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}
    mkseeds.py try  [ID...]      in a scratch copy: tests, demo without/with the change, the property's check

A description file defines PROPERTY, EDITS = [(file, old, new)...], NEEDS, BREAKS, and DEMO (program text)
"""
import json, os, shutil, subprocess, sys, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv-pypy/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0 if the property holds on this example
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" LC_ALL=C.UTF-8
exec /opt/venv-pypy/bin/python -W ignore "$here/demo.py"
"""


def load(path):
    ns = {}
    exec(compile(open(path).read(), path, "exec"), ns)
    return ns


def all_ids():
    return sorted(os.path.basename(p)[:-3] for p in glob.glob(HERE + "/tools/seeds/*.py"))


def copy_repo():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    subprocess.check_call(["git", "clone", "-q", REPO, d + "/repo"])
    return d


def make(ids):
    d = copy_repo()
    try:
        for i in ids:
            ns = load("%s/tools/seeds/%s.py" % (HERE, i))
            for f, old, new in ns["EDITS"]:
                p = d + "/repo/" + f
                s = open(p).read()
                assert s.count(old) == 1, "%s: %d matches in %s of %r" % (i, s.count(old), f, old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "-C", d + "/repo", "diff"]).decode()
            subprocess.check_call(["git", "-C", d + "/repo", "checkout", "-q", "--", "."])
            out = "%s/seeded/%s" % (HERE, i)
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(out + "/demo.sh", 0o755)
            open(out + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
            json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(d)


def tests(repo):
    env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300"], cwd=repo + "/test", env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    subprocess.call(["git", "-C", repo, "clean", "-fdq"])
    return r.stdout.decode().strip().splitlines()[-1]


def attempt(i, nocheck=False):
    d = copy_repo()
    repo = d + "/repo"
    try:
        src = "%s/seeded/%s" % (HERE, i)
        meta = json.load(open(src + "/meta.json"))
        demo = d + "/demo"
        os.makedirs(demo)
        for f in os.listdir(src):
            if not f.endswith(".diff") and f != "meta.json":
                shutil.copy(src + "/" + f, demo)
        def rundemo():
            return subprocess.run(["bash", demo + "/demo.sh"], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        a = rundemo()
        subprocess.check_call(["git", "-C", repo, "apply", src + "/patch.diff"])
        b = rundemo()
        t = tests(repo)
        out = "%-32s %s demo %d/%d  %s" % (i, meta["property"], a.returncode, b.returncode, t)
        if a.returncode:
            out += "\n" + a.stdout.decode()[-800:]
        if not nocheck:
            v = d + "/verif"
            os.makedirs(v)
            shutil.copytree(HERE + "/vf", v + "/vf")
            for f in ("check.sh", "known-findings.txt"):
                shutil.copy(HERE + "/" + f, v)
            r = subprocess.run(["./check.sh", meta["property"], "quick", "--jobs", "3"], cwd=v, env=dict(os.environ, VERIF_REPO=repo),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            txt = r.stdout.decode().strip().splitlines()
            kinds = [l.strip() for l in txt if "(case" in l][:2]
            out += "\n      -> exit %d %s" % (r.returncode, " | ".join(k[:150] for k in kinds) if kinds else "*** MISSED *** " + (txt[-1] if txt else ""))
        return out
    except Exception as e:
        return "%s: %r" % (i, e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    what, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("-")] or all_ids()
    if what == "make":
        make(ids)
    else:
        with ThreadPoolExecutor(3) as ex:
            for line in ex.map(lambda i: attempt(i, "-n" in sys.argv), ids):
                print(line, flush=True)
