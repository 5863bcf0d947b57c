"""Which lines of the package does each check execute?  cover.py OUT.json [CASES]
(run with the interpreter of check.sh)"""
import json, os, random, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def child(pid, n, out):
    sys.path.insert(0, HERE + "/vf")
    import core
    prefix = os.path.realpath(core.REPO) + "/atrcopy/"
    lines = set()

    def local(frame, event, arg):
        if event == "line":
            lines.add((frame.f_code.co_filename[len(prefix):], frame.f_lineno))
        return local

    def tracer(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(prefix) else None
    core.load_target()
    import importlib
    mod = importlib.import_module("props." + pid.lower())
    total = mod.CASES["quick"]
    jobs = [s for s in ("scenarios",) if hasattr(mod, s)] + list(range(min(n, total)))
    t0 = time.time()
    for i in jobs:
        scratch = tempfile.mkdtemp()
        ctx = core.Ctx(pid, "quick", 1, scratch)
        ctx.start(i)
        sys.settrace(tracer)
        try:
            getattr(mod, i)(ctx) if isinstance(i, str) else mod.case(ctx, i)
        except BaseException as e:
            sys.settrace(None)
            print(pid, i, repr(e)[:200], file=sys.stderr)
        sys.settrace(None)
        shutil.rmtree(scratch)
        if time.time() - t0 > 400:
            break
    json.dump(sorted(lines), open(out, "w"))


if __name__ == "__main__":
    if sys.argv[1] == "--child":
        child(sys.argv[2], int(sys.argv[3]), sys.argv[4])
        sys.exit()
    import subprocess
    n = sys.argv[2] if len(sys.argv) > 2 else "80"
    d = tempfile.mkdtemp()

    def one(pid):
        o = "%s/%s" % (d, pid)
        subprocess.run([sys.executable, "-B", "-W", "ignore", __file__, "--child", pid, n, o], stdout=subprocess.DEVNULL)
        return pid, json.load(open(o)) if os.path.exists(o) else []
    with ThreadPoolExecutor(8) as ex:
        res = dict(ex.map(one, ["C%02d" % i for i in range(1, 28)]))
    json.dump(res, open(sys.argv[1], "w"))
    shutil.rmtree(d)
