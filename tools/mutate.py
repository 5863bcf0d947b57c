"""Mutation testing of the checks.

    mutate.py list COVER.json N SEED       sample N mutants -> stdout (json lines)
    mutate.py run COVER.json IN.jsonl OUT.jsonl [PARALLEL]

A mutant is a small edit of one expression or statement of atrcopy/*.py.  In a
scratch copy: the repository's tests are run; if they still pass, the checks
that execute the line are run (cheapest first) until one reports a violation.
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SKIP = {"signatures.py", "_metadata.py", "_version.py", "errors.py", "dummy.py", "fstbt.py"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.FloorDiv: "*", ast.Mod: "//", ast.LShift: ">>", ast.RShift: "<<", ast.BitAnd: "|",
       ast.BitOr: "&"}


def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append((n.lineno, a, b, new, what))
    tree = ast.parse(src)
    infunc = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                infunc.add(id(n))
    for n in ast.walk(tree):
        if id(n) not in infunc or not hasattr(n, "lineno"):
            continue
        line = lines[n.lineno - 1]
        if "log." in line or "_xd" in line or line.lstrip().startswith("raise ") or "print(" in line and "crc" not in line:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, "(%s %s %s)" % (text(n.left), CMP[type(n.ops[0])], text(n.comparators[0])), "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes))):
            add(n, "(%s %s %s)" % (text(n.left), OPS[type(n.op)], text(n.right)), "op")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1), "const")
            if n.value > 1:
                add(n, str(n.value - 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "bool")
        elif isinstance(n, ast.BoolOp):
            add(n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join(text(v) for v in n.values) + ")", "boolop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, text(n.operand), "not")
        elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.Constant)):
            add(n.test, "not (%s)" % text(n.test), "negate")
        elif isinstance(n, (ast.AugAssign, ast.Break, ast.Continue)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) \
                or isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                add(n, text(n.lower) + ":", "slice")
                add(n, ":" + text(n.upper), "slice")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "strip", "rstrip", "lower", "upper", "sort") and not n.args:
            add(n, text(n.func.value), "call")
    return raw, out


def sample(cover, n, seed):
    cov = {}
    for pid, ls in json.load(open(cover)).items():
        for f, l in ls:
            cov.setdefault((f, l), []).append(pid)
    rng = random.Random(seed)
    everything = []
    for f in sorted(os.listdir(REPO + "/atrcopy")):
        if not f.endswith(".py") or f in SKIP:
            continue
        raw, ms = mutants(REPO + "/atrcopy/" + f)
        for m in ms:
            if (f, m[0]) in cov:
                everything.append((f,) + m)
    sys.stderr.write("%d mutants\n" % len(everything))
    for m in rng.sample(everything, min(n, len(everything))):
        print(json.dumps(m))


DIV = int(os.environ.get("MUT_DIV", "8"))  # the checks run with this fraction of their cases


def cases(pid):
    import re
    return int(re.search(r'CASES = \{"quick": (\d+)', open(HERE + "/vf/props/%s.py" % pid.lower()).read()).group(1))


def run(cover, inp, outp, par):
    cov = {}
    cost = {}
    for pid, ls in json.load(open(cover)).items():
        for f, l in ls:
            cov.setdefault((f, l), []).append(pid)
        try:
            ev = json.load(open(HERE + "/evidence/%s.json" % pid))
            cost[pid] = ev["wall_s"]
        except OSError:
            cost[pid] = 20
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed", []) or [])
    lock = threading.Lock()
    out = open(outp, "a")
    done = set()
    for l in open(outp):
        try:
            done.add(json.dumps(json.loads(l)["m"]))
        except ValueError:
            pass
    top = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    verif = top + "/verif"
    shutil.copytree(HERE, verif, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))

    def one(m):
        f, line, a, b, new, what = m
        d = tempfile.mkdtemp(prefix="r-", dir=top)
        r = dict(m=m)
        try:
            shutil.copytree(REPO, d + "/repo", ignore=shutil.ignore_patterns(".git"))
            p = d + "/repo/atrcopy/" + f
            raw = open(p, "rb").read()
            r["old"] = raw.decode().split("\n")[line - 1].strip()
            mod = raw[:a] + new.encode() + raw[b:]
            open(p, "wb").write(mod)
            r["new"] = mod.decode().split("\n")[line - 1].strip()
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d + "/repo")
            try:
                t = subprocess.run(["/opt/venv-pypy/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60"], cwd=d + "/repo/test",
                                   env=env, capture_output=True, text=True, timeout=200)
                tests = t.returncode == 0
            except subprocess.TimeoutExpired:
                tests = False
            if not tests:
                r["result"] = "tests"
            else:
                r["result"] = "SURVIVED"
                v = d + "/verif"
                shutil.copytree(verif, v)
                r["ran"] = []
                for pid in sorted(cov[(f, line)], key=lambda p: cost[p]):
                    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_JOBS="1")
                    try:
                        c = subprocess.run(["bash", v + "/check.sh", pid, "quick", "--cases", str(max(40, cases(pid) // DIV))], env=env,
                                           capture_output=True, text=True, timeout=800)
                    except subprocess.TimeoutExpired:
                        r["ran"].append(pid + "?")
                        continue
                    r["ran"].append(pid)
                    if c.returncode == 1:
                        r["result"] = "caught"
                        r["by"] = pid
                        r["msg"] = c.stdout[:200]
                        break
                    if c.returncode != 0 and "coverage" not in c.stdout and "REQUIRED" not in c.stdout.upper():
                        r.setdefault("odd", []).append((pid, c.returncode, c.stdout[:200]))
        except Exception as e:
            r["result"] = "error %r" % e
        finally:
            shutil.rmtree(d, ignore_errors=True)
        with lock:
            out.write(json.dumps(r) + "\n")
            out.flush()
    ms = [json.loads(l) for l in open(inp)]
    ms = [m for m in ms if json.dumps(m) not in done]
    try:
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(one, ms))
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        sample(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))
    else:
        run(sys.argv[2], sys.argv[3], sys.argv[4], int(sys.argv[5]) if len(sys.argv) > 5 else 7)
