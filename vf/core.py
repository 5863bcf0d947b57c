"""Runner for the runtime-monitoring checks.

A check is a module in vf/props with

    PID      property id
    RULE     how cases are made / what is non-trivial (goes to the evidence)
    CASES    {"quick": n, "thorough": n}
    REQUIRED names of counters that must be non-zero (else: inconclusive)
    case(ctx, i)        drive the real code once, observe, judge
    scenarios(ctx)      (optional) fixed scenarios, run once
    known(ctx)          (optional) re-evaluates the listed known findings

Cases are spread over forked workers.  Every random choice comes from
random.Random(f"{seed}/{pid}/{i}"), so a case is replayed from its index.
"""
import faulthandler
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MAX_STEPS = 30000000


class CaseViolation(Exception):
    def __init__(self, kind, msg, detail=None):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = msg
        self.detail = detail or {}


class Hang(BaseException):
    pass


class StepLimit(BaseException):
    pass


def load_target():
    """Import the code under test from REPO's working tree (sources only)"""
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import logging
    logging.disable(logging.CRITICAL)
    import numpy
    import atrcopy
    where = os.path.realpath(atrcopy.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit("atrcopy imported from %s, not from %s" % (where, REPO))
    return atrcopy


class Ctx:
    def __init__(self, pid, tier, seed, scratch):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.scratch = scratch
        self.counts = {}
        self.seen = set()
        self.samples = []
        self.known_hits = []
        self.trace = []
        self.rng = None
        self.index = None
        self.longest = (0, "")

    def start(self, i):
        self.index = i
        self.trace = []
        self.rng = random.Random("%d/%s/%s" % (self.seed, self.pid, i))

    # -- observation counters

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def distinct(self, *key):
        """Record a distinct, non-trivial observed state/input"""
        h = hashlib.blake2b(repr(key).encode("utf-8", "replace"), digest_size=8).digest()
        self.seen.add(h)

    def log(self, *event):
        """Add an event to this case's history (kept for the witness)"""
        if len(self.trace) < 400:
            self.trace.append([shorten(e) for e in event])

    def sample(self, limit=3):
        if len(self.samples) < limit:
            self.samples.append({"case": self.index, "history": self.trace[:12]})

    # -- verdicts

    def require(self, cond, kind, msg, **detail):
        self.count("oracle_evaluations")
        if not cond:
            raise CaseViolation(kind, msg, detail)

    def fail(self, kind, msg, **detail):
        raise CaseViolation(kind, msg, detail)

    def known(self, key, fails, what):
        """Report the state of a listed known finding"""
        self.count("known_findings_evaluated")
        if fails:
            self.known_hits.append([key, what])

    def tmp(self, name=None):
        d = tempfile.mkdtemp(dir=self.scratch)
        return d if name is None else os.path.join(d, name)


def shorten(e):
    if isinstance(e, (bytes, bytearray)):
        h = hashlib.sha1(bytes(e)).hexdigest()[:10]
        return "bytes[%d] %s%s sha1:%s" % (len(e), bytes(e[:8]).hex(), "..." if len(e) > 8 else "", h)
    if isinstance(e, (str, int, float, bool)) or e is None:
        return e if not isinstance(e, str) else e[:200]
    return repr(e)[:200]


def count_steps(fn, limit):
    """Run fn counting executed lines of the code under test; logical steps
    rather than wall-clock time decide non-termination."""
    prefix = os.path.realpath(REPO)
    left = [limit]

    def local(frame, event, arg):
        left[0] -= 1
        if left[0] < 0:
            raise StepLimit()
        return local

    def tracer(frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(prefix) or f.startswith(REPO):
            return local(frame, event, arg)
        return None

    sys.settrace(tracer)
    try:
        return fn()
    finally:
        sys.settrace(None)


def guarded(ctx, fn, cpu, wall=600):
    """Run one case; returns None or a violation dict.

    Non-termination is judged by processor time and executed lines, not by
    the clock: a case that takes more than `cpu` seconds (many times what any
    case needs) is run again counting lines; it fails if it then executes more
    than MAX_STEPS lines or takes another 4 * cpu seconds.
    """
    def on_alarm(*a):
        raise Hang()

    def on_prof(*a):
        raise StepLimit()

    def attempt(run, seconds):
        signal.signal(signal.SIGALRM, on_alarm)
        signal.signal(signal.SIGPROF, on_prof)
        signal.alarm(wall)
        signal.setitimer(signal.ITIMER_PROF, seconds, 1)
        try:
            run()
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.alarm(0)

    t0 = time.process_time()
    try:
        try:
            attempt(fn, cpu)
            ctx.longest = max(ctx.longest, (time.process_time() - t0, str(ctx.index)))
        except StepLimit:
            ctx.count("slow_cases_rechecked")
            ctx.start(ctx.index)
            attempt(lambda: count_steps(fn, MAX_STEPS), 4 * cpu)
    except Hang:
        ctx.count("inconclusive_slow_cases")
    except CaseViolation as e:
        return dict(kind=e.kind, msg=e.msg, detail={k: shorten(v) for k, v in e.detail.items()},
                    history=ctx.trace)
    except StepLimit:
        return dict(kind="no-termination", msg="more than %d steps in the code under test, or %d s of processor time" % (MAX_STEPS, 5 * cpu),
                    detail={}, history=ctx.trace)
    except MemoryError:
        return dict(kind="memory", msg="MemoryError", detail={}, history=ctx.trace)
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc()
        return dict(kind="unexpected-exception", msg="%s: %s" % (type(e).__name__, str(e)[:300]),
                    detail={"traceback": tb[-3000:]}, history=ctx.trace)
    return None


def resident():
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[1]) * 4096


MEMORY = 900 << 20  # a worker above this hands the rest of its cases to a new one


def worker(mod, ctx, jobs, cpu, deadline, out, progress):
    violations = []
    done = 0
    remaining = []
    for n, i in enumerate(jobs):
        if time.time() > deadline:
            ctx.count("cases_skipped_deadline")
            continue
        with open(progress, "w") as fh:
            fh.write(str(i))
        ctx.start(i)
        if isinstance(i, str):
            fn = lambda: getattr(mod, i)(ctx)
        else:
            fn = lambda: mod.case(ctx, i)
        v = guarded(ctx, fn, cpu)
        done += 1
        if v is not None:
            v["case"] = i
            violations.append(v)
            if len(violations) >= 3 or v["kind"] == "no-termination":
                break
        for name in os.listdir(ctx.scratch):
            shutil.rmtree(os.path.join(ctx.scratch, name), ignore_errors=True)
        if resident() > MEMORY:
            remaining = jobs[n + 1:]
            break
    ctx.count("cases", done)
    with open(out, "wb") as fh:
        pickle.dump((ctx.counts, ctx.seen, ctx.samples, ctx.known_hits, violations, ctx.longest, remaining), fh)


def run_pool(mod, pid, tier, seed, jobs, nproc, cpu, budget, root):
    deadline = time.time() + budget
    sys.stdout.flush()
    running = {}
    started = [0]

    def start(mine):
        w = started[0]
        started[0] += 1
        scratch = os.path.join(root, "w%d" % w)
        os.makedirs(scratch)
        out = os.path.join(root, "out%d" % w)
        progress = os.path.join(root, "prog%d" % w)
        pid_ = os.fork()
        if pid_ == 0:
            code = 0
            try:
                null = os.open(os.devnull, os.O_RDONLY)
                os.dup2(null, 0)
                ctx = Ctx(pid, tier, seed, scratch)
                worker(mod, ctx, mine, cpu, deadline, out, progress)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        running[pid_] = out, progress

    for w in range(nproc):
        if jobs[w::nproc]:
            start(jobs[w::nproc])
    merged = Ctx(pid, tier, seed, root)
    violations = []
    errors = []
    while running:
        pid_, status = os.wait()
        if pid_ not in running:
            continue
        out, progress = running.pop(pid_)
        if os.path.exists(out):
            with open(out, "rb") as fh:
                counts, seen, samples, known, v, longest, remaining = pickle.load(fh)
            merged.longest = max(merged.longest, longest)
            for k, n in counts.items():
                merged.count(k, n)
            merged.seen |= seen
            merged.samples.extend(samples)
            merged.known_hits.extend(known)
            violations.extend(v)
            if remaining:
                start(remaining)
        else:
            try:
                last = open(progress).read()
            except OSError:
                last = "?"
            errors.append("worker ended with status %s while running case %s" % (status, last))
    return merged, violations, errors


def read_known():
    keys = {}
    try:
        with open(os.path.join(VERIF, "known-findings.txt")) as fh:
            for line in fh:
                if line.startswith("known:"):
                    fields = dict(f.split("=", 1) for f in line.split() if "=" in f and f.split("=")[0] in ("property", "key"))
                    keys[(fields.get("property"), fields.get("key"))] = line[6:].strip()
    except OSError:
        pass
    return keys


def main(argv):
    t0 = time.time()
    faulthandler.enable()
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    replay = None
    ncases = None
    nproc = int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 4)
    args = argv[2:]
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = json.load(open(args.pop(0)))
        elif a == "--cases":
            ncases = int(args.pop(0))
        elif a == "--jobs":
            nproc = int(args.pop(0))
    root = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        load_error = None
        try:
            load_target()
            sys.path.insert(0, os.path.join(VERIF, "vf"))
            mod = importlib.import_module("props." + pid.lower())
        except Exception:
            load_error = traceback.format_exc()
        if load_error is not None:
            # the package can't even be imported
            violations = [dict(kind="unexpected-exception", msg="cannot load the code under test",
                               detail={"traceback": load_error}, history=[], case=None)]
            merged, errors = Ctx(pid, tier, seed, root), []
            level, rule, assume, required = "exploration", "n/a", [], []
        else:
            if replay is not None:
                jobs = [replay["case"]]
                seed = replay["seed"]
                tier = replay["tier"]
            else:
                n = ncases or mod.CASES[tier]
                jobs = [s for s in ("scenarios", "known") if hasattr(mod, s)] + list(range(n))
            cpu = getattr(mod, "CPU_LIMIT", {}).get(tier, 40)
            budget = 420 if tier == "quick" else 2400
            merged, violations, errors = run_pool(mod, pid, tier, seed, jobs, nproc, cpu, budget, root)
            level = getattr(mod, "LEVEL", "exploration")
            rule = mod.RULE
            assume = getattr(mod, "ASSUMPTIONS", [])
            required = getattr(mod, "REQUIRED", [])
    finally:
        shutil.rmtree(root, ignore_errors=True)

    listed = read_known()
    for key, what in merged.known_hits:
        if (pid, key) in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
        else:
            violations.append(dict(kind="unlisted-finding", msg="%s: %s" % (key, what), detail={}, history=[], case="known"))
    if errors:
        violations.append(dict(kind="worker-died", msg="; ".join(errors), detail={}, history=[], case=None))

    counts = dict(merged.counts)
    coverage = dict(evaluations=counts.get("cases", 0),
                    distinct_nontrivial=len(merged.seen),
                    rule=rule,
                    samples=merged.samples[:3] or [{"case": None, "history": []}],
                    observed={k: counts[k] for k in sorted(counts) if k != "cases"},
                    longest_case_cpu_s=round(merged.longest[0], 2), longest_case=merged.longest[1])
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage,
              assumptions=assume, wall_s=round(time.time() - t0, 2), violations=len(violations))
    if replay is None:
        with open(os.path.join(evdir, pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")

    if violations:
        rdir = os.path.join(evdir, "replay")
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(violations[:3]):
            path = os.path.join(rdir, "%s-%s.json" % (pid, v.get("case")))
            if replay is None:
                with open(path, "w") as fh:
                    json.dump(dict(property=pid, seed=seed, tier=tier, case=v.get("case"),
                                   kind=v["kind"], message=v["msg"], detail=v["detail"],
                                   history=v["history"],
                                   how="bash /verif/check.sh %s --replay %s" % (pid, path)), fh, indent=1)
            print("  %s (case %s): %s" % (v["kind"], v.get("case"), v["msg"]))
            for k, x in list(v["detail"].items())[:6]:
                print("    %s: %s" % (k, x))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    missing = [name for name in required if not counts.get(name)]
    if replay is None and missing:
        print("INCONCLUSIVE property=%s: never observed: %s" % (pid, ", ".join(missing)))
        return 2
    print("OK property=%s tier=%s seed=%d cases=%d distinct=%d oracle_evaluations=%d wall=%.1fs" % (
        pid, tier, seed, counts.get("cases", 0), len(merged.seen), counts.get("oracle_evaluations", 0), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
