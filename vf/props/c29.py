import contextlib
import hashlib
import io
import json
import os
import pickle
import random
import re
import signal

import jsonpickle
import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.executables import get_xex, create_executable_file_data
from atrcopy.kboot import KBootImage
from atrcopy.standard_delivery import StandardDeliveryImage
from atrcopy.segments import SegmentData, DefaultSegment, interleave_segments

import cli
import corpus
import segs
import session

PID = "C29"
RULE = ("two to eight images (of every kind, several with the same bytes) each get a random history of operations (open, list, read, write, "
        "delete, clear, save and reopen, annotate, write through segments, change attributes, serialize, build executables and boot disks, "
        "run a command); the histories are run interleaved in one process and each alone in a process that did nothing else; the "
        "results of all steps and the state after each step are compared; non-trivial: distinct (image, history, company)")
CASES = {"quick": 240, "thorough": 4000}
OPS = ["view", "write", "delete", "read", "missing", "toobig", "shred", "save", "style", "comment", "poke", "attributes", "json", "session", "xex", "boot",
       "command", "subset", "garbage", "metadata", "vtoc"]
REQUIRED = ["images", "steps", "same_bytes", "step_error", "two_runs"] + ["op_" + o for o in OPS] + ["kind_" + k for k in corpus.KINDS]
ASSUMPTIONS = ["images opened from separate buffers; unique identifiers of segments are excepted"]


def sha(x):
    if not isinstance(x, bytes):
        x = repr(x).encode("utf-8", "replace")
    return hashlib.sha1(x).hexdigest()[:10]


def state(parser):
    """what is in the image now"""
    try:
        return contents(parser)
    except Exception as e:
        return ["error", type(e).__name__, str(e)]


def contents(parser):
    s0 = parser.segments[0]
    img = parser.image
    return [sha(img.bytes.tobytes()) if hasattr(img, "bytes") else None, sha(s0.tobytes()), sha(s0.style.tobytes()),
            sha([(int(a), b) for a, b in s0.get_sorted_comments()]), [len(s) for s in parser.segments]]


def shown(parser):
    try:
        return description(parser)
    except Exception as e:
        return ["error", type(e).__name__, str(e)]


def description(parser):
    out = corpus.view(parser, None)
    out["verbose"] = [s.verbose_info for s in parser.segments]
    out["maps"] = [sorted(s.memory_map.items()) if s.memory_map else None for s in parser.segments]
    return out


def play(data, seed, n, d):
    """a history on one image: generator of (operation, result, state)"""
    rng = random.Random(seed)
    parser, mime = atrcopy.find_diskimage_from_data(data)
    yield "open", [mime, shown(parser)], state(parser)
    for step in range(n):
        op = rng.choice(OPS + ["write", "vtoc"] + ["command"] * 4)
        r = random.Random(rng.random())
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()) as out:
                parser, res = perform(op, parser, r, d, data)
            res = ["ok", res, out.getvalue()]
        except Exception as e:
            res = ["error", type(e).__name__, str(e)]
        yield op, res, state(parser)
    yield "end", shown(parser), state(parser)


def perform(op, parser, r, d, data):
    image = parser.image
    seg = r.choice([s for s in parser.segments if len(s)] or parser.segments)
    n = len(seg)
    res = None
    if op == "view":
        res = shown(parser)
    elif op == "metadata":
        res = [str(f.extra_metadata(image)) for f in image.files]
    elif op in ("write", "toobig"):
        name = "F%d.X" % r.randint(0, 8)
        size = r.choice([0, 1, 124, 125, 126, 256, 3000, 20000]) if op == "write" else 400000
        res = image.write_file(name, r.choice(["B", "T", ""]), r.randbytes(size))
        res = int(res) if isinstance(res, (int, np.integer)) else None
    elif op == "vtoc":
        v = image.get_vtoc_object()
        res = [str(v), int(v.num_free_sectors), [int(x[0]) for x in v.iter_free_sectors()]]
    elif op == "delete":
        image.delete_file(r.choice(image.files).filename)
    elif op == "missing":
        image.delete_file("NOSUCH.FIL")
    elif op == "read":
        res = sha(bytes(image.find_file(r.choice(image.files).filename)))
    elif op == "shred":
        image.shred(r.choice([0, 1, 255]))
    elif op == "save":
        image.save("saved")
        res = sha(cli.get(d + "/saved"))
        if r.random() < .6:
            parser, mime = atrcopy.find_diskimage("saved")
            res = [res, mime, parser.image.filename]
    elif op == "style":
        a, b = sorted((r.randint(0, n), r.randint(0, n)))
        k = r.choice(["selected", "diff", "match"])
        if r.random() < .7:
            seg.set_style_ranges([(a, b)], **{k: True})
        else:
            seg.clear_style_bits(**{k: True})
        res = [tuple(int(v) for v in x) for x in seg.get_style_ranges(**{k: True})]
    elif op == "comment":
        seg.set_comment_at(r.randrange(n), "note %d" % r.randint(0, 99))
        if r.random() < .3:
            seg.set_user_data([(0, n)], r.choice([1, 2]), r.randint(0, 9))
        res = [(int(a), b) for a, b in seg.iter_comments_in_segment()]
    elif op == "poke":
        seg[r.randrange(n)] = r.randint(0, 255)
    elif op == "attributes":
        seg.name = "named %d" % r.randint(0, 99)
        seg.memory_map[r.randint(0, 5)] = "here"
        seg.map_width = r.randint(1, 99)
        parser.segments.append(DefaultSegment(seg.rawdata[0:r.randint(0, n)], r.randint(0, 65535), name="mine"))
    elif op == "subset":
        new = seg.create_subset([r.randrange(n) for _ in range(r.randint(1, 40))], "sub")
        if r.random() < .5:
            new = interleave_segments([new, seg], 1)
        parser.segments.append(new)
        res = [sha(new.tobytes()), [int(x) for x in new.rawdata.get_indexes_from_base()[:50]]]
    elif op == "json":
        text = jsonpickle.dumps(parser)
        p = jsonpickle.loads(text)
        p.reconstruct_segments(SegmentData(np.frombuffer(data, dtype=np.uint8).copy()))
        ids = {}
        res = sha(re.sub(r'"uuid": "[^"]*"', lambda m: "uuid%d" % ids.setdefault(m.group(0), len(ids)), text)), [corpus.describe_segment(s) for s in p.segments]
    elif op == "session":
        s = {}
        parser.segments[0].serialize_session(s)
        res = json.dumps(s, sort_keys=True, default=str)
    elif op in ("xex", "boot"):
        layout = [(0x2000 + 0x1000 * k, r.randbytes(r.randint(1, 300))) for k in range(r.randint(1, 4))]
        given = [segs.segment(r, *x) for x in layout]
        run = r.choice([None, 0x2000])
        if op == "xex":
            res = r.choice([lambda: get_xex(given, run)[0].tobytes(), lambda: create_executable_file_data("A.BIN", given, run)[0].tobytes(),
                            lambda: image.create_executable_file_image("A.XEX", given, run)[0].tobytes()])()
        else:
            res = r.choice([KBootImage, StandardDeliveryImage]).create_boot_image(given, run).bytes.tobytes()
        res = sha(bytes(res))
    elif op == "command":
        cli.put(d + "/disk", image.bytes.tobytes() if hasattr(image, "bytes") else data)
        cli.put(d + "/G", b"contents" * r.randint(0, 30))
        argv = r.choice([["disk"], ["disk", "crc"], ["disk", "x", "-a", "-l", "-f"], ["disk", "x", "-a"], ["disk", "a", "G"], ["disk", "a", "-f", "-t", "T", "G"], ["disk", "rm", "G"],
                         ["disk", "list", "-m"], ["disk", "v", "-e"], ["disk", "segments"], ["--dry-run", "disk", "a", "G"], ["disk", "rm", "NOSUCH"], ["-v", "disk"],
                         ["disk", "x", "-d", "dir", "-a", "-t", "-f"], ["disk", "s", "-d", "G@2000", "-o", "OUT"], ["new", "boot", "-d", "G@2000"], ["made", "create", "dos2sd"],
                         ["made", "create", "-f", "dos33.dsk"], ["disk", "x", "-t", "-a", "-f"], ["disk", "x", "-d", "two", "-a"], ["disk", "--help"], ["disk", "vtoc"]])
        c = cli.run(argv, d)
        tree = cli.snapshot(d)
        res = [c.out, c.code, type(c.exc).__name__, str(c.exc), sorted((k, sha(v) if v is not None else None) for k, v in tree.items())]
    elif op == "garbage":
        bad = bytearray(data)
        for _ in range(r.randint(1, 30)):
            bad[r.randrange(len(bad))] = r.randint(0, 255)
        try:
            p, m = atrcopy.find_diskimage_from_data(bytes(bad[:r.choice([len(bad), len(bad), r.randint(0, len(bad))])]))
            res = [m, shown(p)]
        except errors.AtrError as e:
            res = [type(e).__name__, str(e)]
    return parser, res


def forked(fn):
    """result of fn in a process of its own that has done nothing before"""
    a, b = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(240)
            os.close(a)
            try:
                r = ("ok", fn())
            except BaseException as e:
                import traceback
                r = ("error", "%r %s" % (e, traceback.format_exc()[-1500:]))
            with os.fdopen(b, "wb") as fh:
                pickle.dump(r, fh)
        finally:
            os._exit(0)
    os.close(b)
    with os.fdopen(a, "rb") as fh:
        got = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(got) if got else ("died", None)


def together(plays, order):
    gens = [play(*p) for p in plays]
    out = [[] for _ in gens]
    for k in order:
        out[k].append(next(gens[k]))
    return out


def case(ctx, i):
    rng = ctx.rng
    k = rng.randint(2, 8) if ctx.tier == "thorough" or rng.random() < .3 else rng.randint(2, 4)
    plays = []
    kinds = []
    for j in range(k):
        n = rng.randint(2, 12)
        seed = rng.getrandbits(60)
        if plays and rng.random() < .35:
            j2 = rng.randrange(len(plays))
            data, kind = plays[j2][0], kinds[j2]
            if rng.random() < .4:
                seed, n = plays[j2][1:3]
                ctx.count("two_runs")
            ctx.count("same_bytes")
        elif rng.random() < .3:
            name, data = session.start_image(ctx)
            kind = "disk"
        else:
            kind, data = corpus.make(rng, small=True)
        kinds.append(kind)
        ctx.count("kind_" + kind)
        plays.append((data, seed, n, ctx.tmp()))
    order = [j for j in range(k) for _ in range(plays[j][2] + 2)]
    if rng.random() < .8:
        rng.shuffle(order)
    ctx.log("images", kinds, "steps", [p[2] for p in plays])
    how, all_of_them = forked(lambda: together(plays, order))
    if how != "ok":
        ctx.fail("together", "histories on %s together: %s" % (kinds, all_of_them))
    alone = {}
    for j, (data, seed, n, d) in enumerate(plays):
        key = (data, seed, n)
        if key not in alone:
            own = ctx.tmp()
            how, alone[key] = forked(lambda: list(play(data, seed, n, own)))
            ctx.require(how == "ok", "alone", "history on %s alone: %s" % (kinds[j], alone[key]))
        ctx.count("images")
        ctx.distinct(sha(data), seed, len(plays))
        for step, (one, two) in enumerate(zip(alone[key], all_of_them[j])):
            ctx.count("steps")
            ctx.count("op_" + one[0])
            ctx.count("step_error", one[1] and isinstance(one[1], list) and one[1][0] == "error")
            ctx.require(one == two, one[0], "image %d (%s), step %d (%s): alone %s, among %s %s" % (
                (j, kinds[j], step, one[0]) + difference(one, two)[:1] + (kinds,) + difference(one, two)[1:]))
    ctx.sample()


def difference(a, b, depth=0):
    if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b) and depth < 8:
        for x, y in zip(a, b):
            if x != y:
                return difference(x, y, depth + 1)
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a:
            if a[k] != b.get(k):
                return difference(a[k], b.get(k), depth + 1)
    return repr(a)[:300], repr(b)[:300]
