import atrcopy
from atrcopy import errors
from atrcopy.executables import get_xex, create_executable_file_data

import execs
import segs
import session

PID = "C13"
RULE = ("random lists of 1-8 segments (1-4000 bytes at any address, adjacent, overlapping, at the end of memory, run/init vectors; stored "
        "contiguously, as windows or byte by byte out of a bigger array) with default, inside, boundary and outside run addresses are "
        "built through the three public entry points; the file is loaded by an independent loader and inputs are compared before and "
        "after; non-trivial: distinct (layout, run address)")
CASES = {"quick": 15000, "thorough": 60000}
REQUIRED = ["built", "rejected_run", "run_inside", "run_default", "run_vector_given", "indexed_inputs", "via_image"]
ASSUMPTIONS = ["segments aren't empty and end at $FFFF or below", "run addresses other than 0; a $2E0 segment holds both bytes",
               "no segment starts at $FFFF, which the file format reserves"]


def image(ctx):
    if not hasattr(ctx, "c13_images"):
        ctx.c13_images = [session.open_bytes(session.load("template", t)).image for t in session.TEMPLATES if t.endswith(".atr")]
    return ctx.rng.choice(ctx.c13_images)


def case(ctx, i):
    rng = ctx.rng
    layout = segs.random_layout(rng)
    layout = [(min(s, 0xffff - 1 - 0 if len(b) == 1 else s), b) for s, b in layout]
    vector = rng.random() < .15
    if vector:
        v = rng.choice(layout)[0]
        layout.insert(rng.randint(0, len(layout)), (0x2e0, v.to_bytes(2, "little") + (rng.randbytes(2) if rng.random() < .3 else b"")))
    if rng.random() < .15:
        layout.insert(rng.randint(0, len(layout)), (0x2e2, rng.randbytes(2)))
    layout = [(s, b) for s, b in layout if not (s == 0x2e0 and len(b) == 1)]
    if not layout:
        return
    has2e0 = any(s == 0x2e0 for s, b in layout)
    k = rng.random()
    s, b = rng.choice(layout)
    if k < .35:
        run = None
    elif k < .7:
        run = s + rng.choice([0, len(b) - 1, rng.randrange(len(b))])
    else:
        run = rng.choice([s - 1, s + len(b), rng.randint(1, 0xffff)])
        run = max(1, min(run, 0xffff))
    if run == 0:
        run = None
    inside = run is None or any(s <= run < s + len(b) for s, b in layout)
    given = [segs.segment(rng, s, b) for s, b in layout]
    if any(g.rawdata.is_indexed for g in given):
        ctx.count("indexed_inputs")
    for g in given:
        if rng.random() < .2:
            g.set_comment_at(rng.randrange(len(g)), "note")
    before = segs.snapshot(given)
    order = list(given)
    ctx.log("layout", [(hex(s), len(b)) for s, b in layout], "run", run)
    how = rng.randrange(3)
    exc = None
    try:
        if how == 0:
            main, subs = get_xex(given, run)
            got = main.data.tobytes()
            typ = "XEX"
        elif how == 1:
            data, typ = create_executable_file_data(rng.choice(["A.XEX", "b.xex", "xex"]), given, run)
            got = bytes(data.tobytes())
        else:
            data, typ = image(ctx).create_executable_file_image(rng.choice(["A.XEX", "GAME", "AUTORUN.SYS"]), given, run)
            got = bytes(data.tobytes())
            ctx.count("via_image")
    except errors.InvalidBinaryFile as e:
        exc = e
    ctx.require(given == order and segs.snapshot(given) == before, "inputs", "building changed the input segments")
    ctx.distinct(str(layout), run)
    if has2e0:
        ctx.count("run_vector_given")
        ctx.require(exc is None, "rejected", "valid segments rejected: %s" % exc)
    else:
        if not inside:
            ctx.require(exc is not None, "run", "run address %04x outside all segments accepted" % run)
            ctx.count("rejected_run")
            ctx.sample()
            return
        ctx.require(exc is None, "rejected", "valid segments rejected: %s" % exc)
        ctx.count("run_default" if run is None else "run_inside")
    ctx.require(typ == "XEX", "type", "file type %s" % typ)
    try:
        blocks = execs.parse_xex(got)
    except execs.BadExec as e:
        ctx.fail("format", "loader rejects the file: %s" % e, file=got)
    ctx.require(execs.writes(blocks) == execs.writes(layout), "load", "loads other bytes than given",
                loads=[(hex(s), len(b)) for s, b in blocks])
    want = execs.run_vector(layout, run if run is not None else layout[0][0])
    ctx.require(execs.run_vector(blocks) == want, "run", "run address %s, wanted %04x" % (execs.run_vector(blocks), want))
    ctx.count("built")
    ctx.sample()
