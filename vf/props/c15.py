import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.executables import get_bsave, create_executable_file_data
from atrcopy.parsers import Dos33BinSegmentParser
from atrcopy.segments import SegmentData, BSAVESaver

import execs
import segs
import session

PID = "C15"
RULE = ("random segment lists (gaps, overlaps, adjacency, any storage form) and run addresses (lowest, inside, boundary, outside) are built "
        "through the three public entry points and loaded by an independent BLOAD; single segments are exported; the built files "
        "and random binaries, complete, cut or extended at any byte, are parsed back; non-trivial: distinct layouts and files")
CASES = {"quick": 8000, "thorough": 40000}
REQUIRED = ["built", "with_jump", "without_jump", "rejected_run", "overlaps", "gaps", "exported", "parsed", "length_rejected", "via_image"]
ASSUMPTIONS = ["segments aren't empty; lowest address 4 or above; run addresses other than 0"]


def image(ctx):
    if not hasattr(ctx, "c15_images"):
        ctx.c15_images = [session.open_bytes(session.load("template", t)).image for t in session.TEMPLATES if t.endswith(".dsk")]
    return ctx.rng.choice(ctx.c15_images)


def parse(ctx, b, how):
    if how:
        return Dos33BinSegmentParser(SegmentData(np.frombuffer(b, dtype=np.uint8).copy()), ctx.rng.random() < .5)
    return atrcopy.find_diskimage_from_data(b)[0]


def judge_parse(ctx, b):
    """b: a correct BSAVE file"""
    rng = ctx.rng
    start, data, rest = execs.parse_bsave(b)
    ctx.count("parsed")
    parser = parse(ctx, b, True)
    s = parser.image.segments
    ctx.require(len(s) == 1, "parse", "%d segments from one binary" % len(s))
    ctx.require(int(s[0].origin) == start, "parse", "loads at %04x, shown at %04x" % (start, s[0].origin))
    ctx.require(s[0].tobytes() == data, "parse", "data differs", got=s[0].tobytes(), want=data)
    ctx.require(parser.segments[0].tobytes() == b and parser.segments[1] is s[0], "parse", "segments of the file")
    if data:
        j = rng.randrange(len(data))
        ctx.require(int(s[0].get_raw_index(j)) == j + 4, "parse", "byte %d maps to file position %d" % (j, s[0].get_raw_index(j)))
    # wrong length
    k = rng.random()
    if k < .4:
        bad = b + rng.randbytes(rng.choice([1, 2, 100, 256]))
    elif k < .8:
        bad = b[:rng.randint(0, len(b) - 1)]
    else:
        bad = b[:2] + ((len(data) + rng.choice([1, -1, 255, -256, 4, -4])) & 0xffff).to_bytes(2, "little") + b[4:]
    # some cuts are complete binaries
    if len(bad) >= 4 and (bad[2] | bad[3] << 8) == len(bad) - 4:
        return
    try:
        p = parse(ctx, bad, True)
    except errors.AtrError:
        ctx.count("length_rejected")
    else:
        ctx.fail("accepted", "%d bytes with a length field of %s accepted as a binary" % (len(bad), bad[2:4].hex()))
    try:
        p = parse(ctx, bad, False)
    except errors.AtrError:
        pass
    else:
        ctx.require(not isinstance(p, Dos33BinSegmentParser), "accepted", "detected as a binary in spite of its length")


def case(ctx, i):
    rng = ctx.rng
    if i % 4 == 3:
        n = rng.choice([0, 1, 2, 255, 256, 257, rng.randint(0, 20000), 65535])
        start = rng.choice([0, 0x800, 0x2000, 0xffff, rng.randint(0, 65535)])
        body = rng.randbytes(n)
        b = start.to_bytes(2, "little") + n.to_bytes(2, "little") + body
        ctx.log("binary", hex(start), n)
        ctx.distinct(hash(b))
        judge_parse(ctx, b)
        if n and start + n <= 65536:
            s = segs.segment(rng, start, body)
            ctx.require(bytes(BSAVESaver.encode_data(s, None)) == b, "export", "exported segment isn't its binary")
            ctx.count("exported")
        ctx.sample()
        return
    lo = rng.choice([4, 0x800, 0x2000])
    layout = segs.random_layout(rng, lo=lo, hi=rng.choice([lo + 3000, min(65536, lo + 30000), 65536]), maxlen=2500)
    low = min(s for s, b in layout)
    k = rng.random()
    s, b = rng.choice(layout)
    if k < .25:
        run = None
    elif k < .35:
        run = low
    elif k < .7:
        run = s + rng.choice([0, len(b) - 1, rng.randrange(len(b))])
    else:
        run = max(1, min(0xffff, rng.choice([s - 1, s + len(b), low - 3, low - 1, rng.randint(1, 0xffff)])))
    inside = run is None or any(s <= run < s + len(b) for s, b in layout)
    given = [segs.segment(rng, s, b) for s, b in layout]
    before = segs.snapshot(given)
    order = list(given)
    ctx.log("layout", [(hex(s), len(b)) for s, b in layout], "run", run)
    ctx.distinct(str(layout), run)
    exc = None
    how = rng.randrange(3)
    typ = "B"
    try:
        if how == 0:
            got = get_bsave(given, run).tobytes()
        elif how == 1:
            data, typ = create_executable_file_data(rng.choice(["a.bin", "B.BSAVE", "x.BIN"]), given, run)
            got = data.tobytes()
        else:
            data, typ = image(ctx).create_executable_file_image(rng.choice(["GAME", "HELLO WORLD", "A.BIN"]), given, run)
            got = data.tobytes()
            ctx.count("via_image")
    except errors.InvalidBinaryFile as e:
        exc = e
    ctx.require(given == order and segs.snapshot(given) == before, "inputs", "building changed the input segments")
    if not inside:
        ctx.require(exc is not None, "run", "run address %04x outside all segments accepted" % run)
        ctx.count("rejected_run")
        return
    ctx.require(exc is None, "rejected", "valid segments rejected: %s" % exc)
    ctx.require(typ == "B", "type", "file type %s" % typ)
    try:
        start, data, rest = execs.parse_bsave(got)
    except execs.BadExec as e:
        ctx.fail("format", "not loadable: %s" % e, file=got)
    want = execs.expected_bsave(layout, run)
    ctx.require(not rest and len(data) == len(want[1]), "length", "header says %d bytes, %d follow, wanted %d" % (len(data), len(got) - 4, len(want[1])))
    ctx.require(start == want[0], "address", "loads at %04x, wanted %04x" % (start, want[0]))
    ctx.require(data == want[1], "load", "memory after loading differs", got=data, want=want[1])
    ctx.count("built")
    ctx.count("with_jump" if run and run != low else "without_jump")
    cover = sum(len(b) for s, b in layout)
    span = len(set(a for s, b in layout for a in range(s, s + len(b))))
    if span < cover:
        ctx.count("overlaps")
    if span < max(s + len(b) for s, b in layout) - low:
        ctx.count("gaps")
    judge_parse(ctx, got)
    ctx.sample()
