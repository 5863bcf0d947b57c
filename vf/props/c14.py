import re

import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.parsers import XexSegmentParser
from atrcopy.segments import SegmentData

import corpus
import execs

PID = "C14"
RULE = ("random executables (1-9 blocks at any address, extra $FFFF markers anywhere, run/init blocks, reversed addresses) complete or cut "
        "off at any byte are parsed through detection and directly; the segments are compared with an independent parser and each "
        "byte is followed back to the file in both directions (index and write-through); non-trivial: distinct files")
CASES = {"quick": 15000, "thorough": 60000}
REQUIRED = ["complete", "cut_in_data", "cut_in_header", "cut_one_byte", "cut_before_data", "reversed_rejected", "run_blocks", "markers",
            "write_through", "detected", "position_shown", "position_above_64k"]


def build(ctx):
    rng = ctx.rng
    out = bytearray(b"\xff\xff")
    blocks = []   # (start, data, header position)
    for i in range(rng.randint(1, 9)):
        while rng.random() < .2:
            out += b"\xff\xff"
            ctx.count("markers")
        k = rng.random()
        n = rng.choice([1, 2, 3, rng.randint(1, 50), rng.randint(1, 2500)])
        if k < .12:
            start, n = 0x2e0, rng.choice([2, 4])
        elif k < .2:
            start, n = 0x2e2, 2
        else:
            start = rng.choice([rng.randint(0, 65536 - n), 65536 - n, 0, 0x2000])
        if rng.random() < .005:
            # a whole or nearly whole memory image
            start = rng.randint(0, 2)
            n = 65536 - start - rng.randint(0, 1)
        elif rng.random() < .02:
            n = rng.randint(32767, 40000)
            start = rng.randint(0, 65536 - n)
        if start == 0xffff:
            start = 0xfffe
        data = rng.choice([rng.randbytes(n), b"\xff" * n, bytes(n)])
        blocks.append((start, data, len(out)))
        out += start.to_bytes(2, "little") + (start + n - 1).to_bytes(2, "little") + data
    while rng.random() < .1:
        out += b"\xff\xff"
        ctx.count("markers")
    return bytes(out), blocks


def expected(b):
    """[(start, data, position, complete)]; None if not an executable"""
    out = []
    p = 0
    first = True
    while p < len(b):
        if len(b) - p == 1:
            out.append((0, b[p:], p, "one_byte"))
            break
        s = b[p] | b[p + 1] << 8
        if s == 0xffff:
            p += 2
            first = False
            continue
        if first:
            return None
        if len(b) - p < 4:
            out.append((0, b[p:], p, "in_header"))
            break
        e = b[p + 2] | b[p + 3] << 8
        if e < s:
            return None
        n = e - s + 1
        d = b[p + 4:p + 4 + n]
        out.append((s, d, p + 4, "" if len(d) == n else "in_data" if d else "before_data"))
        if len(d) < n:
            break
        p += 4 + n
    return out


def case(ctx, i):
    rng = ctx.rng
    b, blocks = build(ctx)
    k = rng.random()
    if k < .5:
        cut = rng.randint(2, len(b))
        if rng.random() < .5:
            s, d, p = rng.choice(blocks)
            cut = p + rng.choice([1, 2, 3, 4, 5])
        b = b[:cut]
    elif k < .6:
        s, d, p = rng.choice(blocks)
        bb = bytearray(b)
        bb[p:p + 4] = (s + 1 if s < 0xfffe else 0xfffe).to_bytes(2, "little") + max(0, s - rng.randint(0, 3)).to_bytes(2, "little")
        b = bytes(bb)
    want = expected(b)
    ctx.log("file", len(b), [(hex(w[0]), len(w[1]), w[3]) for w in want or []])
    ctx.distinct(hash(b))
    base = np.frombuffer(b, dtype=np.uint8).copy()
    how = rng.random()
    exc = None
    try:
        if how < .5:
            parser = XexSegmentParser(SegmentData(base))
        else:
            parser, mime = atrcopy.find_diskimage_from_data(base)
            if not isinstance(parser, XexSegmentParser):
                # small ones may be something else's size; C25 judges that
                ctx.count("detected_as_other")
                if want is None:
                    return
                parser = XexSegmentParser(SegmentData(base))
            else:
                ctx.count("detected")
    except errors.AtrError as e:
        exc = e
    if want is None:
        ctx.require(exc is not None, "accepted", "file with reversed block addresses accepted")
        ctx.count("reversed_rejected")
        return
    ctx.require(exc is None, "rejected", "executable rejected: %r" % exc)
    got = parser.image.segments
    ctx.require(len(got) == len(want), "count", "%d segments, file has %d blocks" % (len(got), len(want)),
                got=[str(g) for g in got], want=[(hex(w[0]), len(w[1]), w[3]) for w in want])
    whole = parser.segments[0]
    ctx.require(whole.tobytes() == b, "container", "the whole-file segment isn't the file")
    ctx.require([id(s) for s in parser.segments[1:]] == [id(s) for s in got], "segments", "parser and image disagree on the segments")
    for g, (start, data, pos, state) in zip(got, want):
        ctx.require(g.tobytes() == data and len(g) == len(data), "bytes", "block at %04x: %d bytes, file has %d" % (start, len(g), len(data)))
        if state in ("", "in_data", "before_data"):
            ctx.require(int(g.origin) == start, "address", "block at %04x shown at %04x" % (start, g.origin))
        if state:
            ctx.count("cut_" + state)
            text = (str(g) + " " + str(g.error)).lower()
            ctx.require("incomplete" in text or "short" in text, "unreported", "incomplete block looks complete: %s" % g)
        else:
            text = str(g).lower()
            ctx.require("incomplete" not in text and "short" not in text, "reported", "complete block reported as %s" % g)
        shown = re.search(r"\(\$([0-9a-f]+) @ \$([0-9a-f]+)\)", str(g))
        if shown and state in ("", "in_data", "before_data"):
            ctx.require(int(shown.group(2), 16) == pos, "shown", "block at %04x is shown at file position $%s, is at $%x" % (start, shown.group(2), pos))
            if not state:
                ctx.require(int(shown.group(1), 16) == len(data), "shown", "block at %04x is shown with length $%s, has $%x" % (start, shown.group(1), len(data)))
            ctx.count("position_shown")
            if pos > 65535:
                ctx.count("position_above_64k")
        for _ in range(3):
            if not data:
                break
            j = rng.choice([0, len(data) - 1, rng.randrange(len(data))])
            ctx.require(int(g.get_raw_index(j)) == pos + j, "position", "byte %d of the block at %04x maps to file position %d, is at %d" % (
                j, start, g.get_raw_index(j), pos + j))
            if not state:
                a = start + j
                ctx.require(g.is_valid_index(j), "index", "index %d not valid" % j)
        if start == 0x2e0 and not state and len(data) >= 2:
            ctx.count("run_blocks")
            ctx.require(int(g.run_address()) == (data[0] | data[1] << 8), "run", "run address %s" % g.run_address())
    # windows: writes go through
    live = [(g, w) for g, w in zip(got, want) if len(g)]
    if live:
        g, w = rng.choice(live)
        j = rng.randrange(len(g))
        v = (int(g[j]) + 1) & 255
        g[j] = v
        after = bytearray(b)
        after[w[2] + j] = v
        ctx.require(base.tobytes() == bytes(after), "window", "writing byte %d of the block at %04x changed other bytes" % (j, w[0]))
        ctx.count("write_through")
    if want and not want[-1][3]:
        ctx.count("complete")
    ctx.sample()
