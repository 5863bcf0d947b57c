import jsonpickle
import numpy as np

import atrcopy
from atrcopy import parsers
from atrcopy.segments import SegmentData, DefaultSegment, ObjSegment, SegmentedFileSegment, RawSectorsSegment, interleave_segments

import corpus

PID = "C19"
RULE = ("valid images of every kind are opened, user-made segments (slices, byte orders, empty ones, interleaves, changed attributes) are added, "
        "and the parser or the list of segments goes through JSON text and is restored against a copy of the data; every segment "
        "is compared with its original (kind, attributes, text, bytes, every index) and written through; non-trivial: distinct (image "
        "kind, segment kinds)")
CASES = {"quick": 1200, "thorough": 20000}
REQUIRED = ["restored", "via_parser", "via_list", "user_slice", "user_order", "user_interleave", "user_empty_order", "attributes", "written", "forced_cart",
            "twice"] + ["kind_" + k for k in corpus.KINDS]
ATTRS = ["origin", "error", "name", "verbose_name", "page_size", "map_width", "uuid", "can_resize", "memory_map", "metadata_start", "data_start",
         "boot_sector_size", "num_boot_sectors", "first_sector", "num_sectors"]
FORCED = {46: 4, 58: 4, 1: 8, 2: 16, 5: 32, 12: 32, 19: 8, 4: 32, 14: 128, 20: 4, 57: 2}


def opened(ctx):
    """(parser, base SegmentData for user segments, function restoring data)"""
    rng = ctx.rng
    if rng.random() < .12:
        t = rng.choice(sorted(FORCED))
        data = rng.randbytes(FORCED[t] * 1024)
        cls = [p for m in ("application/vnd.atari8bit.cart", "application/vnd.atari5200.cart") for p in parsers.mime_parsers[m]
               if p.cart_type == t]
        ctx.require(len(cls) == 1, "types", "%d parsers for cartridge type %d" % (len(cls), t))
        ctx.count("forced_cart")
        return "forced%d" % t, cls[0](SegmentData(data)), data
    kind, data = corpus.make(rng, small=True)
    parser, mime = atrcopy.find_diskimage_from_data(data)
    ctx.count("kind_" + kind)
    return kind, parser, data


def add_user(ctx, parser):
    rng = ctx.rng
    base = parser.segments[0].rawdata
    if isinstance(parser, parsers.MameZipParser):
        base = parser.image.rawdata
    mine = []
    pool = [s for s in parser.segments if s.rawdata.data_base is base.data_base and len(s)] or [DefaultSegment(base)]
    for _ in range(rng.randint(0, 5)):
        s = rng.choice(pool)
        n = len(s)
        k = rng.random()
        if k < .3:
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            raw = s.rawdata[a:b]
            new = DefaultSegment(raw, rng.randint(0, 65535), name="slice")
            ctx.count("user_slice")
        elif k < .6:
            order = [rng.randrange(n) for _ in range(rng.randint(1, 60))]
            new = rng.choice([lambda: s.create_subset(order, "order", rng.choice(["", "long name"])),
                              lambda: ObjSegment(s.rawdata.get_indexed(order), 3, 4, 0x2000, name="o"),
                              lambda: SegmentedFileSegment(s.rawdata.get_indexed(order), 3, 4, 0x2000, name="o")])()
            ctx.count("user_order")
        elif k < .7:
            new = s.create_subset([], "none")
            ctx.count("user_empty_order")
        else:
            parts = [rng.choice(pool) for _ in range(rng.randint(2, 3))]
            if min(len(p) for p in parts) > 3000:
                parts[0] = DefaultSegment(parts[0].rawdata[0:rng.randint(1, 300)])
            new = interleave_segments(parts, rng.choice([1, 2, 3]))
            new.name = "interleaved"
            ctx.count("user_interleave")
        if rng.random() < .5:
            new.name = rng.choice(["x", "n\u00e4me \u2603", "", "a\"b\\"])
            new.error = rng.choice([None, "some error"])
            new.page_size = rng.choice([-1, 128, 256])
            new.map_width = rng.randint(1, 256)
            new.memory_map = dict((rng.choice([0, 65535, rng.randint(0, 65535)]), rng.choice(["vec", "irq", "", 0, 5])) for _ in range(rng.choice([0, 1, 2, 4, 4, 20, 300])))
            new.can_resize = rng.random() < .5
            new.verbose_name = rng.choice([None, "verbose"])
            ctx.count("attributes")
        mine.append(new)
        if len(new):
            pool.append(new)
    if rng.random() < .3:
        raw = base[0:min(len(base), 700)]
        mine.append(RawSectorsSegment(raw, rng.randint(0, 5), len(raw) // 128, len(raw), 128, rng.randint(0, 3), 256, name="sectors"))
    return mine


def state(s):
    d = {"type": type(s), "len": len(s), "str": str(s), "info": s.verbose_info, "bytes": s.tobytes(),
         "order": np.asarray(s.rawdata.get_indexes_from_base(), dtype=np.int64).tobytes(), "is_indexed": s.rawdata.is_indexed,
         "bounds": tuple(int(x) for x in s.byte_bounds_offset()) if len(s) else None}
    for a in ATTRS:
        d[a] = getattr(s, a, "missing")
    if hasattr(s, "run_address") and len(s) > 1:
        d["run"] = int(s.run_address())
    n = len(s)
    if n:
        d["labels"] = [s.label(0), s.label(n - 1), s.label(n // 2)]
    return d


def case(ctx, i):
    rng = ctx.rng
    kind, parser, data = opened(ctx)
    mine = add_user(ctx, parser)
    parser.segments.extend(mine)
    ctx.log("kind", kind, "segments", len(parser.segments))
    ctx.distinct(kind, str([(type(s).__name__, len(s)) for s in parser.segments]))
    originals = [state(s) for s in parser.segments]
    newbase = SegmentData(np.frombuffer(data, dtype=np.uint8).copy())
    zipped = isinstance(parser, parsers.MameZipParser)
    p = parser
    rounds = 1
    if rng.random() < .3:
        rounds = 2
        ctx.count("twice")
    for _ in range(rounds):
        if zipped or rng.random() < .6:
            text = jsonpickle.dumps(p)
            p = jsonpickle.loads(text)
            ctx.require(type(p) is type(parser), "parser", "restored as %s" % type(p).__name__)
            ctx.require(p.strict == parser.strict, "parser", "strict flag lost")
            p.reconstruct_segments(newbase)
            base = p.image.rawdata if zipped else newbase
            ctx.count("via_parser")
        else:
            text = jsonpickle.dumps(p.segments)
            restored = jsonpickle.loads(text)
            for s in restored:
                s.reconstruct_raw(newbase)
            class Holder:
                pass
            q = Holder()
            q.segments = restored
            q.strict = parser.strict
            p = parser_like(parser, q)
            base = newbase
            ctx.count("via_list")
        ctx.require(isinstance(text, str) and len(p.segments) == len(originals), "count", "%d segments restored of %d" % (len(p.segments), len(originals)))
        for j, (s, want) in enumerate(zip(p.segments, originals)):
            got = state(s)
            for key in want:
                ctx.require(got[key] == want[key], "differs", "segment %d (%s): %s is %r, was %r" % (
                    j, want["name"], key, trunc(got[key]), trunc(want[key])))
            if j or not zipped:
                ctx.require(s.rawdata.data_base is base.data, "base", "segment %d isn't a view of the new data" % j)
            ctx.count("restored")
    # live views
    live = [s for j, s in enumerate(p.segments) if len(s) and (j or not zipped)]
    for s in rng.sample(live, min(3, len(live))):
        k = rng.randrange(len(s))
        b = s.get_raw_index(k)
        before = base.data.tobytes()
        s[k] = (int(s[k]) + 1) & 255
        after = base.data.tobytes()
        ctx.require([x for x in range(len(before)) if before[x] != after[x]] == [b] if len(before) < 5000 else
                    before[:b] + after[b:b + 1] + before[b + 1:] == after and before[b] != after[b], "live", "write didn't reach base byte %d" % b)
        ctx.count("written")
    ctx.sample()


def parser_like(parser, holder):
    p = parser.__class__.__new__(parser.__class__)
    p.segments = holder.segments
    p.strict = holder.strict
    return p


def trunc(x):
    r = repr(x)
    return r if len(r) < 200 else r[:200] + "..."
