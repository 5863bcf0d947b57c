import numpy as np

from atrcopy.segments import SegmentData, DefaultSegment, ObjSegment, SegmentedFileSegment, SegmentSaver, interleave_segments

PID = "C18"
RULE = ("random histories over one container: views are derived from views by slicing, arbitrary byte orders (with repeats), subsets, "
        "interleaving and nesting to depth 12; bytes are written through any view by index, range and index list; containers are copied, resized "
        "(children re-pointed) and matched with a parallel container; after every step every view is compared byte by byte with a plain "
        "list-of-indexes model; non-trivial: distinct (view index list, base size)")
CASES = {"quick": 3500, "thorough": 30000}
REQUIRED = ["slice", "indexed", "subset", "interleave", "interleave_mixed_length", "copy", "resize", "parallel", "parallel_indexed", "write_one", "write_range",
            "write_list", "write_through_indexed", "reverse_mapped", "reverse_unmapped", "search_copy", "deep", "repeats", "foreign_base_rejected",
            "compare", "empty_view", "above_64k", "interleave_wide", "truncation_rejected", "long_order"]
ASSUMPTIONS = ["slices are contiguous and go forward; byte orders hold valid non-negative indexes; the container's array owns its memory",
               "only growing a container is checked; a search copy is only current with regard to writes made through the same segment"]


class Base:
    def __init__(self, data, style):
        self.data = bytearray(data)
        self.style = bytearray(style)


class View:
    def __init__(self, seg, base, idx, origin, depth, whole=False):
        self.seg = seg
        self.base = base
        self.idx = idx
        self.origin = origin
        self.depth = depth
        self.whole = whole

    def want(self):
        d = self.base.data
        return bytes(d[i] for i in self.idx)

    def want_style(self):
        d = self.base.style
        return bytes(d[i] for i in self.idx)


def wrap(rng, raw):
    origin = rng.choice([0, 0x2000, rng.randint(0, 60000)])
    if rng.random() < .7:
        return DefaultSegment(raw, origin, name="view"), origin
    return ObjSegment(raw, 0, 0, origin, origin + len(raw), name="obj"), origin


def container(rng, n, data=None):
    data = rng.randbytes(n) if data is None else data
    k = rng.randrange(3)
    if k == 0:
        raw = SegmentData(np.frombuffer(data, dtype=np.uint8).copy())
    elif k == 1:
        raw = SegmentData(data)
    else:
        raw = SegmentData(list(data))
    cls = rng.choice([DefaultSegment, SegmentedFileSegment])
    if cls is DefaultSegment:
        seg = DefaultSegment(raw, 0, name="base")
    else:
        seg = SegmentedFileSegment(raw, 0, 0, 0, name="base")
    seg.can_resize = True
    style = bytes(rng.randrange(256) for _ in range(n))
    seg.style[:] = np.frombuffer(style, dtype=np.uint8)
    base = Base(data, style)
    return View(seg, base, list(range(n)), 0, 0, True)


def check_view(ctx, v, deep):
    rng = ctx.rng
    s = v.seg
    want = v.want()
    n = len(want)
    ctx.require(len(s) == n and len(s.rawdata) == n and len(s.data) == n, "length", "view of %d bytes has length %d" % (n, len(s)))
    got = s.tobytes()
    if got != want:
        j = next(j for j in range(n) if got[j] != want[j])
        ctx.fail("bytes", "byte %d of a view is %02x, base byte %d is %02x" % (j, got[j], v.idx[j], want[j]))
    st = s.style.tobytes()
    ctx.require(st == v.want_style(), "style", "styles of a view differ from the base")
    if not deep:
        return
    ctx.require(bytes(s[:].tobytes()) == want and bytes(s.data[:].tobytes()) == want, "bytes", "reading the whole view")
    ctx.require(bytes(s.rawdata.unindexed_data.tobytes()) == want, "bytes", "unindexed data")
    ctx.require(bytes(s.rawdata.unindexed_style.tobytes()) == v.want_style(), "style", "unindexed style")
    ctx.require(s.rawdata.bufferedio.read() == want, "bytes", "buffered reader")
    ctx.require([int(x) for x in s.rawdata.get_indexes_from_base()] == v.idx, "indexes", "indexes from the base differ",
                got=[int(x) for x in s.rawdata.get_indexes_from_base()][:40], want=v.idx[:40])
    ctx.require(bytes(SegmentSaver.encode_data(s, None)) == want, "export", "exported raw data differs")
    str(s)
    ctx.require("$%04x bytes" % n in s.verbose_info, "describe", "view of %d bytes is described as %r" % (n, s.verbose_info[:200]))
    ctx.require(not s.is_valid_index(-1) and not s.is_valid_index(n), "index", "index outside of the view is valid")
    for _ in range(4):
        if n:
            i = rng.choice([0, n - 1, rng.randrange(n)])
            ctx.require(s.is_valid_index(i), "index", "valid index refused")
            ctx.require(int(s[i]) == want[i], "bytes", "reading byte %d" % i)
            ctx.require(s.get_raw_index(i) == v.idx[i], "index", "byte %d of the view is base byte %d, not %d" % (i, v.idx[i], s.get_raw_index(i)))
            ctx.require(s.get_raw_index_from_address(v.origin + i) == v.idx[i], "address", "address %04x maps to %d" % (
                v.origin + i, s.get_raw_index_from_address(v.origin + i)))
            ctx.require(s.label(i) == "%04x" % (v.origin + i) and s.label(i, False) == "%04X" % (v.origin + i), "label", "label %s" % s.label(i))
            a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
            ctx.require(bytes(s[a:b].tobytes()) == want[a:b], "bytes", "reading bytes %d to %d" % (a, b))
        b = rng.randrange(len(v.base.data)) if v.base.data else None
        if b is None:
            continue
        try:
            r = s.get_index_from_base_index(b)
        except IndexError:
            ctx.require(b not in v.idx, "reverse", "base byte %d is in the view but not found" % b)
            ctx.count("reverse_unmapped")
        else:
            ctx.require(0 <= r < n and v.idx[r] == b, "reverse", "base byte %d said to be at %d of the view" % (b, r))
            ctx.count("reverse_mapped")
    if rng.random() < .3:
        ctx.require(s.__class__(*((s.rawdata, v.origin) if type(s) is DefaultSegment else (s.rawdata, 0, 0, v.origin))).search_copy == want,
                    "search", "search copy differs")


def derive(ctx, views):
    """one more view of the base"""
    rng = ctx.rng
    v = rng.choice(views)
    n = len(v.idx)
    k = rng.random()
    if k < .35:
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        if b == a and rng.random() < .8:
            a, b = 0, n
        form = rng.randrange(3)
        if form == 1:
            b = n
        if form == 2:
            a = 0
        raw = v.seg.rawdata[a:b] if form == 0 else v.seg.rawdata[a:] if form == 1 else v.seg.rawdata[:b]
        idx = v.idx[a:b]
        ctx.count("slice")
        if not idx:
            ctx.count("empty_view")
        what = "slice %d:%d" % (a, b)
    elif k < .7 and n:
        m = rng.randint(1, min(2 * n, 60))
        if rng.random() < .5:
            order = rng.sample(range(n), min(m, n))
        else:
            order = [rng.randrange(n) for _ in range(m)]
        if len(set(v.idx[o] for o in order)) < len(order):
            ctx.count("repeats")
        form = rng.choice([list, lambda o: np.asarray(o, dtype=np.uint32), lambda o: np.asarray(o, dtype=np.int64)])
        idx = [v.idx[o] for o in order]
        if rng.random() < .3:
            seg = v.seg.create_subset(form(order), "subset")
            ctx.count("subset")
            ctx.log("subset", len(order))
            return View(seg, v.base, idx, 0, v.depth + 1)
        raw = v.seg.rawdata.get_indexed(form(order))
        ctx.count("indexed")
        what = "order of %d" % len(order)
    else:
        parts = [rng.choice(views) for _ in range(rng.choice([1, 2, 2, 3, 4, 4, 5, 8]))]
        parts = [p for p in parts if p.idx]
        if not parts:
            return None
        nb = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 16])
        size = min(len(p.idx) for p in parts)
        size -= size % nb
        idx = []
        for j in range(0, size, nb):
            for p in parts:
                idx += p.idx[j:j + nb]
        if len(idx) > 600 or not idx:
            return None
        seg = interleave_segments([p.seg for p in parts], nb)
        ctx.count("interleave")
        ctx.count("interleave_wide", nb > 6 and len(parts) > 3)
        if len(set(len(p.idx) for p in parts)) > 1:
            ctx.count("interleave_mixed_length")
        ctx.log("interleave", [len(p.idx) for p in parts], nb)
        return View(seg, v.base, idx, 0, 1 + max(p.depth for p in parts))
    ctx.log(what, "of", n)
    seg, origin = wrap(rng, raw)
    return View(seg, v.base, idx, origin, v.depth + 1)


def write(ctx, views):
    rng = ctx.rng
    v = rng.choice(views)
    n = len(v.idx)
    if not n:
        return
    base = v.base.data
    k = rng.randrange(3)
    target = rng.choice([v.seg, v.seg, v.seg.data])
    if target is v.seg and rng.random() < .5:
        v.seg.search_copy     # so that there is a copy to get out of date
    if v.seg.rawdata.is_indexed:
        ctx.count("write_through_indexed")
    if k == 0:
        i = rng.choice([0, n - 1, rng.randrange(n), -1])
        val = rng.randrange(256)
        target[i] = val
        base[v.idx[i]] = val
        ctx.count("write_one")
    elif k == 1:
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        if rng.random() < .3:
            val = rng.randrange(256)
            target[a:b] = val
            vals = [val] * (b - a)
        else:
            vals = list(rng.randbytes(b - a))
            sub = v.idx[a:b]
            if len(set(sub)) < len(sub):
                vals = [7] * (b - a)
            target[a:b] = np.asarray(vals, dtype=np.uint8)
        for i, val in zip(range(a, b), vals):
            base[v.idx[i]] = val
        ctx.count("write_range")
    else:
        order = rng.sample(range(n), rng.randint(1, min(n, 8)))
        vals = list(rng.randbytes(len(order)))
        if len(set(v.idx[o] for o in order)) < len(order):
            vals = [9] * len(order)
        target[np.asarray(order)] = np.asarray(vals, dtype=np.uint8)
        for o, val in zip(order, vals):
            base[v.idx[o]] = val
        ctx.count("write_list")
    if target is v.seg:
        ctx.require(v.seg.search_copy == v.want(), "search", "search copy out of date after a write through the segment")
        ctx.count("search_copy")


def case(ctx, i):
    rng = ctx.rng
    n = rng.choice([1, 2, 5, 16, 100, rng.randint(1, 400)])
    big = i % 70 == 69
    if big:
        # positions need more than 16 bits
        n = rng.choice([65536, 65537, rng.randint(65538, 140000)])
    groups = [[container(rng, n)]]
    if big:
        top = groups[0][0]
        a = rng.choice([65530, 65536, n - 200, rng.randint(65400, n - 100)])
        b = min(n, a + rng.randint(1, 300))
        seg, origin = wrap(rng, top.seg.rawdata[a:b])
        groups[0].append(View(seg, top.base, list(range(a, b)), origin, 1))
        ctx.count("above_64k", b > 65536)
        if rng.random() < .5:
            order = list(range(0, n, 2)) + list(range(1, n, 2))
            order = order[rng.randrange(3):]
            seg = DefaultSegment(top.seg.rawdata.get_indexed(order), 0, name="long order")
            v = View(seg, top.base, order, 0, 1)
            groups[0].append(v)
            for b in [0, 1, n - 1, n - 2] + [rng.randrange(n) for _ in range(8)]:
                if b in order[:3] or b in order[-3:] or b > 8:
                    r = seg.get_index_from_base_index(b)
                    ctx.require(0 <= r < len(order) and order[r] == b, "reverse", "base byte %d said to be at %d of a long view" % (b, r))
            ctx.count("long_order")
    for step in range(rng.randint(4, 8) if big else rng.randint(8, 30)):
        views = rng.choice(groups)
        k = rng.random()
        if k < .45:
            v = derive(ctx, views)
            if v is not None:
                views.append(v)
                ctx.count("deep", v.depth >= 4)
                ctx.distinct(len(v.base.data), str(v.idx))
                check_view(ctx, v, True)
        elif k < .75:
            write(ctx, views)
            ctx.log("write")
        elif k < .82 and len(groups) < 3:
            v = rng.choice(views)
            raw = v.seg.rawdata.copy()
            base = Base(v.base.data, v.base.style)
            seg, origin = wrap(rng, raw)
            groups.append([View(seg, base, list(v.idx), origin, v.depth)])
            ctx.count("copy")
            ctx.log("copy")
        elif k < .9:
            top = views[0]
            if not top.whole:
                continue
            old = len(top.base.data)
            new = old + rng.choice([0, 1, 7, rng.randint(1, 100)])
            got = top.seg.resize(new)
            ctx.log("resize", old, new)
            ctx.require(tuple(got) == (old, new), "resize", "resize returns %s" % (got,))
            top.base.data += bytes(new - old)
            top.base.style += bytes(new - old)
            top.idx = list(range(new))
            for v in views[1:]:
                if v.whole:
                    v.idx = list(range(new))
                v.seg.replace_data(top.seg)
            # a window on the resized container
            a, b = sorted((rng.randint(0, new), rng.randint(0, new)))
            seg, origin = wrap(rng, top.seg.rawdata[a:b])
            views.append(View(seg, top.base, list(range(a, b)), origin, 1))
            ctx.count("resize")
        elif k < .96:
            v = rng.choice(views)
            other = container(rng, len(v.base.data))
            raw = other.seg.get_parallel_raw_data(v.seg)
            seg, origin = wrap(rng, raw)
            p = View(seg, other.base, list(v.idx), origin, 1)
            ctx.log("parallel")
            ctx.count("parallel")
            ctx.count("parallel_indexed", v.seg.rawdata.is_indexed)
            check_view(ctx, p, True)
            write(ctx, [p])
            check_view(ctx, p, True)
            check_view(ctx, other, True)
            if v.idx:
                # marks exactly the differing bytes
                before = v.want_style()
                v.seg.compare_segment(p.seg)
                a, b = v.want(), p.want()
                for j, x in enumerate(v.idx):
                    v.base.style[x] &= 0xef
                for j, x in enumerate(v.idx):
                    if a[j] != b[j]:
                        v.base.style[x] |= 0x10
                ctx.count("compare")
                ctx.log("compare")
        elif k < .98:
            v = rng.choice(views)
            if v.whole or not v.idx or v.base is not views[0].base:
                continue
            # a container without the view's last bytes; only containers can be resized
            small = container(rng, rng.randint(0, max(v.idx)))
            for f in (lambda: v.seg.replace_data(small.seg), lambda: v.seg.resize(len(v.idx) + 1)):
                try:
                    f()
                except Exception:
                    ctx.count("truncation_rejected")
                else:
                    ctx.require(False, "truncate", "view of %d bytes re-pointed to a container of %d bytes, or resized" % (len(v.idx), len(small.idx)))
        else:
            other = container(rng, n)
            try:
                interleave_segments([views[0].seg, other.seg], 1)
            except ValueError:
                ctx.count("foreign_base_rejected")
            else:
                ctx.require(False, "foreign", "segments of two different images interleaved")
        deep = rng.random() < .3
        for g in groups:
            if len(g) > 14:
                del g[rng.randrange(1, len(g))]
            for v in g:
                check_view(ctx, v, deep)
    ctx.sample()
