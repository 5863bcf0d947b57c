import json

import numpy as np

from atrcopy.executables import get_xex
from atrcopy.segments import SegmentData, DefaultSegment, interleave_segments

PID = "C20"
RULE = ("random histories of setting, clearing and removing comments, styles and user data through random views (windows, byte orders, "
        "interleaves) of one container, mixed with undo, fix-up, session save/restore on a fresh copy and building executables; "
        "after every step the styles and comments of every view are compared with a per-byte model; range queries are compared with "
        "runs computed from the model; non-trivial: distinct states of the model")
CASES = {"quick": 2500, "thorough": 40000}
REQUIRED = ["set_style", "clear_style", "clear_bits", "style_at", "rect", "set_comment", "set_comment_at", "remove_comment", "clear_comment",
            "remove_many", "set_many", "user_data", "undo", "undo_changed", "session", "session_user_style", "session_old", "fixup", "xex", "xex_comments",
            "ranges", "rect_line_end", "entire", "entire_split", "next", "copy_user_data", "compare", "above_64k"]
ASSUMPTIONS = ["ranges and indexes lie inside the view; comment texts aren't empty",
               "the data kind (an alias of user style 1) isn't used for clearing; sessions are saved and restored on the container"]
KINDS = dict(match=0x20, comment=0x40, selected=0x80, diff=0x10)


class View:
    def __init__(self, seg, idx):
        self.seg = seg
        self.idx = idx
        self.unique = len(set(idx)) == len(idx)


class Model:
    def __init__(self, n):
        self.style = bytearray(n)
        self.comments = {}
        self.user = dict((i, {}) for i in range(1, 7))

    def key(self):
        return (bytes(self.style), tuple(sorted(self.comments.items())))


def bits(kw):
    b = 0
    for k, v in kw.items():
        if k == "user":
            b |= v & 7
        elif v:
            b |= KINDS.get(k, 1)
    return b


def mask(kw):
    b = 0
    for k, v in kw.items():
        if k == "user":
            if v:
                b |= 7
        elif v and k in KINDS:
            b |= KINDS[k]
    return 0xff ^ b


def rand_kw(rng, clear=False):
    kw = {}
    for k in KINDS:
        if rng.random() < .3:
            kw[k] = True
    if rng.random() < .4:
        kw["user"] = rng.randint(1, 7)
    if not clear and rng.random() < .2:
        kw["data"] = True
    if not kw:
        kw = {"selected": True} if rng.random() < .5 else {"user": rng.randint(1, 7)}
    return kw


def rand_ranges(rng, n, reverse=False, disjoint=False):
    out = []
    for _ in range(rng.choice([1, 2, 3, 1, 2, 3, 14])):
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        if a == b:
            if a == n:
                a -= 1
            b = a + 1
        if disjoint and any(a < y and x < b for x, y in out):
            continue
        out.append((a, b))
    if reverse and rng.random() < .2:
        out = [(b, a) for a, b in out]
    return [rng.choice([tuple, list])(r) for r in out]


def runs(flags):
    out = []
    start = None
    for i, f in enumerate(list(flags) + [False]):
        if f and start is None:
            start = i
        if not f and start is not None:
            out.append((start, i))
            start = None
    return out


def check(ctx, model, views, full):
    rng = ctx.rng
    base = views[0].seg
    got = base.style.tobytes()
    if got != bytes(model.style):
        j = next(j for j in range(len(got)) if got[j] != model.style[j])
        ctx.fail("style", "style of base byte %d is %02x, wanted %02x" % (j, got[j], model.style[j]))
    ctx.require([(int(a), b) for a, b in base.get_sorted_comments()] == sorted(model.comments.items()), "comments", "comments are %s, wanted %s" % (
        base.get_sorted_comments(), sorted(model.comments.items())))
    for v in views if full else [rng.choice(views)]:
        s = v.seg
        n = len(v.idx)
        st = bytes(model.style[i] for i in v.idx)
        ctx.require(s.style.tobytes() == st, "style", "styles seen through a view differ")
        for j in ([rng.randrange(n) for _ in range(6)] if n else []):
            ctx.require(s.get_comment(j) == model.comments.get(v.idx[j], ""), "comment", "comment at %d of a view is %r, base byte %d has %r" % (
                j, s.get_comment(j), v.idx[j], model.comments.get(v.idx[j], "")))
        seen = list(s.iter_comments_in_segment())
        ctx.require(sorted((v.idx[int(j)], t) for j, t in seen) == sorted((i, t) for i, t in model.comments.items() if i in v.idx), "comment",
                    "comments of a view: %s" % seen)
        if not n:
            continue
        spans = rand_ranges(rng, n)
        first = min(r[0] for r in spans)
        ctx.require(s.get_first_comment(spans) == model.comments.get(v.idx[first], ""), "comment", "first comment of %s is %r" % (spans, s.get_first_comment(spans)))
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        if v.unique:
            want = dict((j, model.comments[v.idx[j]]) for j in range(a, b) if v.idx[j] in model.comments)
            ctx.require(dict((int(k), t) for k, t in s.get_comments_in_range(a, b).items()) == want, "comment", "comments in range %d-%d" % (a, b))
        idx = [rng.randrange(n) for _ in range(rng.choice([5, 5, 5, 90]))]
        where, texts = s.get_comments_at_indexes(np.asarray(idx))
        want = [(k, model.comments.get(v.idx[j])) for k, j in enumerate(idx) if st[j] & 0x40]
        ctx.require([(int(k), t) for k, t in zip(where, texts)] == want, "comment", "comments at indexes")
        ctx.require(bytes(s.get_style_at_indexes(np.asarray(idx)).tobytes()) == bytes(st[j] for j in idx), "style", "styles at indexes")
        u = rng.randint(1, 6)
        ctx.require(s.get_user_data(idx[0], u) == model.user[u].get(v.idx[idx[0]], 0), "user", "user data differs")
        # range queries
        kw = rand_kw(rng)
        want = runs([(x & bits(kw)) == bits(kw) for x in st])
        got = [tuple(r) for r in s.get_style_ranges(**kw)]
        ctx.require(got == want, "ranges", "ranges with %s are %s, wanted %s" % (kw, got[:6], want[:6]))
        ctx.count("ranges")
        if want:
            i = rng.randrange(n)
            later = [r[0] for r in want if r[0] > i]
            ctx.require(s.find_next(i, **kw) == (later or [want[0][0]])[0], "next", "next after %d is %s of %s" % (i, s.find_next(i, **kw), want[:6]))
            k = rng.randrange(len(want))
            ctx.require(s.find_previous(want[k][0], **kw) == want[k - 1][0], "previous", "previous of %s is %s of %s" % (
                want[k][0], s.find_previous(want[k][0], **kw), want[:6]))
            ctx.count("next")
        else:
            ctx.require(s.find_next(0, **kw) is None and s.find_previous(0, **kw) is None, "next", "found without any")
        kw.pop("comment", None)
        if kw:
            entire(ctx, model, v, st, kw)


def entire(ctx, model, v, st, kw):
    rng = ctx.rng
    b = bits(kw)
    masked = [x & b for x in st]
    noted = [v.idx[j] in model.comments for j in range(len(st))]
    split = rng.choice([None, [], [masked[rng.randrange(len(st))]]])
    got = v.seg.get_entire_style_ranges(split, **kw)
    pos = 0
    starts = set()
    for (a, e), val in got:
        ctx.require(a == pos and e > a, "entire", "ranges don't follow each other: %s" % got[:6])
        ctx.require(all(m == int(val) for m in masked[a:e]), "entire", "range %d-%d said to be %02x: %s" % (a, e, val, masked[a:e][:20]))
        if a and masked[a - 1] == masked[a]:
            ctx.require(split and masked[a] in split and noted[a], "entire", "split at %d where neither style changes nor a comment is" % a)
            ctx.count("entire_split")
        starts.add(int(a))
        pos = e
    ctx.require(pos == len(st), "entire", "ranges end at %d of %d" % (pos, len(st)))
    for j in range(1, len(st)):
        if split and masked[j] in split and noted[j] and not noted[j - 1]:
            ctx.require(j in starts, "entire", "no split at the comment at %d" % j)
    ctx.count("entire")


def mutate(ctx, model, v, within=None):
    """one operation through view v, optionally only inside the given ranges of the view"""
    rng = ctx.rng
    s = v.seg
    n = len(v.idx)
    if not n:
        return
    if within is None:
        ranges = rand_ranges(rng, n)
        inds = [rng.randrange(n) for _ in range(rng.choice([1, 2, 3, 4, 5, 40]))]
    else:
        ranges = []
        for a, b in within:
            x, y = sorted((rng.randint(a, b), rng.randint(a, b)))
            if x < y:
                ranges.append((x, y))
        inds = [rng.randrange(a, b) for a, b in within]
        if not ranges:
            ranges = [(a, b) for a, b in within]
    k = rng.choice(["set_style", "clear_style", "clear_bits", "style_at", "rect", "set_comment", "set_comment_at", "remove_comment", "clear_comment",
                    "remove_many", "set_many", "user_data"])
    if within is not None and k in ("clear_bits", "rect", "user_data"):
        k = "set_style"
    text = rng.choice([" ", "0", "\n", "note %d" % rng.randrange(1000), "\u00fcber %d" % rng.randrange(1000), "x%d\t \"q\" \\\n" % rng.randrange(1000)])
    ctx.count(k)
    ctx.log(k, ranges if k in ("set_style", "clear_style", "set_comment", "clear_comment") else inds)
    if k == "set_style":
        kw = rand_kw(rng)
        if rng.random() < .2 and within is None:
            s.set_style_ranges([(b, a) for a, b in ranges], **kw)
        else:
            s.set_style_ranges(ranges, **kw)
        for a, b in ranges:
            for j in range(a, b):
                model.style[v.idx[j]] |= bits(kw)
    elif k == "clear_style":
        kw = rand_kw(rng, True)
        if rng.random() < .2 and within is None:
            s.clear_style_ranges([(b, a) for a, b in ranges], **kw)
        else:
            s.clear_style_ranges(ranges, **kw)
        for a, b in ranges:
            for j in range(a, b):
                model.style[v.idx[j]] &= mask(kw)
    elif k == "clear_bits":
        kw = rand_kw(rng, True)
        s.clear_style_bits(**kw)
        for j in v.idx:
            model.style[j] &= mask(kw)
    elif k == "style_at":
        kw = rand_kw(rng)
        s.set_style_at_indexes(np.asarray(inds), **kw)
        for j in inds:
            model.style[v.idx[j]] |= bits(kw)
    elif k == "rect":
        width = rng.randint(2, 20)
        rows = (n + width - 1) // width
        r1, r2 = sorted((rng.randrange(rows), rng.randrange(rows)))
        c1 = rng.randrange(width - 1)
        # a selection up to the end of the line ends at the start of the next
        c2 = rng.randint(c1 + 1, width)
        ctx.count("rect_line_end", c2 == width)
        kw = rand_kw(rng)
        s.set_style_ranges_rect([(r1 * width + c1, r2 * width + c2)], width, **kw)
        for r in range(r1, r2 + 1):
            for c in range(c1, c2):
                if r * width + c < n:
                    model.style[v.idx[r * width + c]] |= bits(kw)
    elif k == "set_comment":
        s.set_comment(ranges, text)
        for a, b in ranges:
            for j in range(a, b):
                model.style[v.idx[j]] |= 0x40
            model.comments[v.idx[a]] = text
    elif k == "set_comment_at":
        s.set_comment_at(inds[0], text)
        model.comments[v.idx[inds[0]]] = text
    elif k == "remove_comment":
        s.remove_comment(inds[0])
        model.comments.pop(v.idx[inds[0]], None)
    elif k == "clear_comment":
        s.clear_comment(ranges)
        for a, b in ranges:
            for j in range(a, b):
                model.style[v.idx[j]] &= 0xbf
                model.comments.pop(v.idx[j], None)
    elif k == "remove_many":
        s.remove_comments_at_indexes(inds)
        for j in inds:
            model.comments.pop(v.idx[j], None)
    elif k == "set_many":
        texts = [rng.choice(["", None, text, "t%d" % j]) for j in inds]
        s.set_comments_at_indexes([], inds, texts)
        for j, t in zip(inds, texts):
            if t:
                model.comments[v.idx[j]] = t
            else:
                model.comments.pop(v.idx[j], None)
    else:
        u, val = rng.randint(1, 6), rng.randint(1, 9)
        s.set_user_data(ranges, u, val)
        for a, b in ranges:
            for j in range(a, b):
                model.user[u][v.idx[j]] = val
        flat = model.user[u]
        got = [((int(r[0]), int(r[1])), val) for r, val in s.get_sorted_user_data(u)]
        ctx.require(dict((j, val) for (a, b), val in got for j in range(a, b)) == flat and all(
            got[q][0][1] < got[q + 1][0][0] or got[q][1] != got[q + 1][1] for q in range(len(got) - 1)), "user", "sorted user data %s" % got[:5])


def case(ctx, i):
    rng = ctx.rng
    n = rng.choice([1, 3, 20, 60, rng.randint(1, 150)])
    big = i % 150 == 149
    if big:
        # positions need more than 16 bits
        n = rng.randint(65600, 90000)
    raw = SegmentData(rng.randbytes(n))
    model = Model(n)
    views = [View(DefaultSegment(raw, 0), list(range(n)))]
    for _ in range(rng.randint(1, 5)):
        v = rng.choice(views)
        m = len(v.idx)
        k = rng.random()
        if k < .4:
            a, b = sorted((rng.randint(0, m), rng.randint(0, m)))
            views.append(View(DefaultSegment(v.seg.rawdata[a:b], rng.randint(0, 9999)), v.idx[a:b]))
        elif k < .8 and m:
            order = rng.sample(range(m), rng.randint(1, m)) if rng.random() < .7 else [rng.randrange(m) for _ in range(rng.randint(1, m))]
            views.append(View(v.seg.create_subset(order, "o"), [v.idx[o] for o in order]))
        elif m:
            w = rng.choice(views)
            if w.idx:
                size = min(m, len(w.idx))
                views.append(View(interleave_segments([v.seg, w.seg], 1), [x for p in zip(v.idx[:size], w.idx[:size]) for x in p]))
    if big:
        a = rng.randint(65500, n - 50)
        views.append(View(DefaultSegment(raw[a:a + 60], 0), list(range(a, min(n, a + 60)))))
        ctx.count("above_64k")
    for step in range(rng.randint(4, 7) if big else rng.randint(6, 25)):
        k = rng.random()
        v = rng.choice(views)
        if k < .75:
            mutate(ctx, model, v)
        elif k < .85 and v.idx:
            # undo
            within = rand_ranges(rng, len(v.idx), disjoint=True)
            before = model.key()
            saved = v.seg.get_comment_restore_data(within)
            keep = (bytes(model.style), dict(model.comments))
            for _ in range(rng.randint(1, 4)):
                mutate(ctx, model, v, within)
                check(ctx, model, views, False)
            ctx.count("undo_changed", model.key() != before)
            v.seg.restore_comments(saved)
            model.style, model.comments = bytearray(keep[0]), keep[1]
            ctx.count("undo")
            ctx.log("undo", within)
        elif k < .87:
            # compare with another version of the same bytes
            other = bytearray(v.seg.tobytes())
            for j in rng.sample(range(len(other)), rng.choice([0, 1, len(other) // 2, len(other)]) if other else 0):
                other[j] ^= rng.randint(1, 255)
            if v.unique:
                diff = [x != y for x, y in zip(other, v.seg.tobytes())]
                v.seg.compare_segment(DefaultSegment(SegmentData(bytes(other)), 0))
                for j, x in enumerate(v.idx):
                    model.style[x] = model.style[x] & 0xef | 0x10 * diff[j]
                ctx.count("compare")
                ctx.log("compare", sum(diff))
        elif k < .91:
            v.seg.fixup_comments()
            for j in range(n):
                model.style[j] = model.style[j] & 0xbf | (0x40 if j in model.comments else 0)
            ctx.count("fixup")
            ctx.log("fixup")
        elif k < .95:
            session(ctx, model, views)
        else:
            build(ctx, model, views)
        check(ctx, model, views, rng.random() < .4)
        ctx.distinct(model.key())
    ctx.sample()


def session(ctx, model, views):
    rng = ctx.rng
    base = views[0].seg
    d = {}
    base.serialize_session(d)
    d = json.loads(json.dumps(d))
    fresh = DefaultSegment(SegmentData(base.tobytes()), 0)
    fresh.restore_session(d)
    want = bytes(x & 0x47 for x in model.style)
    got = fresh.style.tobytes()
    if got != want:
        j = next(j for j in range(len(got)) if got[j] != want[j])
        ctx.fail("session", "style of byte %d is %02x after restoring, was %02x" % (j, got[j], want[j]))
    ctx.require([(int(a), b) for a, b in fresh.get_sorted_comments()] == sorted(model.comments.items()), "session", "comments after restoring: %s" % (
        fresh.get_sorted_comments(),))
    for j in range(len(want)):
        ctx.require(fresh.get_comment(j) == model.comments.get(j, ""), "session", "comment at %d after restoring" % j)
    if rng.random() < .2:
        # sessions saved by old versions
        old = DefaultSegment(SegmentData(base.tobytes()), 0)
        spans = [list(r) for r in rand_ranges(rng, len(want))]
        vals = [rng.randint(0, 2) for _ in spans]
        lists = [list(r) for r in rand_ranges(rng, len(want))]
        e = dict(d)
        e["user ranges 1"] = [[r, x] for r, x in zip(spans, vals)]
        e["display list ranges"] = lists
        old.restore_session(e)
        want2 = bytearray(want)
        for r, x in zip(spans, vals):
            for j in range(r[0], r[1]):
                want2[j] |= x + 2
        for r in lists:
            for j in range(r[0], r[1]):
                want2[j] |= 1
        ctx.require(old.style.tobytes() == bytes(want2), "session", "styles restored from a session of an old version differ")
        ctx.count("session_old")
    ctx.count("session")
    ctx.count("session_user_style", any(x & 7 for x in want))
    ctx.log("session")


def build(ctx, model, views):
    """the executable has the segments' comments and styles"""
    rng = ctx.rng
    parts = [v for v in views if v.idx and v.unique]
    parts = [rng.choice(parts) for _ in range(rng.randint(1, 3))]
    segs = [DefaultSegment(p.seg.rawdata, 0x2000 + 0x300 * j) for j, p in enumerate(parts)]
    if rng.random() < .3:
        # straight copy into another segment
        p = parts[0]
        off = rng.randint(0, 5)
        dest = DefaultSegment(SegmentData(bytes(len(p.idx) + off + 3)), 0)
        dest.copy_user_data(segs[0], off)
        want = sorted((j + off, model.comments[x]) for j, x in enumerate(p.idx) if x in model.comments)
        ctx.require([(int(a), b) for a, b in dest.get_sorted_comments()] == want, "copied", "copied comments %s, wanted %s" % (
            dest.get_sorted_comments()[:5], want[:5]))
        ctx.count("copy_user_data")
        return
    main, subs = get_xex(segs, 0x2000)
    pos = 2 + 6
    want = {}
    style = {}
    for p in parts:
        pos += 4
        for j, x in enumerate(p.idx):
            if x in model.comments:
                want[pos + j] = model.comments[x]
            style[pos + j] = model.style[x]
        pos += len(p.idx)
    got = dict((int(a), b) for a, b in main.get_sorted_comments())
    ctx.require(got == want, "xex", "comments of the executable %s, wanted %s" % (sorted(got.items())[:5], sorted(want.items())[:5]))
    st = main.style.tobytes()
    ctx.require(all(st[a] == x for a, x in style.items()), "xex", "styles of the executable differ")
    ctx.count("xex")
    ctx.count("xex_comments", bool(want))
    ctx.log("xex", len(parts))
