import atrcopy

import cli
import dos33fs
import session
from atarifs import FsError
from props.c04 import damage
from session import image_bytes, open_bytes

PID = "C30"
RULE = ("template, sample and independently built Atari DOS and DOS 3.3 disks, also after random additions and deletions and with damaged "
        "files; for every segment of a file, the allocation map and the directory, each byte's position in the image is computed by an "
        "independent reader and compared with the segment's bytes and index mapping; bytes are written through the segments; the built-in "
        "comments are compared with the documented field offsets; the segments command is parsed; non-trivial: distinct disks")
CASES = {"quick": 1400, "thorough": 15000}
REQUIRED = ["files", "empty_files", "damaged", "several_lists", "partial_sectors", "binary", "directory", "directory_dd", "catalog", "vtoc", "vtoc2", "written",
            "changed_disk", "cli", "comments"]
ASSUMPTIONS = ["the segments of files are the last ones of the list, in the order of the directory"]

VTOC = {"atari": {0: "type", 1: "total", 3: "free", 0x0a: "bit map"},
        "dos33": dict([(1, "track"), (2, "sector"), (6, "volume"), (0x27, "pairs"), (0x34, "tracks"), (0x35, "sectors"), (0x36, "bytes")] +
                      [(0x38 + 4 * t, "track %d" % t) for t in range(35)])}
ENTRY = {"atari": {0: "flag", 1: "sectors", 3: "start", 5: "filename", 13: "extension"},
         "dos33": {0: "track", 1: "sector", 2: "type", 3: "filename", 33: "sectors"}}


def layout(fs, e):
    """image positions of the file's bytes"""
    out = []
    if fs.kind == "dos33":
        lists, _ = fs.tslists(e)
        for n in fs.sectors(e)[len(lists):]:
            p, s = fs.pos(n)
            out.extend(range(p, p + s))
    else:
        for n in fs.sectors(e):
            p, s = fs.pos(n)
            out.extend(range(p, p + fs.data[p + s - 1]))
    return out


def same(ctx, s, at, data, what):
    ctx.require(len(s) == len(at) and s.tobytes() == bytes(data[q] for q in at), "bytes", "%s: %d bytes, should be %d, or wrong ones" % (what, len(s), len(at)))
    rng = ctx.rng
    n = len(at)
    idx = set([0, n - 1] + [rng.randrange(n) for _ in range(8)]) if n else set()
    for k in idx:
        ctx.require(int(s.get_raw_index(k)) == at[k] and s.get_index_from_base_index(at[k]) == k, "position", "%s: byte %d is at %x, said to be at %x" % (
            what, k, at[k], s.get_raw_index(k)))


def labelled(ctx, s, where, what):
    for k, word in where.items():
        c = s.get_comment(k)
        ctx.require(word in c.lower(), "comment", "%s: byte %d is labelled %r, is the %s" % (what, k, c, word))
        ctx.count("comments")


def write_through(ctx, parser, s, at, what):
    """a few bytes changed through a segment"""
    rng = ctx.rng
    before = image_bytes(parser.image)
    want = bytearray(before)
    k = rng.randrange(len(at))
    j = min(len(at), k + rng.choice([1, 1, 3, 200]))
    new = rng.randbytes(j - k)
    for q, x in zip(at[k:j], new):
        want[q] = x
    if j - k == 1:
        s[k] = new[0]
    else:
        s[k:j] = list(new)
    got = image_bytes(parser.image)
    ctx.require(got == bytes(want), "write", "writing bytes %d-%d of %s changed the wrong bytes" % (k, j, what))
    ctx.require(s.tobytes() == bytes(want[q] for q in at), "write", "%s doesn't show what was written" % what)
    s[k:j] = list(before[q] for q in at[k:j])
    ctx.require(image_bytes(parser.image) == before, "write", "restoring bytes of %s" % what)
    ctx.count("written")


def system(ctx, parser, fs, data):
    seg = {}
    for s in parser.segments:
        seg.setdefault(s.name, s)
    rest = parser.segments[:len(parser.segments) - len(fs.files)]
    if fs.kind == "dos33":
        want = [("VTOC", [272]), ("Catalog", fs.catalog)]
    else:
        want = [("VTOC", [360]), ("Directory", list(range(361, 369)))]
        if fs.size == 133120:
            want.append(("VTOC2", [1024]))
    for name, secs in want:
        some = [s for s in rest if s.name == name]
        ctx.require(len(some) == 1, "missing", "%d segments called %s" % (len(some), name))
        s = some[0]
        at = [q for n in secs for q in range(fs.pos(n)[0], sum(fs.pos(n)))]
        same(ctx, s, at, data, name)
        if name == "VTOC":
            labelled(ctx, s, VTOC[fs.kind], name)
            ctx.count("vtoc")
        elif name == "VTOC2":
            labelled(ctx, s, {0x44: "720", 0x7a: "free"}, name)
            ctx.count("vtoc2")
        else:
            ctx.count(name.lower())
            ctx.count("directory_dd", name == "Directory" and fs.sec == 256)
            if name == "Catalog":
                spots = [256 * k + 0x0b + 35 * j for k in range(len(secs)) for j in range(7)]
            else:
                spots = [fs.sec * k + 16 * j for k in range(8) for j in range(8)]
            said = {}
            for num, p in enumerate(spots):
                labelled(ctx, s, dict((p + o, w) for o, w in ENTRY[fs.kind].items()), "%s entry %d" % (name, num))
                for o in ENTRY[fs.kind]:
                    said[p + o] = "FILE #%d:" % num
            for k, c in s.get_comments_in_range(0, len(s)).items():
                if c.startswith("FILE #"):
                    ctx.require(k in said and c.startswith(said[k]), "comment", "%s: byte %d is labelled %r, should be %s" % (name, k, c, said.get(k)))
        if ctx.rng.random() < .3:
            write_through(ctx, parser, s, at, name)


def judge(ctx, parser, data, bad=None):
    fs = dos33fs.open_fs(data)
    image = parser.image
    tail = parser.segments[len(parser.segments) - len(fs.files):] if fs.files else []
    ctx.require(len(image.files) == len(fs.files), "listing", "%d files listed, disk has %d" % (len(image.files), len(fs.files)))
    ctx.require(len(parser.segments) > len(tail), "missing", "only %d segments" % len(parser.segments))
    for e, d, s in zip(fs.files, image.files, tail):
        name = d.filename
        what = "segment of %r" % name
        ctx.require(name in s.name and (e.name is None or name == e.name), "name", "file %r has segment %r" % (e.name, s.name))
        try:
            at = layout(fs, e)
        except FsError:
            at = None
        if at is None or bad is not None and e.num == bad:
            ctx.require(len(s) == 0 and s.tobytes() == b"" and s.error, "damaged", "%s, which can't be read, has %d bytes (error %r)" % (what, len(s), s.error))
            ctx.count("damaged")
            continue
        ctx.require(not s.error, "damaged", "%s has error %r" % (what, s.error))
        ctx.count("files")
        if not at:
            ctx.require(len(s) == 0 and s.tobytes() == b"", "bytes", "%s isn't empty" % what)
            ctx.count("empty_files")
            continue
        same(ctx, s, at, data, what)
        if fs.kind == "dos33":
            ctx.count("several_lists", len(fs.tslists(e)[0]) > 1)
            if e.type == "B":
                addr = data[at[0]] + 256 * data[at[1]]
                if addr >= 4:
                    ctx.require(s.origin == addr - 4, "origin", "%s starts at %x, header says %x" % (what, s.origin, addr))
                ctx.count("binary")
            else:
                ctx.require(s.origin == 0, "origin", "%s starts at %x" % (what, s.origin))
        else:
            ctx.count("partial_sectors", len(at) < (len(fs.sectors(e)) - 1) * fs.payload)
        if ctx.rng.random() < .15:
            write_through(ctx, parser, s, at, what)
    system(ctx, parser, fs, data)
    ctx.require(image_bytes(image) == data, "image", "looking at segments changed the image")
    return fs, tail


def case(ctx, i):
    rng = ctx.rng
    if i % 6 == 5:
        x = damage(ctx)
        if x is None:
            return
        data, old, e, what, others = x
        ctx.log("damaged", old.kind, what, e.name)
        judge(ctx, open_bytes(data), data, e.num)
        ctx.distinct("damaged", hash(data))
        ctx.sample()
        return
    name, data = session.start_image(ctx)
    parser = open_bytes(data)
    if rng.random() < .4:
        # as changed by the package
        for _ in range(rng.randint(1, 4)):
            try:
                if rng.random() < .3 and parser.image.files:
                    parser.image.delete_file(rng.choice(parser.image.files))
                else:
                    fs = dos33fs.open_fs(image_bytes(parser.image))
                    parser.image.write_file(session.name_for(rng, fs, [d.filename for d in parser.image.files]), rng.choice(["B", "T", ""]),
                                            session.content(rng, session.file_size(rng, fs)))
            except atrcopy.errors.AtrError:
                pass
        data = image_bytes(parser.image)
        parser = open_bytes(data)
        ctx.count("changed_disk")
    ctx.log("disk", name, data)
    fs, tail = judge(ctx, parser, data)
    ctx.distinct(hash(data))
    if rng.random() < .15:
        d = ctx.tmp()
        cli.put(d + "/disk", data)
        r = cli.run(["disk", "segments"], d)
        ctx.require(r.exc is None and not r.code, "cli", "segments: %r" % r.exc)
        text = r.out
        pos = 0
        for s in parser.segments:
            k = text.find(str(s), pos)
            ctx.require(k >= 0, "cli", "the segments command doesn't show %r" % str(s))
            pos = k + len(str(s))
        ctx.count("cli")
    ctx.sample()
