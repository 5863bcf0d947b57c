import os

import numpy as np

import atrcopy
from atrcopy import errors

import cli
import corpus
import session

PID = "C10"
RULE = ("valid images of every kind (plain or compressed; foreign, sample and damaged disks) are opened and read through the whole "
        "reading API in random order, twice, with the image array compared after every call; the same image, among bystander files, "
        "goes through every read-only command and every modifying command under --dry-run (option before or after the image name) "
        "with the complete file tree and all write-mode opens recorded around each command; non-trivial: distinct (image, command) pairs")
CASES = {"quick": 360, "thorough": 8000}
REQUIRED = ["api_reads", "readonly_commands", "dry_runs", "files_read", "dry_add", "dry_delete", "dry_create", "dry_boot",
            "dry_assemble", "dry_vtoc", "dry_extract", "kind_atari", "kind_dos33", "kind_xex", "kind_zip", "repeats_compared"]
ASSUMPTIONS = ["styles and comments are annotations, not image contents"]


def api(ctx, data, dos):
    rng = ctx.rng
    base = np.frombuffer(data, dtype=np.uint8).copy()
    try:
        parser, mime = atrcopy.find_diskimage_from_data(base)
    except errors.AtrError:
        ctx.count("rejected")
        ctx.require(base.tobytes() == data, "open", "rejecting the data changed it")
        return None
    image = parser.image
    same = lambda: base.tobytes() == data
    ctx.require(same(), "open", "opening the data changed it")
    inner = getattr(image, "bytes", None)
    inner = inner.tobytes() if inner is not None else None

    def files():
        out = []
        for d in list(image.files):
            try:
                out.append((str(d), d.filename, image.get_file(d)))
                ctx.count("files_read")
            except errors.AtrError as e:
                out.append((str(d), type(e)))
        return out

    def found():
        out = []
        for d in list(image.files)[:10]:
            try:
                out.append(image.find_file(d.filename))
            except errors.AtrError as e:
                out.append(type(e))
        if dos:
            out.append(_err(lambda: image.find_file("NOSUCH.FIL")))
        return out

    def _err(f):
        try:
            return f()
        except errors.AtrError as e:
            return type(e)

    def meta():
        return [_err(lambda: d.extra_metadata(image)) for d in image.files]

    def segs():
        return [(str(s), s.verbose_info, s.tobytes(), s.origin, len(s)) for s in parser.segments]

    def strings():
        return str(image), str(parser)

    calls = [files, found, meta, segs, strings]
    if dos:
        def vtoc():
            v = image.get_vtoc_object()
            return str(v), v.num_free_sectors, list(v.iter_free_sectors())[:50]

        def sectors():
            return [image.get_sectors(a, a + 2)[0].tobytes() for a in (1, 100, 360)], image.get_raw_bytes(5)[0].tobytes()

        def fsegs():
            return [(str(s), s.tobytes()) for s in image.get_file_segments() + image.get_directory_segments() + image.get_vtoc_segments()]

        def listing():
            return image.dir()
        calls += [vtoc, sectors, fsegs, listing]
    order = calls * 2
    rng.shuffle(order)
    results = {}
    for f in order:
        r = f()
        ctx.count("api_reads")
        ctx.require(same(), "api", "%s changed the data" % f.__name__)
        if inner is not None:
            ctx.require(image.bytes.tobytes() == inner, "api", "%s changed the image" % f.__name__)
        if f in results:
            ctx.count("repeats_compared")
            ctx.require(results[f] == r, "unstable", "%s gives a different result the second time" % f.__name__)
        results[f] = r
    return parser


def case(ctx, i):
    rng = ctx.rng
    kind, data = corpus.make(rng, small=rng.random() < .5)
    ctx.count("kind_" + kind)
    dos = kind in ("atari", "dos33")
    if rng.random() < .1:
        from props.c09 import mutate
        data = mutate(rng, kind, data)
        dos = False
    ctx.log("image", kind, data)
    parser = api(ctx, data, dos)
    if rng.random() < .12:
        from props.c08 import compress
        data = compress(rng, rng.choice(["gz", "bz2", "xz"]), data)
    d = ctx.tmp()
    img = "disk" + rng.choice([".atr", ".dsk", ".xfd", ".bin", ""])
    cli.put(d + "/" + img, data)
    cli.put(d + "/other.atr", rng.randbytes(50))
    cli.put(d + "/local.bin", rng.randbytes(rng.randint(1, 3000)))
    cli.put(d + "/NEW.XEX", b"\xff\xff\x00\x20\x02\x20abc")
    names = [f.filename for f in parser.image.files] if parser is not None else []
    for n in names[:3]:
        if "/" not in n and "\0" not in n and n not in ("", ".", ".."):
            try:
                cli.put(d + "/" + n, rng.randbytes(20))
            except (OSError, ValueError):
                pass
    onename = rng.choice(names) if names and rng.random() < .8 else "NOSUCH"
    if onename.startswith("-") or not onename:
        onename = "NOSUCH"
    local = [n for n in os.listdir(d) if not n.startswith("-") and n != img]
    reads = [[img], [img, "list"], [img, "t", "-m"], [img, "list", "-c"], [img, "list", "-g"], [img, "ls", onename], [img, "crc"],
             [img, "crc", onename], [img, "segments"], [img, "vtoc"], [img, "-v", "list"], ["-v", img, "segments"], [img, "catalog", "-m", "-c", onename]]
    dry = [("add", ["add", rng.choice(local)]), ("add", ["add", "-f"] + rng.sample(local, min(2, len(local)))),
           ("delete", ["delete", onename]), ("delete", ["rm", "-f", onename, "NOSUCH"]),
           ("extract", ["extract", "-a"]), ("extract", ["x", "-a", "-f", "-l", "-d", "newdir"]), ("extract", ["x", onename, "-d", "a/b"]),
           ("vtoc", ["vtoc", "-e"]), ("vtoc", ["v", "--clear-empty"]),
           ("create", ["create", rng.choice(session.TEMPLATES)]), ("create", ["c", "-f", rng.choice(session.TEMPLATES)]),
           ("boot", ["boot", "-d", "local.bin@2000"]), ("boot", ["b", "-f", "-b", "NEW.XEX", "-r", "2000"]),
           ("assemble", ["assemble", "-f", "-d", "local.bin@2000", "-o", rng.choice(["OUT.XEX", onename])]),
           ("assemble", ["asm", "-b", "NEW.XEX", "-o", "OUT"])]
    todo = [("read", a) for a in rng.sample(reads, 4)] + [("dry", a) for a in rng.sample(dry, 4)]
    before = cli.snapshot(d)
    for what, a in todo:
        target = img
        if what == "dry":
            name, a = a
            ctx.count("dry_" + name)
            if name in ("create", "boot") and rng.random() < .6:
                target = rng.choice(["fresh.atr", "fresh.dsk", "fresh.xex"])
            argv = rng.choice([["--dry-run", target], [target, "--dry-run"], [target, "-v", "--dry-run"]]) + a
            ctx.count("dry_runs")
        else:
            argv = a
            ctx.count("readonly_commands")
        r = cli.run(argv, d)
        ctx.log(what, " ".join(argv), type(r.exc).__name__)
        after = cli.snapshot(d)
        diff = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
        ctx.require(not diff, "changed", "%s changed %s" % (" ".join(argv), diff), command=argv)
        bad = r.escaped + r.writes
        ctx.require(not bad, "opened-for-writing", "%s: %s" % (" ".join(argv), bad), command=argv)
        if what == "read":
            q = cli.run(argv, d)
            ctx.count("repeats_compared")
            ctx.require(q.out == r.out and type(q.exc) == type(r.exc), "unstable", "%s prints something else the second time" % " ".join(argv),
                        first=r.out, second=q.out)
        ctx.distinct(hash(data), tuple(argv))
    # extraction reads the image too
    out = ["x", "-a", "-d", "out"]
    r = cli.run([img] + out, d)
    after = cli.snapshot(d)
    diff = sorted(k for k in before if before[k] != after.get(k, 0))
    ctx.require(not diff, "changed", "extract changed %s" % diff)
    ctx.require(not [w for w in r.writes if os.path.basename(w[1]) == img and "out" not in w[1]], "opened-for-writing", "extract: %s" % r.writes)
    ctx.count("readonly_commands")
    ctx.sample()
