import cli
import dos33fs
import spartafs
from monitors import Shred, spans
from session import Session, open_bytes, image_bytes, start_image

PID = "C23"
RULE = ("random histories of writes, deletes and failing operations on every writable format with the free space cleared at random points with "
        "random fill values, SpartaDOS disks from a builder, and the vtoc command with its clear option on saved disks (headers or not, dry runs); the image before "
        "and after is compared byte by byte with the free map of an independent reader; files are read back; non-trivial: distinct images "
        "and fill values")
CASES = {"quick": 600, "thorough": 8000}
REQUIRED = ["shreds_judged", "sectors_cleared", "cli", "cli_dry", "cli_plain", "saved_again", "files_kept", "full_disk", "all_values", "sparta", "sparta_cli"]
ASSUMPTIONS = ["sectors 720 and up of enhanced density disks aren't in the allocation map (known finding of C05)"]
MIX = (("write", 20), ("delete_some", 14), ("overwrite", 4), ("too_big", 2), ("exact_fit", 3), ("reopen", 4), ("shred", 30))


class Values(Shred):
    def event(self, ses, ev):
        Shred.event(self, ses, ev)
        if ev.op != "shred":
            return
        ctx = ses.ctx
        a, b = ev.fs_pre, ev.fs_post
        ctx.require(a.free == b.free and a.free_count == b.free_count, "map", "allocation map changed")
        ctx.require([(e.name, e.raw) for e in a.all_entries] == [(e.name, e.raw) for e in b.all_entries], "directory", "directory changed")
        for e, f in zip(a.ok_files(), b.ok_files()):
            if not set(a.sectors(e)) & a.free:
                ctx.require(a.content(e) == b.content(f), "file", "%s changed" % e.name)
                ctx.count("files_kept")
        # the program's own view
        for d in ev.image.files:
            pass
        got = sorted(str(d.filename) for d in ev.image.files)
        ctx.require(got == ses.listing, "list", "list of files changed by clearing") if getattr(ses, "listing", None) is not None else None
        if not a.free:
            ctx.count("full_disk")
        if ev.args[0] not in (0, 1, 0x55, 255):
            ctx.count("all_values")

    def before(self, ses, ev):
        ses.listing = sorted(str(d.filename) for d in ses.image.files) if ev.op == "shred" else None


class S(Session):
    def shred(self):
        if self.rng.random() < .15:
            self.exact_fit()
        return self.perform("shred", self.rng.choice([0, 1, 255, self.rng.randrange(256)]))


def case(ctx, i):
    rng = ctx.rng
    if i % 12 == 3:
        return sparta(ctx)
    if i % 3:
        S(ctx, [Values()]).run(rng.randint(3, 12), MIX)
        return
    name, data = start_image(ctx)
    d = ctx.tmp()
    path = "disk.dsk" if len(data) == dos33fs.SIZE else "disk.atr"
    if rng.random() < .4:
        ses = Session(ctx, [], start=(name, data))
        ses.run(rng.randint(1, 6), (("write", 4), ("delete_some", 3)))
        data = ses.bytes
    cli.put(d + "/" + path, data)
    cli.put(d + "/other.atr", b"keep")
    before = cli.snapshot(d)
    k = rng.random()
    argv = [path, rng.choice(["vtoc", "v"]), rng.choice(["-e", "--clear-empty"])]
    dry = plain = False
    if k < .2:
        argv = rng.choice([["--dry-run"] + argv, argv[:1] + ["--dry-run"] + argv[1:]])
        dry = True
    elif k < .35:
        argv = argv[:2]
        plain = True
    ctx.log("command", argv, name)
    ctx.distinct("cli", hash(data), k < .2, k < .35)
    r = cli.run(argv, d)
    ctx.require(r.exc is None and not r.escaped, "failed", "%s failed: %r %s" % (argv, r.exc, r.escaped))
    after = cli.snapshot(d)
    fs = dos33fs.open_fs(data)
    want = bytearray(data)
    if not (dry or plain):
        for s, e in fs.sector_ranges(fs.free):
            want[s:e] = bytes(e - s)
        ctx.count("cli")
        ctx.count("sectors_cleared", len(fs.free))
    else:
        ctx.count("cli_dry" if dry else "cli_plain")
    diff = spans(bytes(want), after[path]) if len(want) == len(after[path]) else [(0, 0)]
    ctx.require(not diff, "bytes", "%s: wrong bytes at %s" % (argv, [hex(x[0]) for x in diff[:4]]))
    del after[path]
    del before[path]
    ctx.require(after == before, "touched", "other files changed: %s" % sorted(after))
    if not (dry or plain):
        # a second time changes nothing
        r = cli.run(argv, d)
        ctx.require(cli.get(d + "/" + path) == bytes(want), "again", "clearing again changed the disk")
        ctx.count("saved_again")
    ctx.sample()


def sparta(ctx):
    rng = ctx.rng
    b = spartafs.random_disk(rng)
    data = b.build()
    value = rng.choice([0, 1, 255, rng.randrange(256)])
    how = rng.random()
    if how < .5:
        value = 0
    at = len(data) - b.size
    want = bytearray(data)
    for n in b.free:
        p, size = b.pos(n)
        want[at + p:at + p + size] = bytes([value]) * size
    if how < .5:
        d = ctx.tmp()
        cli.put(d + "/disk", data)
        argv = ["disk", "vtoc", "-e"]
        r = cli.run(argv, d)
        ctx.require(r.exc is None, "failed", "%s failed: %r" % (argv, r.exc))
        got = cli.get(d + "/disk")
        ctx.count("sparta_cli")
    else:
        image = open_bytes(data).image
        image.shred(value)
        got = image_bytes(image)
    ctx.log("sparta", len(data), len(b.free), value)
    ctx.distinct("sparta", hash(data), value)
    ctx.count("sparta")
    ctx.count("sectors_cleared", len(b.free))
    diff = spans(bytes(want), got) if len(want) == len(got) else [(0, 0)]
    ctx.require(not diff, "bytes", "SpartaDOS disk (%d sectors of %d, %d free): wrong bytes at %s" % (b.nsec, b.sec, len(b.free), [hex(x[0]) for x in diff[:4]]))
    ctx.sample()
