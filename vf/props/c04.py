import os
import random

import cli
import corpus
import session
from faults import Injector, InjectedFault
from monitors import Rollback, spans
from session import Session, open_bytes, image_bytes

PID = "C04"
LEVEL = "fault_enumeration"
RULE = ("(a) random histories rich in failing operations, each follow-up compared with the same operation on a fresh copy; "
        "(b) an exception injected at randomly chosen executed lines of the package during write, delete and clear; "
        "(c) damaged file chains, failing command lines and attempts to change kinds of images that can't be changed, with the image file "
        "compared before and after; "
        "non-trivial: distinct (operation, injection site) and post-operation states")
CASES = {"quick": 240, "thorough": 4000}
CPU_LIMIT = {"quick": 100, "thorough": 150}
REQUIRED = ["failures_judged", "followups_judged", "faults_injected", "faults_rolled_back", "damaged_deletes_failed",
            "cli_failures_judged", "unchangeable", "unchangeable_cli", "failed_with_NotEnoughSpaceOnDisk", "failed_with_FileNotFound"]
ASSUMPTIONS = ["faults are Exceptions raised inside the package; a fault after the change is complete may leave the complete change",
               "the operating system failing to write the image file itself is not injected"]

MIX = (("write", 24), ("delete_some", 16), ("overwrite", 5), ("too_big", 18), ("exact_fit", 4),
       ("unknown", 12), ("bad_write", 14), ("reopen", 3), ("fill_directory", 2))


def case(ctx, i):
    k = i % 3
    if k == 0:
        Session(ctx, [Rollback()]).run(ctx.rng.randint(6, 26), MIX)
    elif k == 1:
        faults(ctx)
    else:
        k = ctx.rng.random()
        if k < .4:
            damaged(ctx)
        elif k < .8:
            cli_failures(ctx)
        else:
            unchangeable(ctx)


def state(image):
    return [(d.filename, bool(d.locked)) for d in image.files]


# -- (b)

def faults(ctx):
    rng = ctx.rng
    name, data = session.start_image(ctx)
    ctx.log("start", name, data)
    fs = session.dos33fs.open_fs(data)
    image = open_bytes(data).image
    good = [e for e in fs.ok_files() if e.name and [f.name for f in fs.files].count(e.name) == 1]

    def plan(r):
        k = r.random()
        if k < .55 or not good:
            n = session.name_for(r, fs, [e.name for e in fs.files])
            size = session.file_size(r, fs, cap=20000)
            d = session.content(r, size)
            t = r.choice(["", "B", "T", "A"])
            return "write", lambda im: im.write_file(n, t, d)
        if k < .9:
            e = r.choice(good)
            return "delete", lambda im: im.delete_file(e.name)
        return "shred", lambda im: im.shred(0x33)

    for _ in range(3 if ctx.tier == "quick" else 6):
        op, fn = plan(rng)
        clean = open_bytes(data).image
        counter = Injector()
        exc = counter.run(lambda: fn(clean))
        if exc is not None or not counter.lines:
            continue
        after = image_bytes(clean)
        n = counter.lines
        picks = sorted(set([rng.randint(1, n) for _ in range(5)] + [rng.randint(max(1, n - 60), n) for _ in range(2)]
                           + [rng.randint(1, min(n, 60))]))
        for k in picks:
            image = open_bytes(data).image
            inj = Injector(at=k)
            exc = inj.run(lambda: fn(image))
            if inj.where is None:
                continue
            ctx.count("faults_injected")
            ctx.log("fault", op, inj.where, type(exc).__name__)
            ctx.distinct(name, op, inj.where)
            post = image_bytes(image)
            if exc is None:
                ctx.count("faults_absorbed")
                continue
            if post == data:
                ctx.count("faults_rolled_back")
                fresh = open_bytes(data).image
                ctx.require(state(image) == state(fresh), "after-failure", "listing differs after a fault in %s at %s" % (op, inj.where))
                # and the image still works like an untouched one
                op2, fn2 = plan(rng)
                e1 = e2 = None
                try:
                    fn2(image)
                except Exception as e:
                    e1 = e
                try:
                    fn2(fresh)
                except Exception as e:
                    e2 = e
                ctx.count("followups_judged")
                ctx.require(type(e1) is type(e2), "after-failure", "after a fault in %s at %s, %s gives %r instead of %r" % (op, inj.where, op2, e1, e2))
                ctx.require(image_bytes(image) == image_bytes(fresh), "after-failure",
                            "after a fault in %s at %s, %s has a different effect" % (op, inj.where, op2))
            else:
                d = spans(data, post)
                ctx.require(post == after, "not-restored", "fault in %s at %s left the image partially changed at %s" % (
                    op, inj.where, [hex(x[0]) for x in d[:4]]))
                ctx.count("faults_after_completion")
    ctx.sample()


# -- (c)

def damage(ctx, atari=None):
    """image with one damaged file; returns bytes, fs, name of it, other names"""
    rng = ctx.rng
    for _ in range(30):
        atari = rng.random() < .6 if atari is None else atari
        if atari:
            b = session.foreign_atari(rng, nfiles=rng.choice([2, 4, 8]))
        else:
            b = session.foreign_dos33(rng, nfiles=rng.choice([2, 4, 8]), exotic=False)
        names = [f[1] for f in b.files]
        todo = [f for f in b.files if names.count(f[1]) == 1]
        if len(todo) < 2:
            continue
        victim = rng.choice(todo)
        data = bytearray(b.build())
        fs = session.dos33fs.open_fs(bytes(data))
        e = [x for x in fs.files if x.num == victim[0]][0]
        secs = fs.sectors(e)
        if atari:
            j = rng.randrange(len(secs))
            p, s = fs.pos(secs[j])
            k = rng.randrange(4)
            if k == 0:
                data[p + s - 3] ^= 0x04 << rng.randrange(6)
                what = "file number"
            elif k == 1:
                if fs.nsec > 1023:
                    continue
                n = rng.randint(fs.nsec + 1, 1023)
                data[p + s - 3] = data[p + s - 3] & 0xfc | n >> 8
                data[p + s - 2] = n & 255
                what = "link beyond the disk"
            elif k == 2:
                n = secs[rng.randrange(j + 1)]
                data[p + s - 3] = data[p + s - 3] & 0xfc | n >> 8
                data[p + s - 2] = n & 255
                what = "loop"
            else:
                other = rng.choice([f for f in todo if f is not victim])
                n = other[4][0]
                data[p + s - 3] = data[p + s - 3] & 0xfc | n >> 8
                data[p + s - 2] = n & 255
                what = "link into another file"
        else:
            lists, _ = fs.tslists(e)
            p = lists[-1] * 256
            k = rng.randrange(3)
            if k == 0:
                if len(secs) == len(lists):
                    continue  # no data, the list isn't looked at
                data[p + 12 + 2 * rng.randrange(1)] = rng.randint(36, 255)
                what = "track out of range"
            elif k == 1:
                data[p + 1], data[p + 2] = divmod(rng.choice(lists), 16)
                what = "list loop"
            else:
                data[p + 1], data[p + 2] = rng.randint(40, 255), rng.randrange(16)
                what = "next list out of range"
        return bytes(data), fs, e, what, [x for x in fs.files if x.num != victim[0]]
    return None


def damaged(ctx):
    for _ in range(4):
        d = damage(ctx)
        if d is None:
            continue
        data, fs, e, what, others = d
        ctx.log("damaged", fs.kind, what, e.name)
        image = open_bytes(data).image
        before = state(image)
        exc = None
        try:
            image.delete_file(e.name)
        except Exception as x:
            exc = x
        ctx.log("delete", e.name, type(exc).__name__)
        ctx.count("damaged_deletes")
        ctx.distinct("damaged", fs.kind, what, len(others), len(fs.sectors(e)))
        if exc is None:
            continue
        ctx.count("damaged_deletes_failed")
        ctx.require(image_bytes(image) == data, "not-restored", "deleting a file with a damaged chain (%s) failed with %s but changed the image" % (
            what, type(exc).__name__))
        ctx.require(state(image) == before, "after-failure", "listing changed")
        # the others can still be deleted as on a fresh copy
        o = ctx.rng.choice(others)
        fresh = open_bytes(data).image
        res = []
        for im in (image, fresh):
            try:
                im.delete_file(o.name)
                im.write_file("ZZNEW", "B", b"x" * 700)
                res.append(None)
            except Exception as x:
                res.append(type(x))
        ctx.count("followups_judged")
        ctx.require(res[0] is res[1] and image_bytes(image) == image_bytes(fresh), "after-failure",
                    "after the failed delete the image behaves differently: %s / %s" % tuple(res))
    ctx.sample()


def cli_failures(ctx):
    rng = ctx.rng
    for _ in range(3):
        d = ctx.tmp()
        name, data = session.start_image(ctx)
        fs = session.dos33fs.open_fs(data)
        img = "disk.dsk" if fs.kind == "dos33" else "disk.atr"
        live = [e.name for e in fs.files if e.name]
        good = [e.name for e in fs.ok_files() if e.name and live.count(e.name) == 1 and not e.name.startswith("-")]
        kind = rng.choice(["toobig", "toobig", "forced", "missing", "badaddr", "damaged", "baddata"])
        force = []
        must_fail = True
        new = lambda: session.atari_name(rng)
        small = new()
        while small in live:
            small = new()
        cli.put(os.path.join(d, small), rng.randbytes(rng.randint(0, 300)))
        room = session.max_data(fs, len(fs.free)) * fs.payload
        if kind == "toobig":
            big = new() + "Q"
            cli.put(os.path.join(d, big), bytes(room + rng.randint(1, 5000)))
            files = [small, big] if rng.random() < .7 else [big]
            argv = [img, "add"] + files
        elif kind == "forced":
            ok = [n for n in good if "/" not in n]
            if not ok:
                continue
            n = rng.choice(ok)
            e = [x for x in fs.files if x.name == n][0]
            cli.put(os.path.join(d, n), bytes(room + len(fs.sectors(e)) * fs.payload + rng.randint(1, 5000)))
            argv = [img, "add", "-f", small, n]
        elif kind == "missing":
            argv = [img, "add", small, "NOTTHERE.XXX"]
        elif kind == "badaddr":
            argv = [img, "assemble", "-d", small + "@0x2000", "-r", "0x9000", "-o", "PROG.XEX" if fs.kind == "atari" else "PROG.BIN"]
            if os.path.getsize(os.path.join(d, small)) == 0:
                continue
        elif kind == "baddata":
            argv = [img, "assemble", "-d", small, "-o", "PROG"]
        else:
            x = damage(ctx)
            if x is None:
                continue
            data, fs, e, what, others = x
            img = "disk.dsk" if fs.kind == "dos33" else "disk.atr"
            o = [n.name for n in others if n.name and not n.name.startswith("-")]
            if e.name.startswith("-") or not o:
                continue
            argv = [img, "delete", rng.choice(o), e.name]
            must_fail = False
        cli.put(os.path.join(d, img), data)
        r = cli.run(argv, d)
        after = cli.get(os.path.join(d, img))
        ctx.log("cli", kind, " ".join(argv), type(r.exc).__name__)
        ctx.distinct("cli", kind, name, len(live), hash(after))
        if r.exc is not None or must_fail:
            ctx.count("cli_failures_judged")
            ctx.count("cli_%s" % kind)
            ctx.require(after == data, "file-changed", "%s (%s): image file changed although the command failed" % (" ".join(argv), type(r.exc).__name__))
            ctx.require(r.exc is not None or r.out.strip() or r.err.strip(), "silent", "failure not reported")
    ctx.sample()


def unchangeable(ctx):
    """changes to images of kinds that files can't be put on"""
    rng = ctx.rng
    for _ in range(4):
        kind, data = corpus.make(rng, rng.choice([k for k in corpus.KINDS if k not in ("atari", "dos33")]), small=True)
        parser = open_bytes(data)
        if hasattr(parser.image, "set_filename"):
            parser.image.set_filename("disk.atr")
        before = corpus.view(parser, "")
        names = [f.filename for f in parser.image.files] + ["NEW.TXT"]
        for _ in range(rng.randint(1, 3)):
            n = rng.choice(names)
            op = rng.choice(["write", "delete"] + ["shred"] * (kind != "sparta"))
            exc = None
            try:
                if op == "write":
                    parser.image.write_file(n, "B", rng.randbytes(rng.choice([0, 10, 3000])))
                elif op == "delete":
                    parser.image.delete_file(n)
                else:
                    parser.image.shred(0)
            except Exception as e:
                exc = e
            ctx.log(op, kind, type(exc).__name__)
            ctx.count("unchangeable")
            ctx.distinct("unchangeable", kind, op, hash(data))
            ctx.require(exc is not None, "silent", "%s on an image of kind %s is not reported as an error" % (op, kind))
            ctx.require(parser.segments[0].tobytes() == data or kind == "zip", "not-restored", "failed %s changed an image of kind %s" % (op, kind))
            try:
                after = corpus.view(parser, "")
            except Exception as e:
                ctx.fail("after-failure", "after a failed %s on an image of kind %s listing it gives %r" % (op, kind, e))
            ctx.require(after == before, "after-failure", "a failed %s changes what is shown of an image of kind %s" % (op, kind))
        d = ctx.tmp()
        cli.put(d + "/disk", data)
        cli.put(d + "/NEW.TXT", b"new")
        n = rng.choice([x for x in names if not x.startswith("-")])
        for argv in (["disk", "add", "NEW.TXT"], ["disk", "add", "-f", "NEW.TXT"], ["disk", "delete", n], ["disk", "delete", "-f", n],
                     ["disk", "assemble", "-d", "NEW.TXT@2000", "-o", n], ["disk", "vtoc", "-e"]):
            if argv[1] == "vtoc" and kind == "sparta" or rng.random() < .5:
                continue
            tree = cli.snapshot(d)
            r = cli.run(argv, d)
            ctx.count("unchangeable_cli")
            ctx.require(cli.snapshot(d) == tree, "file-changed", "%s on an image of kind %s changed files (%r)" % (argv, kind, r.exc))
            ctx.require(r.exc is not None or len(r.out.strip().split("\n")) > 1, "silent", "%s on an image of kind %s is not reported as an error: %r" % (argv, kind, r.out[:200]))
