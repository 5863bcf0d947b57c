import os

import cli
import corpus
import dos33fs
import session
import spartafs

PID = "C12"
RULE = ("independently built Atari, DOS 3.3 and SpartaDOS disks and sample disks, some with hostile names (path separators, dot-dot, "
        "absolute paths, nulls, dots), are extracted by the real command with random selections and options over a populated local "
        "directory; all writes are intercepted and confined, and the directory tree afterwards is compared with the outcome computed "
        "from an independent reading of the disk; non-trivial: distinct (disk, command) pairs")
CASES = {"quick": 1000, "thorough": 8000}
REQUIRED = ["files_extracted", "existing_kept", "existing_replaced", "lower", "text", "dir_created", "hostile_names", "missing_reported",
            "all", "named", "atari", "dos33", "sparta", "case_collisions"]
ASSUMPTIONS = ["the local file system is case sensitive and accepts UTF-8 names", "the -e option (which the program ignores) isn't used"]

HOSTILE = [b"../X", b"../../X", b"/X", b"//X", b"..", b".", b"A/B", b"A/../B", b"a\0b", b"./X", b"sub/X", b"/"]


def hostile(n):
    return "/" in n or "\0" in n or n in ("", ".", "..")


def disk(ctx):
    """kind, bytes, [(name, contents)] in listing order"""
    rng = ctx.rng
    k = rng.random()
    if k < .1:
        name = rng.choice(session.SAMPLES)
        data = session.load("sample", name)
        fs = dos33fs.open_fs(data)
        files = [(e.name, fs.content(e)) for e in fs.files]
        return fs.kind, data, files
    if k < .25:
        data, truth = sparta(rng)
        return "sparta", data, truth
    if k < .55:
        b = session.foreign_dos33(rng, exotic=False, nfiles=rng.choice([0, 1, 3, 8, 20]))
        kind = "dos33"
    else:
        b = session.foreign_atari(rng, nfiles=rng.choice([0, 1, 3, 8, 20, 64]), fill=300)
        kind = "atari"
    if rng.random() < .35:
        # rename some files
        for f in b.files:
            r = rng.random()
            if r < .3:
                raw = bytearray(b.slots[f[0]])
                h = rng.choice(HOSTILE)
                if kind == "atari":
                    raw[5:16] = (h + b" " * 11)[:11] if rng.random() < .7 else (h + b" " * 8)[:8] + b"TXT"
                else:
                    raw[3:33] = bytes(c | 0x80 for c in (h + b" " * 30)[:30])
                b.slots[f[0]] = bytes(raw)
            elif r < .4 and kind == "atari":
                # same name in the other case
                raw = bytearray(b.slots[rng.choice(b.files)[0]])
                own = bytearray(b.slots[f[0]])
                own[5:16] = bytes(raw[5:16]).lower()
                b.slots[f[0]] = bytes(own)
    data = b.build()
    fs = dos33fs.open_fs(data)
    return kind, data, [(e.name, fs.content(e)) for e in fs.files]


def sparta(rng):
    b = spartafs.random_disk(rng)
    return b.build(), b.truth()


def case(ctx, i):
    rng = ctx.rng
    kind, data, files = disk(ctx)
    if any(n is None for n, c in files):
        ctx.count("skipped_inverse_names")
        return
    ctx.count(kind)
    ctx.log("disk", kind, [n for n, c in files][:10])
    bad = [n for n, c in files if hostile(n)]
    ctx.count("hostile_names", len(bad))
    names = [n for n, c in files]
    for _ in range(3):
        d = ctx.tmp()
        cwd = d + "/work/here"
        os.makedirs(cwd)
        img = "disk.img"
        cli.put(cwd + "/" + img, data)
        cli.put(cwd + "/bystander", b"bystander")
        opts = []
        target = ""
        if rng.random() < .6:
            target = rng.choice(["out", "out/deep/er", "x.y", "./o", "OUT", "Disk 1/Files", "b@c"])
            opts.append([rng.choice(["-d", "--dir"]), target])
            if rng.random() < .4:
                os.makedirs(cwd + "/" + target)
            else:
                ctx.count("dir_created")
        lower = rng.random() < .3
        text = rng.random() < .3
        force = rng.random() < .4
        if lower:
            opts.append([rng.choice(["-l", "--lower"])])
            ctx.count("lower")
        if text:
            opts.append([rng.choice(["-t", "--text"])])
            ctx.count("text")
        if force:
            opts.append([rng.choice(["-f", "--force"])])
        every = rng.random() < .5
        missing = []
        if every:
            opts.append([rng.choice(["-a", "--all"])])
            want = list(files)
            ctx.count("all")
            pos = []
        else:
            ok = [n for n in names if n and n[0] != "-" and "\0" not in n]
            pos = rng.sample(ok, min(len(ok), rng.randint(1, 4))) if ok else []
            if pos and rng.random() < .1:
                pos.append(pos[0])
            if rng.random() < .3 or not pos:
                missing = ["NOSUCHF"]
                pos.insert(rng.randint(0, len(pos)), "NOSUCHF")
            want = [(n, dict(reversed(files))[n]) for n in pos if n not in missing]
            ctx.count("named")
        rng.shuffle(opts)
        flat = [x for o in opts for x in o]
        # some targets are already there
        local = {}
        base = os.path.join(cwd, target)
        if os.path.isdir(base):
            for n, c in want:
                m = n.lower() if lower else n
                if not hostile(n) and rng.random() < .25 and not os.path.exists(os.path.join(base, m)):
                    try:
                        cli.put(os.path.join(base, m), b"precious " + m.encode())
                    except OSError:
                        continue
        before = cli.snapshot(d)
        argv = [img, rng.choice(["extract", "x"])] + (flat + pos if rng.random() < .5 or "-d" in flat else pos + flat)
        r = cli.run(argv, cwd)
        ctx.log(" ".join(argv), type(r.exc).__name__)
        ctx.distinct(hash(data), tuple(argv))
        after = cli.snapshot(d)
        # opening a directory (name "..") can only fail
        r.escaped = [e for e in r.escaped if e[0] != "open" or not os.path.isdir(os.path.join(cwd, e[1]))]
        ctx.require(not r.escaped, "escape", "%s writes to %s" % (argv, r.escaped))
        rel = os.path.normpath(os.path.join("work/here", target)) + "/"
        for k in set(before) | set(after):
            if before.get(k, 0) == after.get(k, 0):
                continue
            inside = os.path.normpath(k).startswith(rel)
            isdir = (rel.startswith(k + "/")) and after[k] is None if k in after else False
            ctx.require(inside or isdir, "escape", "%s changes %s" % (argv, k))
            if inside and k in after and not hostile_mark(bad, every, pos):
                ctx.require("/" not in k[len(rel):], "escape", "%s creates %s in a sub-directory" % (argv, k))
        asked_bad = [n for n, c in want if hostile(n)]
        if asked_bad and r.exc is None:
            ctx.count("hostile_extracted", len(asked_bad))
        if r.exc is not None:
            # "." and ".." can't be file names
            ctx.require(any(n in ("", ".", "..") for n in asked_bad) or toolong(want), "error", "%s fails: %r" % (argv, r.exc))
            continue
        # the outcome
        expect = {k[len(rel):]: v for k, v in before.items() if k.startswith(rel)}
        fuzzy = 0
        for n, c in want:
            if hostile(n):
                fuzzy += 1
                continue
            m = n.lower() if lower else n
            if text:
                c = c.replace(b"\x7f", b"\t").replace(b"\x9b", b"\n")
            if m in expect:
                if expect[m] is not None and expect[m].startswith(b"precious"):
                    ctx.count("existing_replaced" if force else "existing_kept")
                else:
                    ctx.count("case_collisions")
                if not force:
                    continue
            expect[m] = c
            ctx.count("files_extracted")
        got = {k[len(rel):]: v for k, v in after.items() if k.startswith(rel)}
        if fuzzy:
            # unusable names may be changed to something else, everything else has to be right
            extra = set(got) - set(expect)
            ctx.require(len(extra) <= fuzzy, "files", "%s creates %s" % (argv, sorted(extra)))
            lost = [k for k in expect if k not in got]
            ctx.require(not lost, "files", "%s doesn't write %s" % (argv, lost))
            contents = [c for n, c in want]
            for k in expect:
                if not clash(k, want, lower):
                    ctx.require(got[k] == expect[k], "content", "%s: wrong contents in %s" % (argv, k), got=got[k], want=expect[k])
        else:
            ctx.require(set(got) == set(expect), "files", "%s: files %s, expected %s" % (argv, sorted(got), sorted(expect)))
            for k in expect:
                ctx.require(got[k] == expect[k], "content", "%s: wrong contents in %s" % (argv, k), got=got[k], want=expect[k])
        for m in missing:
            ctx.require(m in r.out, "report", "missing file isn't reported")
            ctx.count("missing_reported")
    ctx.sample()


def toolong(want):
    return any(len(n.encode("utf8")) > 250 for n, c in want)


def clash(k, want, lower):
    """could a changed hostile name end up on this one?"""
    return any(hostile(n) and (n.lower() if lower else n).replace("/", "_").replace("\0", "_") == k for n, c in want)


def hostile_mark(bad, every, pos):
    return bool(bad) and (every or any(b in pos for b in bad))
