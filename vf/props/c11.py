import os

import cli
import dos33fs
import execs
import session
from session import name_for, content

PID = "C11"
RULE = ("a writable disk image file (template, sample, foreign) goes through 3-7 successive add, delete and assemble commands with random "
        "files (in sub-directories, existing and new names, missing names, repeated arguments), force and type options, data files "
        "with slices and every address notation, object files with run and init blocks, run addresses, repeated options; after every "
        "command the file is read by an independent implementation and compared with the outcome computed from the arguments; "
        "assemble is also run on the local file system; non-trivial: distinct (disk state, command) pairs")
CASES = {"quick": 480, "thorough": 6000}
REQUIRED = ["add", "add_new", "add_long_name", "add_skipped", "add_replaced", "delete", "delete_missing", "delete_done", "assemble", "assemble_obj",
            "assemble_slice", "assemble_run", "repeated_option", "assemble_run_and_init", "local_assemble", "dos33", "atari", "failed_unchanged"]
ASSUMPTIONS = ["names that are legal on the disk and don't start with a dash; no empty segments; run addresses other than 0; "
               "object file blocks don't load at address 0; locked files aren't named"]


def state(fs):
    return {e.name: e for e in fs.files}


def address(rng, a):
    return rng.choice(["%x" % a, "%X" % a, "$%04x" % a, "0x%x" % a, "#%d" % a, "%%%s" % bin(a)[2:]])


def make_inputs(ctx, d):
    """random input files of an assembly: (options, segments, run)"""
    rng = ctx.rng
    ddata, dobj, segs = [], [], []
    runs = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        n = rng.randint(1, 1500)
        raw = rng.randbytes(n)
        name = rng.choice(["data%d.bin", "data%d.bin", "DATA%d", "at@%d.bin", "br[%d.bin", "with space %d", "x@2000@%d"]) % len(os.listdir(d))
        cli.put(d + "/" + name, raw)
        spec = name
        if rng.random() < .5:
            while True:
                a = rng.choice([None, rng.randint(0, n - 1), -rng.randint(1, n)])
                b = rng.choice([None, rng.randint(1, n + 10), -rng.randint(1, n)])
                part = raw[slice(a, b)]
                if part:
                    break
            spec += "[%s:%s]" % ("" if a is None else a, "" if b is None else b)
            raw = part
            ctx.count("assemble_slice")
        org = rng.choice([rng.randint(0x300, 0xffff - len(raw)), 0x2000, 0x6000])
        ddata.append(spec + "@" + address(rng, org))
        segs.append((org, raw))
    if rng.random() < .5 or not segs:
        for _ in range(rng.choice([1, 1, 2])):
            blocks = []
            for _ in range(rng.randint(1, 4)):
                n = rng.choice([1, 2, rng.randint(1, 800)])
                blocks.append((rng.randint(0x400, 0xfffe - n), rng.randbytes(n)))
                if rng.random() < .2:
                    blocks.append((0x2e2, rng.randbytes(2)))
            loads = list(blocks)
            if rng.random() < .4:
                s, b = rng.choice([x for x in blocks if x[0] != 0x2e2])
                run = s + rng.randrange(len(b))
                k = rng.randint(0, len(blocks))
                init = b""
                if rng.random() < .3:
                    # run and init address in one block
                    init = rng.randbytes(2)
                    loads.insert(k, (0x2e2, init))
                    ctx.count("assemble_run_and_init")
                blocks.insert(k, (0x2e0, run.to_bytes(2, "little") + init))
                runs.append(run)
            segs += loads
            name = "obj%d.xex" % len(os.listdir(d))
            cli.put(d + "/" + name, execs.xex(blocks, rng))
            dobj.append(name)
            ctx.count("assemble_obj")
    run = None
    opts = []
    if rng.random() < .4:
        s, b = rng.choice(segs)
        run = s + rng.randrange(len(b))
        opts += [rng.choice(["-r", "--run-addr", "--brun"]), address(rng, run)]
        ctx.count("assemble_run")
    elif runs:
        run = runs[0]

    def group(flag, items):
        if len(items) > 1 and rng.random() < .5:
            ctx.count("repeated_option")
            return [x for i in items for x in (flag, i)]
        return [flag] + items if items else []
    parts = [group(rng.choice(["-d", "--data"]), ddata), group(rng.choice(["-b", "--obj"]), dobj), opts]
    rng.shuffle(parts)
    return [x for p in parts for x in p], segs, run


def judge_xex(ctx, got, segs, run, exact=True):
    try:
        blocks = execs.parse_xex(got)
    except execs.BadExec as e:
        ctx.fail("executable", "not loadable: %s" % e, file=got)
    ctx.require(execs.writes(blocks) == execs.writes(segs), "executable", "loads something else than was given",
                loads=[(hex(s), len(b)) for s, b in blocks], given=[(hex(s), len(b)) for s, b in segs])
    want = execs.run_vector(segs, run if run else segs[0][0])
    ctx.require(execs.run_vector(blocks) == want, "run", "run address %s, wanted %04x" % (execs.run_vector(blocks), want))


def judge_bsave(ctx, got, segs, run, padded):
    try:
        start, data, rest = execs.parse_bsave(got)
    except execs.BadExec as e:
        ctx.fail("executable", "not loadable: %s" % e, file=got)
    if padded:
        rest = rest.strip(b"\0")
    want = execs.expected_bsave(segs, run)
    ctx.require(start == want[0], "executable", "loads at %04x, wanted %04x" % (start, want[0]))
    ctx.require(data == want[1] and not rest, "executable", "contents differ from the inputs", got=data, want=want[1], rest=rest)


def local(ctx):
    """assemble with the local file system as target"""
    rng = ctx.rng
    for _ in range(3):
        d = ctx.tmp()
        opts, segs, run = make_inputs(ctx, d)
        kind = rng.choice(["xex", "bin", "bsave"])
        name = rng.choice(["out", "Game"]) + "." + rng.choice([kind, kind.upper()])
        force = rng.random() < .4
        exists = rng.random() < .4
        old = b"old contents"
        if exists:
            cli.put(d + "/" + name, old)
        if kind != "xex":
            lo = min(s for s, b in segs)
        before = cli.snapshot(d)
        r = cli.run([".", "assemble"] + (["-f"] if force else []) + opts + ["-o", name], d)
        ctx.log("local assemble", r.argv, type(r.exc).__name__)
        ctx.require(r.exc is None, "error", "assemble fails: %r" % r.exc)
        after = cli.snapshot(d)
        ctx.require(set(after) == set(before) | {name}, "files", "files after: %s" % sorted(after))
        ctx.require(all(after[k] == before[k] for k in before if k != name), "files", "another file was changed")
        ctx.count("local_assemble")
        ctx.distinct(hash(str(before)), tuple(r.argv))
        if exists and not force:
            ctx.require(after[name] == old, "overwritten", "existing local file overwritten without force")
            continue
        if kind == "xex":
            judge_xex(ctx, after[name], segs, run)
        else:
            judge_bsave(ctx, after[name], segs, run, False)


def case(ctx, i):
    rng = ctx.rng
    if i % 8 == 7:
        return local(ctx)
    start, data = session.start_image(ctx)
    ctx.log("start", start, data)
    d = ctx.tmp()
    os.makedirs(d + "/sub/dir")
    img = rng.choice(["disk.atr", "disk.dsk", "disk", "sub/a.b.img"])
    cli.put(d + "/" + img, data)
    for step in range(rng.randint(3, 7)):
        data = cli.get(d + "/" + img)
        fs = dos33fs.open_fs(data)
        dos33 = fs.kind == "dos33"
        ctx.count(fs.kind)
        names = [e.name for e in fs.files]
        usable = [e.name for e in fs.ok_files() if names.count(e.name) == 1 and not e.locked and plain(e.name, fs)]
        try:
            before = {e.num: (e.ident, fs.content(e)) for e in fs.ok_files()}
        except Exception as e:
            raise
        free, slot = len(fs.free), fs.free_slot()
        what = rng.choice(["add", "add", "delete", "assemble"])
        if what == "delete" and not usable:
            what = "add"
        expect = {}   # name -> (judge, type)
        gone = set()
        size = 0
        others = set(n for n in names)
        if what == "add":
            argv, size = ["add"], 0
            force = rng.random() < .5
            typ = rng.choice("TIABSRab") if dos33 and rng.random() < .4 else None
            todo = {}
            room = session.max_data(fs, free) * fs.payload
            for _ in range(rng.randint(1, 4)):
                if usable and rng.random() < .35:
                    n = rng.choice(usable)
                else:
                    n = name_for(rng, fs, names)
                    if "/" in n or n in (".", ".."):
                        continue
                if n in todo:
                    continue
                sz = min(session.file_size(rng, fs), 20000) if rng.random() < .93 else room + rng.randint(1, 5000)
                body = content(rng, sz)
                sub = rng.choice(["", "sub/", "sub/dir/"])
                long = longer(rng, n, dos33)
                if long != n:
                    ctx.count("add_long_name")
                if sub + long == img:
                    continue
                cli.put(d + "/" + sub + long, body)
                todo[n] = (body, sub + long)
            if not todo:
                continue
            opts = (["-f"] if force else []) + ([rng.choice(["-t", "--filetype"]), typ] if typ else [])
            files = [p for b, p in todo.values()]
            argv = [img, "add"] + (opts + files if rng.random() < .7 else files + opts)
            for n, (body, p) in todo.items():
                if n in names and not force:
                    ctx.count("add_skipped")
                    continue
                if n in names:
                    gone.add(n)
                ctx.count("add_replaced" if n in names else "add_new")
                expect[n] = (("exact", body), typ or "B")
                size += fs.needed(len(body))
            slots = len([n for n in expect if n not in names])
        elif what == "delete":
            victims = [rng.choice(usable) for _ in range(rng.randint(1, 3))]
            missing = [name_for(rng, fs, names) for _ in range(rng.choice([0, 0, 1]))]
            missing = [m for m in missing if "/" not in m]
            args = list(dict.fromkeys(victims)) + missing
            rng.shuffle(args)
            argv = [img, rng.choice(["delete", "rm", "del"])] + args
            gone = set(victims)
            slots = 0
            if missing:
                ctx.count("delete_missing")
        else:
            opts, segs, run = make_inputs(ctx, d + "/sub/dir")
            opts = [o if o[0] == "-" or not any(o.startswith(f) for f in os.listdir(d + "/sub/dir")) else "sub/dir/" + o for o in opts]
            n = rng.choice(usable) if usable and rng.random() < .3 else name_for(rng, fs, names)
            if "/" in n:
                continue
            force = rng.random() < .5
            argv = [img, rng.choice(["assemble", "asm", "s"])] + (["-f"] if force else []) + opts + ["-o", longer(rng, n, dos33, False)]
            slots = 0
            low = n.lower()
            kind = "xex" if low.endswith("xex") else "bsave" if low.endswith("bin") or low.endswith("bsave") or dos33 else "xex"
            if n not in names or force:
                if n in names:
                    gone.add(n)
                else:
                    slots = 1
                expect[n] = ((kind, segs, run), "B")
                total = sum(len(b) + 4 for s, b in segs) + 10
                if kind == "bsave":
                    total = max(s + len(b) for s, b in segs) - min(s for s, b in segs) + 8
                size = fs.needed(total)
        r = cli.run(argv, d)
        ctx.count(what)
        ctx.log(" ".join(argv), type(r.exc).__name__)
        ctx.distinct(hash(data), tuple(argv))
        now = cli.get(d + "/" + img)
        roomy = size <= free and (slots <= 1 and slot is not None or slots == 0 or len([e for e in fs.all_entries if e.reusable]) >= slots)
        if r.exc is not None:
            ctx.require(not roomy, "error", "%s fails: %r" % (" ".join(argv), r.exc))
            ctx.require(now == data, "changed", "%s failed, yet the image file changed" % " ".join(argv))
            ctx.count("failed_unchanged")
            continue
        ctx.require(not r.escaped, "files", "writes outside: %s" % r.escaped)
        new = dos33fs.open_fs(now)
        ctx.require(len(now) == len(data), "length", "image file has %d bytes, had %d" % (len(now), len(data)))
        wanted = sorted([str(n) for n in names if n not in gone] + list(expect))
        ctx.require(sorted(str(e.name) for e in new.files) == wanted, "files", "after %s: files %s, wanted %s" % (
            " ".join(argv), sorted(str(e.name) for e in new.files), wanted))
        by = {}
        for e in new.files:
            by.setdefault(e.name, []).append(e)
        for n, (judge, typ) in expect.items():
            e = by[n][0]
            got = new.content(e)
            if dos33:
                ctx.require(e.type == typ, "type", "%r has type %s, wanted %s" % (n, e.type, typ))
            if judge[0] == "exact":
                body = judge[1]
                ok = got == body if not dos33 else got[:len(body)] == body and not got[len(body):].strip(b"\0") and len(got) - len(body) <= 256
                ctx.require(ok, "content", "%r: %d bytes stored, local file has %d" % (n, len(got), len(body)), stored=got, local=body)
            elif judge[0] == "xex":
                if dos33:
                    segs = judge[1]
                    k = 2 + sum(4 + len(b) for s, b in segs) + (0 if any(s == 0x2e0 for s, b in segs) else 6)
                    ctx.require(not got[k:].strip(b"\0"), "executable", "junk after the executable")
                    got = got[:k]
                judge_xex(ctx, got, judge[1], judge[2])
            else:
                judge_bsave(ctx, got, judge[1], judge[2], dos33)
        keep = {e.name for e in fs.files if e.name not in gone}
        for e in fs.ok_files():
            if e.name in keep and names.count(e.name) == 1:
                f = by[e.name][0]
                ctx.require(new.content(f) == before[e.num][1], "other-file", "%r changed by %s" % (e.name, " ".join(argv)))
        if what == "delete":
            ctx.count("delete_done")
            for m in missing:
                ctx.require(m in r.out, "report", "missing file %r isn't reported" % m)
        if what == "add":
            for n in todo:
                if n not in expect:
                    ctx.require(n in r.out, "report", "skipped file %r isn't reported" % n)
    ctx.sample()


def longer(rng, n, dos33, exts=True):
    """a name that is cut to the given one when stored"""
    if rng.random() < .7:
        return n
    if dos33:
        return n + "XYZ"[:rng.randint(1, 3)] if len(n) == 30 and exts else n
    base, dot, ext = n.partition(".")
    if len(base) == 8 and rng.random() < .8:
        base += rng.choice(["1", "LONG", " ", "2-3"])
    if len(ext) == 3 and exts and rng.random() < .5:
        ext += rng.choice(["T", "1", ".OLD"])
    return base + dot + ext


def plain(n, fs):
    return n and n[0] != "-" and "/" not in n and "\0" not in n and n not in (".", "..") and all(31 < ord(c) < 127 for c in n) and n == n.strip()
