import os
import shutil
import subprocess
import sys

import cli
import session
from core import REPO

PID = "C28"
RULE = ("one random command (every command, with random options, names and input files) is run on two identical scratch directories, once "
        "in its plain spelling and once in another: aliases, long or short options, values attached or separate, repeated or grouped "
        "list options, options before or after the names, global options before or after the image; the complete file tree, the printed "
        "text, the exit status and the exception are compared; further: without a command, with -v, with --help anywhere, with unknown "
        "commands and options, and through the installed script; non-trivial: distinct pairs of spellings")
CASES = {"quick": 1500, "thorough": 20000}
REQUIRED = ["pairs", "changed", "aliased", "attached", "long", "after_names", "global_after", "grouped", "help", "help_command", "help_image", "default",
            "verbose", "unknown", "script", "failed"] + ["cmd_" + c for c in
            ("list", "crc", "extract", "add", "create", "boot", "assemble", "delete", "vtoc", "segments")]
ASSUMPTIONS = ["an image isn't named like a command when help is asked for; names don't start with a dash; -v may print more, the rest of the "
               "text is the same"]

ALIASES = {"list": ["t", "ls", "dir", "catalog"], "crc": [], "extract": ["x"], "add": ["a"], "create": ["c"], "boot": ["b"],
           "assemble": ["s", "asm"], "delete": ["rm", "del"], "vtoc": ["v"], "segments": []}
LONG = {"list": {"-g": ["--segments"], "-m": ["--metadata"], "-c": ["--crc"]},
        "crc": {}, "segments": {},
        "extract": {"-a": ["--all"], "-l": ["--lower"], "-d": ["--dir"], "-t": ["--text"], "-f": ["--force"]},
        "add": {"-f": ["--force"], "-t": ["--filetype"]},
        "create": {"-f": ["--force"]},
        "assemble": {"-f": ["--force"], "-d": ["--data"], "-b": ["--obj", "--bload"], "-r": ["--run-addr", "--brun"], "-o": ["--output"]},
        "boot": {"-f": ["--force"], "-d": ["--data"], "-b": ["--obj", "--bload"], "-r": ["--run-addr", "--brun"]},
        "delete": {"-f": ["--force"]},
        "vtoc": {"-e": ["--clear-empty"]}}


def content(rng):
    return rng.randbytes(rng.choice([0, 1, 125, 300, 2000]))


def inputs(rng, d):
    """options of assemble and boot: [(flag, [values])]"""
    data = []
    for k in range(rng.randint(1, 3)):
        cli.put("%s/in%d.bin" % (d, k), rng.randbytes(rng.randint(1, 900)))
        data.append("in%d.bin@%x" % (k, 0x2000 + 0x1000 * k))
    opts = [("-d", data)]
    if rng.random() < .4:
        n = rng.randint(1, 200)
        objs = []
        for k in range(rng.randint(1, 2)):
            at = 0x6000 + 0x800 * k
            cli.put("%s/obj%d.xex" % (d, k), b"\xff\xff" + at.to_bytes(2, "little") + (at + n - 1).to_bytes(2, "little") + rng.randbytes(n))
            objs.append("obj%d.xex" % k)
        opts.append(("-b", objs))
    if rng.random() < .6:
        at = 0x2000 + 0x1000 * rng.randrange(len(data)) + rng.choice([0, 0, 1, 7, 0x102])
        opts.append(("-r", rng.choice(["%x", "$%x", "#%d", "0x%x"]) % at))
    return opts


def command(ctx, d):
    """image, command, options [(flag, None | value | [values])], names"""
    rng = ctx.rng
    cmd = rng.choice(sorted(ALIASES))
    flags = lambda fs: [(f, None) for f in fs if rng.random() < .4]
    img = rng.choice(["disk.atr", "Disk 1.dsk", "sub/image", "add", "x"])
    if cmd in ("create", "boot"):
        img = rng.choice(["new.atr", "new.dsk", "sub/other.atr", "new", "here.atr"])
        os.mkdir(d + "/sub")
        cli.put(d + "/here.atr", b"something")
        if cmd == "create":
            return img, cmd, flags(["-f"]), [rng.choice(["dos2sd", "dos33.dsk", "dos2ed.atr", "dos", "nothing", "dos33auto"])]
        return img, cmd, flags(["-f"]) + inputs(rng, d), []
    name, data = session.start_image(ctx)
    if "/" in img:
        os.mkdir(d + "/sub")
    cli.put(d + "/" + img, data)
    fs = session.dos33fs.open_fs(data)
    there = [e.name for e in fs.ok_files() if e.name and e.name[0] != "-" and "/" not in e.name and "\0" not in e.name and e.name == e.name.strip()
             and e.name not in (".", "..") and all(31 < ord(c) < 127 for c in e.name)]
    some = lambda: [rng.choice(there + ["NOSUCH"]) for _ in range(rng.randint(1, 3))]
    if cmd == "list":
        return img, cmd, flags(["-g", "-m", "-c"]), some() if rng.random() < .5 else []
    if cmd == "crc":
        return img, cmd, [], some() if rng.random() < .5 else []
    if cmd == "segments":
        return img, cmd, [], []
    if cmd == "vtoc":
        return img, cmd, flags(["-e"]), []
    if cmd == "delete":
        return img, cmd, flags(["-f"]), some()
    if cmd == "extract":
        opts = flags(["-a", "-l", "-t", "-f"])
        if rng.random() < .4:
            opts.append(("-d", rng.choice(["out", "sub/deep", "Out"])))
        return img, cmd, opts, [] if ("-a", None) in opts else some()
    if cmd == "add":
        names = []
        for k in range(rng.randint(1, 3)):
            n = rng.choice(["FILE%d" % k, "F%d.TXT" % k] + ["sub2/G%d" % k] + there[:1])
            p = d + "/" + n
            if n in (img, "sub") or os.path.isdir(p):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            cli.put(p, content(rng))
            names.append(n)
        names = names or ["FILE"]
        if rng.random() < .1:
            names.append("MISSING")
        opts = flags(["-f"])
        if rng.random() < .4:
            opts.append(("-t", rng.choice(["T", "B", "A"])))
        return img, cmd, opts, names
    return img, cmd, flags(["-f"]) + inputs(rng, d) + [("-o", rng.choice(["OUT", "GAME.XEX", "PROG.BIN"] + there[:1]))], []


def spell(ctx, img, cmd, opts, names, glob, plain):
    rng = ctx.rng
    c = cmd
    if not plain and ALIASES[cmd] and rng.random() < .8:
        c = rng.choice(ALIASES[cmd])
        ctx.count("aliased")
    words = []
    opts = list(opts)
    if not plain:
        rng.shuffle(opts)
    for f, v in opts:
        def flag():
            if not plain and rng.random() < .6:
                ctx.count("long")
                return rng.choice(LONG[cmd][f])
            return f
        if v is None:
            words.append([flag()])
        elif isinstance(v, list):
            if not plain and rng.random() < .5:
                # each with its own option
                for x in v:
                    words.append([flag(), x])
                ctx.count("grouped", len(v) > 1)
            else:
                words.append([flag()] + v)
        else:
            w = flag()
            if not plain and rng.random() < .4:
                words.append([w + "=" + v if w.startswith("--") else w + v])
                ctx.count("attached")
            else:
                words.append([w, v])
    flat = [x for w in words for x in w]
    if not plain and names and rng.random() < .5:
        tail = names + flat
        ctx.count("after_names", bool(flat))
    else:
        tail = flat + names
    glob = list(glob)
    if plain:
        return glob + [img, c] + tail
    k = rng.randint(0, len(glob))
    rng.shuffle(glob)
    ctx.count("global_after", k < len(glob))
    return glob[:k] + [img] + glob[k:] + [c] + tail


def outcome(r, d):
    return dict(tree=cli.snapshot(d), out=r.out, code=r.code, exc=None if r.exc is None else (type(r.exc).__name__, str(r.exc)))


def both(ctx):
    """two identical directories and the command"""
    top = ctx.tmp()
    d = top + "/one/w"
    os.makedirs(d)
    what = command(ctx, d)
    shutil.copytree(top + "/one", top + "/two")
    return d, top + "/two/w", what


def pair(ctx):
    rng = ctx.rng
    d1, d2, (img, cmd, opts, names) = both(ctx)
    before = cli.snapshot(d1)
    glob = ["--dry-run"] if rng.random() < .25 else []
    a1 = spell(ctx, img, cmd, opts, names, glob, True)
    a2 = spell(ctx, img, cmd, opts, names, glob, False)
    ctx.log("pair", a1, a2)
    one = outcome(cli.run(a1, d1), d1)
    two = outcome(cli.run(a2, d2), d2)
    ctx.count("pairs")
    ctx.count("cmd_" + cmd)
    ctx.count("changed", one["tree"] != before)
    ctx.count("failed", one["exc"] is not None)
    ctx.distinct(a1, a2)
    for k in ("tree", "exc", "code", "out"):
        ctx.require(one[k] == two[k], k, "%s and %s differ in %s" % (a1, a2, describe(k, one[k], two[k])))
    # and the same again through -v
    if rng.random() < .3:
        shutil.rmtree(d2)
        restore(d2, before)
        k = rng.randint(0, 1)
        v = rng.choice([["-v"], ["--verbose"], ["-v", "-v"], ["-vv"]])
        a3 = v + a1 if k else glob + [img] + v + a1[len(glob) + 1:]
        ctx.log("verbose", a3)
        three = outcome(cli.run(a3, d2), d2)
        ctx.count("verbose")
        ctx.require(one["tree"] == three["tree"], "verbose", "%s and %s differ in %s" % (a1, a3, describe("tree", one["tree"], three["tree"])))
        ctx.require(one["exc"] == three["exc"] and one["code"] == three["code"], "verbose", "%s: %s, %s: %s" % (a1, one["exc"], a3, three["exc"]))
        rest = iter(three["out"].split("\n"))
        for line in one["out"].split("\n"):
            if line.startswith(img + ": "):
                continue    # the format is added
            ctx.require(line in rest, "verbose", "%s doesn't print %r (%s does)" % (a3, line[:200], a1))


def restore(d, tree):
    os.makedirs(d)
    for n in sorted(tree):
        if tree[n] is None:
            os.makedirs(d + "/" + n, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
            cli.put(d + "/" + n, tree[n])


def describe(k, a, b):
    if k == "tree":
        return "files %s" % [n for n in sorted(set(a) | set(b)) if a.get(n, 0) != b.get(n, 0)][:5]
    return "%s: %r and %r" % (k, str(a)[:300], str(b)[:300])


def default(ctx):
    """only an image: listed"""
    rng = ctx.rng
    d = ctx.tmp()
    name, data = session.start_image(ctx)
    cli.put(d + "/disk", data)
    for glob in rng.sample([[], ["--dry-run"], ["-v"], ["--verbose", "--dry-run"]], 2):
        want = cli.run(glob + ["disk", "list"], d)
        for argv in (glob + ["disk"], ["disk"] + glob, glob[:1] + ["disk"] + glob[1:]):
            got = cli.run(argv, d)
            ctx.log("default", argv)
            ctx.require(got.out == want.out and got.code == want.code and type(got.exc) is type(want.exc), "default", "%s isn't a listing: %r" % (
                argv, got.exc or got.out[:300]))
            ctx.count("default")
    ctx.require(cli.snapshot(d) == {"disk": data}, "default", "listing changed files")
    ctx.distinct("default", name, hash(data))


def usage(ctx):
    rng = ctx.rng
    d1, d2, (img, cmd, opts, names) = both(ctx)
    before = cli.snapshot(d1)
    c = rng.choice([cmd] + ALIASES[cmd])
    h = rng.choice(["-h", "--help"])
    general = cli.run(["--help"], d1)
    own = cli.run([cmd, "--help"], d1)
    for r in (general, own):
        ctx.require(r.exc is None and not r.code and r.out.startswith("usage:"), "help", "%s: %r %r" % (r.argv, r.exc, r.out[:100]))
    ctx.require(own.out != general.out and cmd in own.out.split("\n")[0], "help", "help of %s starts with %r" % (cmd, own.out[:100]))
    for c2 in ALIASES:
        ctx.require(c2 in general.out, "help", "%s isn't mentioned in the help" % c2)
    tries = []
    if img not in ("add", "x"):
        full = spell(ctx, img, cmd, opts, names, [], False)
        k = rng.randint(2, len(full))
        tries += [([img, c, h], own), (full[:2] + [h], own), (full[:k] + [h] + full[k:], own), ([img, h, c], own), (["-v", img, c, h], own)]
        tries += [([img, h], general), ([img, "-v", h], general), ([h, img], general), (["-v", h, img], general)]
    tries += [([c, h], own), ([h], general), ([h, c], general), (["--dry-run", h], general)]
    for argv, want in rng.sample(tries, min(4, len(tries))):
        r = cli.run(argv, d2)
        ctx.log("help", argv)
        ctx.require(r.exc is None and not r.code, "help", "%s fails: %r" % (argv, r.exc))
        ctx.require(r.out == want.out, "help", "%s doesn't show the help of %s: %r" % (argv, cmd if want is own else "the program", r.out[:200]))
        ctx.count("help")
        ctx.count("help_command", want is own)
        ctx.count("help_image", argv[0] == img and want is general)
        ctx.distinct("help", argv)
    if cmd == "create":
        for n in os.listdir(REPO + "/atrcopy/templates"):
            if not n.endswith(".inf"):
                ctx.require(n in own.out, "help", "template %s isn't mentioned" % n)
    # not a command, not an option
    bad = rng.choice([[img, "remove"], [img, "extrac", "-a"], [img, cmd, "--nosuch"], [img, "lists"], ["-q", img, cmd], [img, c, "-f", "-Z"], []])
    r = cli.run(bad, d2)
    ctx.count("unknown")
    ctx.require(r.code, "unknown", "%s is accepted: %r %r" % (bad, r.exc, r.out[:200]))
    ctx.require(cli.snapshot(d2) == before and cli.snapshot(d1) == before, "unknown", "files changed by help or an unknown command")


def script(ctx):
    """the installed script does the same (commands that only read)"""
    rng = ctx.rng
    d = ctx.tmp()
    name, data = session.start_image(ctx)
    cli.put(d + "/disk", data)
    argv = ["disk", rng.choice(["list", "crc", "t", "segments", "vtoc"])]
    env = dict((k, v) for k, v in os.environ.items() if not k.startswith("PYTHON"))
    p = subprocess.run([sys.executable, "-B", "-W", "ignore", REPO + "/scripts/atrcopy"] + argv, cwd=d,
                       env=dict(env, PYTHONPATH=REPO, PYTHONIOENCODING="utf-8"), capture_output=True, timeout=300)
    r = cli.run(argv, d)
    ctx.log("script", argv, p.returncode)
    ctx.count("script")
    ctx.require((p.returncode != 0) == (r.exc is not None), "script", "exit status %d, %r in process: %s" % (p.returncode, r.exc, p.stderr[-300:]))
    if r.exc is None:
        ctx.require(p.stdout.decode("utf-8") == r.out, "script", "the script prints %r, not %r" % (p.stdout[:200], r.out[:200]))
    ctx.require(cli.snapshot(d) == {"disk": data}, "script", "a reading command changed files")


def case(ctx, i):
    if i % 100 == 50:
        script(ctx)
    elif i % 10 == 3:
        default(ctx)
    elif i % 10 in (4, 5):
        usage(ctx)
    else:
        pair(ctx)
    ctx.sample()
