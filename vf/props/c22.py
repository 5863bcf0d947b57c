import os

import atrcopy
from atrcopy import errors
from core import REPO

import cli
import dos33fs
import session

PID = "C22"
RULE = ("the create command is run with every kind of name fragment (full names, all substrings at random, wrong case, patterns, description "
        "files, unrelated text) on new, existing, forced, dry-run and impossible targets, through command aliases and option positions, and the "
        "data function is called directly; the scratch directory before and after is compared, created images are opened and read by an "
        "independent reader; non-trivial: distinct (fragment, target state, options)")
CASES = {"quick": 2500, "thorough": 12000}
REQUIRED = ["created", "unknown", "ambiguous", "kept_existing", "forced", "dry_run", "direct", "used_afterwards", "no_directory"]
ASSUMPTIONS = ["target names don't start with a dash and aren't the only argument"]

# what the description of each template promises: sectors, files
PROMISE = {
    "dos2dd.atr": (183952, [], 707), "dos2ed.atr": (133136, [], None), "dos2sd.atr": (92176, [], 707),
    "dos2ed+2.5.atr": (133136, ["DOS.SYS", "DUP.SYS"], None), "dos2sd+2.0s.atr": (92176, ["DOS.SYS", "DUP.SYS"], None),
    "dos33.dsk": (143360, [], None), "dos33autobrun.dsk": (143360, ["HELLO"], None),
}


def fragment(rng):
    name = rng.choice(sorted(PROMISE))
    k = rng.random()
    if k < .35:
        return name
    if k < .7:
        a, b = sorted((rng.randint(0, len(name)), rng.randint(0, len(name))))
        return name[a:b]
    if k < .75:
        return name.upper()
    if k < .8:
        return name + ".inf"
    return rng.choice([".inf", "*", "dos*", "?", "[d]os33", "nothing", "dos3.3", "dos2sd+", "+2.5", "autobrun", "atr", "dd", "33.", "/", "../templates/dos33.dsk",
                       "dos33.dsk\n", " dos33", "33a", "\u00e9", "sd.", "ed.", "0s"])


def matches(frag):
    return [n for n in sorted(PROMISE) if frag in n]


def judge_image(ctx, name, b):
    size, files, free = PROMISE[name]
    ctx.require(len(b) == size, "promise", "%s has %d bytes" % (name, len(b)))
    fs = dos33fs.open_fs(b)
    got = [e.name for e in fs.ok_files()]
    ctx.require(len(fs.ok_files()) == len(fs.files), "promise", "%s has damaged files" % name)
    ctx.require(all(f in got for f in files) and (bool(got) == bool(files)), "promise", "%s holds %s" % (name, got))
    if free is not None:
        ctx.require(len(fs.free) == free, "promise", "%s has %d free sectors" % (name, len(fs.free)))
    if hasattr(fs, "free_count") and fs.free_count is not None and size == 92176:
        ctx.require(fs.free_count == len(fs.free), "promise", "%s: free count" % name)
    # and the program agrees
    parser, mime = atrcopy.find_diskimage_from_data(b)
    ctx.require(mime.startswith("application/vnd.apple2.dsk" if name.endswith("dsk") else "application/vnd.atari8bit.atr"), "format", "%s is %s" % (name, mime))
    ctx.require(sorted(d.filename if isinstance(d.filename, str) else d.filename.decode() for d in parser.image.files) == sorted(got), "format",
                "%s: program lists other files" % name)


def case(ctx, i):
    rng = ctx.rng
    frag = fragment(rng)
    hits = matches(frag)
    if rng.random() < .15:
        ctx.count("direct")
        try:
            data, inf = atrcopy.get_template_data(frag)
        except errors.InvalidDiskImage:
            ctx.require(len(hits) != 1, "direct", "template %r not found" % frag)
        else:
            ctx.require(len(hits) == 1 and inf["name"] == hits[0], "direct", "%r gives %s, matches are %s" % (frag, inf["name"], hits))
            ctx.require(data == template(hits[0]), "direct", "data isn't the template's")
        return
    d = ctx.tmp()
    target = rng.choice(["new.atr", "new.dsk", "noext", "a b.atr", "sub/x.dsk", "missing/x.atr", "x.xex"])
    os.mkdir(d + "/sub")
    state = rng.choice(["new", "new", "exists", "exists"]) if "missing" not in target else "new"
    old = None
    if state == "exists":
        old = rng.choice([b"", rng.randbytes(500), template(rng.choice(sorted(PROMISE)))])
        cli.put(d + "/" + target, old)
    cli.put(d + "/other.atr", b"keep")
    force = rng.random() < .5
    dry = rng.random() < .25
    argv = [target]
    opts = ["-f"] if force and rng.random() < .5 else ["--force"] if force else []
    cmd = [rng.choice(["create", "c"])]
    cmd += opts + [frag] if rng.random() < .5 else [frag] + opts
    if dry:
        argv = rng.choice([["--dry-run", target], [target, "--dry-run"], [target, "-v", "--dry-run"]])
    before = cli.snapshot(d)
    if frag.startswith("-") or frag == "":
        return
    ctx.log("create", argv + cmd, state)
    ctx.distinct(frag, target, state, force, dry)
    r = cli.run(argv + cmd, d)
    after = cli.snapshot(d)
    ctx.require(not r.escaped, "escape", "wrote to %s" % r.escaped)
    should = len(hits) == 1 and not dry and (old is None or force) and "missing" not in target
    if len(hits) != 1:
        ctx.count("unknown" if not hits else "ambiguous")
    if not should:
        ctx.require(after == before, "touched", "files changed although nothing should be created: %s" % [k for k in set(after) | set(before)
                                                                                                        if after.get(k, 0) != before.get(k, 0)])
        if len(hits) == 1 and old is not None and not force and not dry:
            ctx.count("kept_existing")
        if dry:
            ctx.count("dry_run")
        if "missing" in target:
            ctx.count("no_directory")
        return
    ctx.require(r.exc is None, "failed", "create failed: %r" % (r.exc,))
    want = dict(before)
    want[target] = template(hits[0])
    ctx.require(after.get(target) == want[target], "contents", "%s isn't the template %s" % (target, hits[0]))
    ctx.require(after == want, "touched", "other files changed")
    judge_image(ctx, hits[0], after[target])
    ctx.count("created")
    if force and old is not None:
        ctx.count("forced")
    # a new disk is usable
    cli.put(d + "/DATA", b"some data" * 30)
    r = cli.run([target, "add", "DATA"], d)
    ctx.require(r.exc is None, "use", "adding to the new disk failed: %r" % (r.exc,))
    fs = dos33fs.open_fs(cli.get(d + "/" + target))
    e = [e for e in fs.ok_files() if e.name == "DATA"]
    ctx.require(len(e) == 1 and fs.content(e[0])[:270] == b"some data" * 30, "use", "file added to the new disk isn't there")
    # and the packaged template isn't touched
    ctx.require(open(os.path.join(REPO, "atrcopy", "templates", hits[0]), "rb").read() == template(hits[0]), "template", "template changed")
    ctx.count("used_afterwards")
    ctx.sample()


CACHE = {}


def template(name):
    if name not in CACHE:
        with open(os.path.join(REPO, "atrcopy", "templates", name), "rb") as fh:
            CACHE[name] = fh.read()
    return CACHE[name]
