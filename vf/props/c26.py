import re
import zlib

import cli
import dos33fs
import session
import spartafs
from session import Session, start_image

PID = "C26"
RULE = ("disks from independent builders, samples and templates, some after a history of writes and deletes, are reported by the list, crc, vtoc "
        "and segments commands with every alias, option and selection of names (present, missing, repeated, other case), and by dir(); the "
        "printed fields are parsed and compared with an independent reader of the same bytes; non-trivial: distinct (image, command)")
CASES = {"quick": 700, "thorough": 9000}
REQUIRED = ["list_lines", "crc_lines", "vtoc_tracks", "selected", "missing_names", "metadata", "list_crc", "after_history", "default_command", "locked",
            "deleted_hidden", "dos33", "atari", "ed", "empty_disk", "full_directory", "segments", "dir", "summary", "sparta"]
ASSUMPTIONS = ["disks without damaged files; DOS 3.3 names without inverse characters", "sectors 720 and up of enhanced density disks aren't in the map (known finding of C05)"]

ATARI = re.compile(r"File #(\d+) *\((.{6})\) (\d+) (.{8})(.{3})  (\d+)(?:  ([0-9a-f]{8}))?$", re.S)
APPLE = re.compile(r"File #(\d+) *\((.{2})\) (\d+) (.{30}) (\d+) (\d+)(?:  ([0-9a-f]{8}))?$", re.S)
SUMMARY = re.compile(r"(\d+) usable sectors \((\d+) free\), (\d+) files")


def crc(b):
    return "%08x" % (zlib.crc32(b) & 0xffffffff)


def judge_line(ctx, fs, e, line, with_crc):
    m = (ATARI if fs.kind == "atari" else APPLE).match(line)
    ctx.require(m is not None, "format", "can't make sense of %r" % line)
    g = m.groups()
    ctx.require(int(g[0]) == e.num, "number", "%r: entry %d" % (line, e.num))
    if fs.kind == "atari":
        f = e.flag
        flags = "".join(c if f & bit else n for c, n, bit in (("o", ".", 1), ("2", ".", 2), ("m", ".", 4), ("u", ".", 0x40), ("d", ".", 0x80), ("*", " ", 0x20)))
        ctx.require(g[1] == flags, "flags", "%r: flags should be %r" % (line, flags))
        ctx.require((int(g[2]), int(g[5])) == (e.start, e.count), "numbers", "%r: starts at %d, %d sectors" % (line, e.start, e.count))
        ctx.require((g[3], g[4]) == (e.rawname.decode("latin1"), e.rawext.decode("latin1")), "name", "%r: name is %r" % (line, e.name))
    else:
        ctx.require(g[1] == ("*" if e.locked else " ") + e.type, "flags", "%r: type %s, locked %s" % (line, e.type, e.locked))
        ctx.require((int(g[2]), int(g[4]), int(g[5])) == (e.count, e.track, e.sec), "numbers", "%r: %d sectors, t %d s %d" % (line, e.count, e.track, e.sec))
        ctx.require(g[3].rstrip(" ") == e.name, "name", "%r: name is %r" % (line, e.name))
    want = crc(fs.content(e)) if with_crc else None
    ctx.require(g[6] == want, "crc", "%r: checksum is %s" % (line, want))
    ctx.count("list_lines")
    if with_crc:
        ctx.count("list_crc")
    if e.locked:
        ctx.count("locked")


def make(ctx):
    rng = ctx.rng
    k = rng.random()
    if k < .3:
        name, data = start_image(ctx)
    elif k < .6:
        b = session.foreign_atari(rng, nfiles=rng.choice([0, 1, 4, 12, 30, 64]))
        name, data = "built-atari", b.build()
    elif k < .8:
        b = session.foreign_dos33(rng, exotic=False)
        name, data = "built-dos33", b.build()
    else:
        name, data = start_image(ctx)
        ses = Session(ctx, [], start=(name, data))
        ses.run(rng.randint(1, 8), (("write", 4), ("delete_some", 3), ("overwrite", 1)))
        name, data = name + "+history", ses.bytes
        ctx.count("after_history")
    return name, data


def case(ctx, i):
    rng = ctx.rng
    if i % 12 == 7:
        return sparta(ctx)
    name, data = make(ctx)
    fs = dos33fs.open_fs(data)
    files = fs.files
    if len(fs.ok_files()) != len(files) or any(e.name is None for e in files):
        ctx.count("skipped")
        return
    d = ctx.tmp()
    path = rng.choice(["disk.atr", "disk.dsk", "d.img", "My Disk.atr"])
    cli.put(d + "/" + path, data)
    ctx.log("disk", name, [e.name for e in files][:10])
    ctx.count(fs.kind)
    if fs.kind == "atari" and fs.free2 is not None:
        ctx.count("ed")
    if not files:
        ctx.count("empty_disk")
    if fs.kind == "atari" and len(fs.entries) == 64:
        ctx.count("full_directory")
    if any(not e.live for e in fs.entries):
        ctx.count("deleted_hidden")
    names = [e.name for e in files]
    for _ in range(5):
        cmd = rng.choice(["list", "list", "list", "crc", "crc", "vtoc", "segments", "dir"])
        sel = []
        if cmd in ("list", "crc") and rng.random() < .6:
            for _ in range(rng.randint(1, 4)):
                if names and rng.random() < .75:
                    sel.append(rng.choice(names))
                else:
                    n = session.atari_name(rng)
                    sel.append(rng.choice([n, n.lower(), names[0].swapcase() if names else n, names[0][:-1] if names and len(names[0]) > 1 else n]))
            sel = [n for n in sel if n and not n.startswith("-")]
            if sel:
                ctx.count("selected")
            if any(n not in names for n in sel):
                ctx.count("missing_names")
        shown = [e for e in files if not sel or e.name in sel]
        if cmd == "dir":
            lines = session.open_bytes(data).image.dir().split("\n")
            ctx.count("dir")
            summary(ctx, fs, lines[0])
            judge_list(ctx, fs, files, lines[1:], False, False)
            continue
        argv = [path]
        meta = withcrc = False
        if cmd == "list":
            alias = rng.choice(["list", "t", "ls", "dir", "catalog"])
            if not sel and rng.random() < .25:
                ctx.count("default_command")
            else:
                opts = []
                if rng.random() < .3:
                    meta = True
                    opts.append(rng.choice(["-m", "--metadata"]))
                if rng.random() < .4:
                    withcrc = True
                    opts.append(rng.choice(["-c", "--crc"]))
                rng.shuffle(opts)
                argv += [alias] + (opts + sel if rng.random() < .5 else sel + opts)
        elif cmd == "crc":
            argv += ["crc"] + sel
        else:
            argv += [rng.choice(["vtoc", "v"]) if cmd == "vtoc" else cmd]
        ctx.log("command", argv)
        ctx.distinct(hash(data), argv)
        r = cli.run(argv, d)
        ctx.require(r.exc is None, "failed", "%s failed: %r" % (argv, r.exc))
        lines = r.out.split("\n")
        ctx.require(lines[-1] == "", "format", "output doesn't end in a newline")
        lines = lines[:-1]
        if cmd == "crc":
            want = ["%s: %s" % (e.name, crc(fs.content(e))) for e in shown]
            ctx.require(lines == want, "crc", "%s prints %s, not %s" % (argv, [x for x in lines if x not in want][:3], [x for x in want if x not in lines][:3]))
            ctx.count("crc_lines", len(want))
            continue
        ctx.require(lines and lines[0].startswith(path + ": "), "summary", "first line %r" % lines[:1])
        summary(ctx, fs, lines[0])
        if cmd == "list":
            judge_list(ctx, fs, shown, lines[1:], withcrc, meta)
        elif cmd == "vtoc":
            judge_vtoc(ctx, fs, lines[1:])
        else:
            judge_segments(ctx, fs, lines[1:])
    ctx.require(cli.get(d + "/" + path) == data, "touched", "a report changed the disk")
    ctx.sample()


def summary(ctx, fs, line):
    if fs.kind == "atari":
        m = SUMMARY.search(line)
        want = (fs.total, fs.free_count + (fs.free2 or 0), len(fs.files))
        ctx.require(m is not None and tuple(map(int, m.groups())) == want, "summary", "%r should say %s" % (line, want))
        ctx.count("summary")
    sec = 256 if fs.kind == "dos33" else fs.sec
    ctx.require("(size=%d (%dx%dB)" % (fs.size, fs.nsec, sec) in line, "summary", "%r: %d bytes, %d sectors of %d" % (line, fs.size, fs.nsec, sec))


def judge_list(ctx, fs, shown, lines, withcrc, meta):
    if meta and fs.kind == "atari":
        extra, lines = lines[1::2], lines[0::2]
        for e, x in zip(shown, extra):
            f = e.flag
            want = [n for n, bit in (("OUT", 1), ("DOS2", 2), ("MYDOS", 4), ("IN_USE", 0x40), ("DEL", 0x80), ("LOCK", 0x20)) if f & bit]
            ctx.require(re.findall(r"\w+", x.split("=", 1)[-1]) == want, "metadata", "%r should show %s" % (x, want))
            ctx.count("metadata")
    elif meta:
        extra = [x for x in lines if x.startswith("sector map: ")]
        lines = [x for x in lines if x.startswith("File #")]
        for e, x in zip(shown, extra):
            lists, secs = fs.tslists(e)
            secs = [s for s in secs if s][:max(0, e.count - len(lists))]
            got = [int(n) for n in re.findall(r"\d+", x)]
            ctx.require([n for n in got if n] == secs, "metadata", "%s: %r should show %s" % (e.name, x, secs))
            ctx.count("metadata")
    ctx.require(len(lines) == len(shown), "lines", "%d lines for %d files" % (len(lines), len(shown)), lines=str(lines[:6]))
    for e, x in zip(shown, lines):
        judge_line(ctx, fs, e, x, withcrc)


def judge_vtoc(ctx, fs, lines):
    first, tracks, per = (0, 35, 16) if fs.kind == "dos33" else (1, 40, 18)
    rows = [x for x in lines if x.startswith("track ")]
    ctx.require(len(rows) == tracks, "vtoc", "%d tracks shown" % len(rows))
    ones = 0
    for t, x in enumerate(rows):
        m = re.match(r"track (\d+): *([\[\] 01]+)$", x)
        ctx.require(m is not None and int(m.group(1)) == t, "vtoc", "can't make sense of %r" % x)
        bits = re.findall(r"[01]", m.group(2))
        ctx.require(len(bits) == per, "vtoc", "%d sectors in track %d" % (len(bits), t))
        for j, c in enumerate(bits):
            n = first + t * per + j
            ones += c == "1"
            if fs.kind == "atari" and n >= 720 and fs.free2 is not None:
                continue
            ctx.require((c == "1") == (n in fs.free), "vtoc", "sector %d shown as %s" % (n, "free" if c == "1" else "used"))
        ctx.count("vtoc_tracks")
    m = re.search(r"\((\d+) free\)", "\n".join(lines[len(rows):]))
    ctx.require(m is not None and int(m.group(1)) == ones, "vtoc", "%s, but %d sectors shown as free" % (m and m.group(0), ones))


def judge_segments(ctx, fs, lines):
    """each file appears once, after the disk's own segments, in order"""
    ctx.require(len(lines) >= 2 + len(fs.files), "segments", "%d segments for %d files" % (len(lines), len(fs.files)))
    at = 0
    for e in fs.files:
        n = len(fs.content(e))
        while at < len(lines) and not (e.name in lines[at] and (n == 0 or "$%x" % n in lines[at].lower() or "$%04x" % n in lines[at].lower())):
            at += 1
        ctx.require(at < len(lines), "segments", "no segment of %d bytes for %r" % (n, e.name))
        at += 1
    ctx.count("segments")


def sparta(ctx):
    """the bitmap of a SpartaDOS disk: 40 tracks are shown, the total is that of the whole disk"""
    b = spartafs.random_disk(ctx.rng)
    data = b.build()
    d = ctx.tmp()
    cli.put(d + "/disk", data)
    r = cli.run(["disk", "vtoc"], d)
    ctx.require(r.exc is None, "failed", "vtoc of a SpartaDOS disk failed: %r" % r.exc)
    lines = r.out.split("\n")[1:]
    rows = [x for x in lines if x.startswith("track ")]
    free = set(b.free)
    ctx.require(len(rows) == 40, "vtoc", "%d tracks shown" % len(rows))
    for t, x in enumerate(rows):
        bits = re.findall(r"[01]", x.partition(":")[2])
        want = ["1" if 1 + 18 * t + j in free else "0" for j in range(18)]
        ctx.require(bits == want, "vtoc", "SpartaDOS track %d shown as %s, is %s" % (t, "".join(bits), "".join(want)))
        ctx.count("vtoc_tracks")
    m = re.search(r"\((\d+) free\)", "\n".join(lines[40:]))
    ctx.require(m is not None and int(m.group(1)) == len(free), "vtoc", "%s, but %d sectors are free" % (m and m.group(0), len(free)))
    ctx.count("sparta")
    ctx.distinct("sparta", hash(data))
    ctx.sample()
