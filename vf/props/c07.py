import os

import atrcopy
from atrcopy import errors

import cli
import session
from atarifs import FsError
from props.c04 import damage
from session import open_bytes, image_bytes

PID = "C07"
RULE = ("disks are built byte by byte by an independent implementation of the native formats (random fragmentation, partially "
        "filled sectors, deleted/locked/reused entries, MyDOS style links, sparse and multi-list DOS 3.3 files, junk in unused "
        "sectors), opened from memory and from a file, and everything listed or read is compared with what was put on the disk; "
        "further cases damage one file's chain; sample and template disks are compared with an independent reader; "
        "non-trivial: distinct disk images read")
CASES = {"quick": 1200, "thorough": 6000}
REQUIRED = ["files_compared", "damaged_files_judged", "locked_files", "deleted_entries", "disks_with_full_directory", "sample_disks"]
ASSUMPTIONS = ["Atari: entries up to the first never-used one, flags $40-$66; DOS 3.3: standard 35x16 volumes"]


def compare(ctx, image, fs, truth, dos33):
    """truth: (name or None, contents, locked, sectors, type) in directory order"""
    files = image.files
    ctx.require(len(files) == len(truth), "listing", "%d files listed, disk has %d" % (len(files), len(truth)),
                listed=[f.filename for f in files][:20], disk=[t[0] for t in truth][:20])
    names = [t[0] for t in truth]
    for d, (name, content, locked, nsec, typ) in zip(files, truth):
        ctx.count("files_compared")
        if name is not None:
            ctx.require(d.filename == name, "name", "listed as %r, is %r" % (d.filename, name))
        ctx.require(bool(d.locked) == locked, "locked", "%r: lock flag shown as %s" % (name, d.locked))
        ctx.require(int(d.num_sectors) == nsec, "size", "%r: shown with %d sectors, has %d" % (name, d.num_sectors, nsec))
        if dos33:
            ctx.require(d.file_type == typ, "type", "%r: shown as type %r, is %r" % (name, d.file_type, typ))
        got = image.get_file(d)
        ctx.require(got == content, "content", "%r reads wrong: %d bytes, has %d" % (name, len(got), len(content)), read=got, disk=content)
        if name is not None and names.count(name) == 1 and [f.filename for f in files].count(name) == 1:
            ctx.require(image.find_file(name) == content, "content", "find_file(%r) reads wrong" % name)
        if locked:
            ctx.count("locked_files")


def truth_from_builder(b, dos33):
    import dos33fs
    out = []
    for f in sorted(b.files, key=lambda f: f[0]):
        if dos33:
            raw = f[1]
            name = None if any(c < 0x80 for c in raw) else bytes(c & 0x7f for c in raw).decode("ascii").rstrip(" ")
            out.append((name, f[2], bool(f[3] & 0x80), len(f[4]) + len(f[5]), dos33fs.TYPES[f[3] & 0x7f]))
        else:
            out.append((f[1], f[2], bool(f[3] & 0x20), len(f[4]), None))
    return out


def opened(ctx, data, ext):
    """from memory or from a file"""
    if ctx.rng.random() < .6:
        return open_bytes(data)
    path = cli.put(ctx.tmp("x" + ext), data)
    return atrcopy.find_diskimage(path)[0]


def case(ctx, i):
    rng = ctx.rng
    if i % 5 == 4:
        return damaged(ctx)
    dos33 = i % 5 == 3 or i % 5 == 1 and rng.random() < .5
    if dos33:
        b = session.foreign_dos33(rng)
    else:
        b = session.foreign_atari(rng, mydos=rng.random() < .3)
    data = b.build()
    truth = truth_from_builder(b, dos33)
    ctx.log("built", "dos33" if dos33 else "atari %d" % b.size, "%d files" % len(b.files), data)
    parser = opened(ctx, data, ".dsk" if dos33 else ".atr")
    compare(ctx, parser.image, None, truth, dos33)
    dead = sum(1 for s in b.slots if s is not None and (s[0] == 0xff if dos33 else s[0] == 0x80))
    ctx.count("deleted_entries", dead)
    if not dos33 and any(s is not None and s[0] == 3 for s in b.slots):
        ctx.count("disks_with_unclosed_files")
    if None not in b.slots:
        ctx.count("disks_with_full_directory")
    ctx.count("disks")
    ctx.distinct(hash(data))
    ctx.sample()


def damaged(ctx):
    rng = ctx.rng
    for _ in range(2):
        x = damage(ctx)
        if x is None:
            continue
        data, old, bad, what, others = x
        ctx.log("damaged", old.kind, what, bad.name)
        parser = opened(ctx, data, ".dsk" if old.kind == "dos33" else ".atr")
        image = parser.image
        ctx.require([d.filename for d in image.files] == [e.name for e in old.files], "listing",
                    "%s in %r changes the listing" % (what, bad.name), listed=[d.filename for d in image.files], disk=[e.name for e in old.files])
        for d, e in zip(image.files, old.files):
            if e.num == bad.num:
                exc = None
                try:
                    got = image.get_file(d)
                except Exception as q:
                    exc = q
                ctx.count("damaged_files_judged")
                ctx.require(exc is not None, "unreported", "reading %r with a damaged chain (%s) gives %s bytes and no error" % (
                    e.name, what, len(got) if exc is None else 0))
                ctx.require(isinstance(exc, errors.AtrError), "error", "reading %r with a damaged chain (%s): %r" % (e.name, what, exc))
            else:
                ctx.require(image.get_file(d) == old.content(e), "content", "%r can't be read because %r has a damaged chain (%s)" % (e.name, bad.name, what))
                ctx.count("files_compared")
        ctx.distinct("damaged", hash(data))
    ctx.sample()


def scenarios(ctx):
    """disks written by real DOSes"""
    import dos33fs
    for kind, names in (("template", session.TEMPLATES), ("sample", session.SAMPLES)):
        for name in names:
            data = session.load(kind, name)
            fs = dos33fs.open_fs(data)
            truth = [(e.name, fs.content(e), e.locked, e.count, getattr(e, "type", None)) for e in fs.files]
            ctx.log(kind, name)
            compare(ctx, open_bytes(data).image, fs, truth, fs.kind == "dos33")
            ctx.count("sample_disks")
            ctx.distinct(hash(data))


def known(ctx):
    # DOS 2.5 marks files that use sectors 720 and up with flag $03
    import random
    import atarifs
    b = atarifs.Builder(random.Random(1), 133120, True)
    b.add("LOW.TXT", b"low" * 50)
    b.free = [900, 901, 902]
    b.add("HIGH.TXT", b"high" * 60, flag=0x03)
    b.free = []
    names = [d.filename for d in open_bytes(b.build()).image.files]
    ctx.known("dos25-extended-files", "HIGH.TXT" not in names,
              "DOS 2.5 file using sectors above 719 (flag $03) isn't listed")
