import zlib

import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.segments import SegmentData
from atrcopy.spartados import SpartaDosDiskImage

import cli
import session
import spartafs

PID = "C27"
RULE = ("SpartaDOS disks are built byte by byte by an independent implementation (all densities and sizes, random or sequential placement, chained "
        "and completely filled sector maps, large directories, locked files, subdirectories, junk in unused sectors); listing, contents, checksums, "
        "boot, bitmap and directory segments are compared with what was put on the disk; further cases damage one file's sector map; non-trivial: "
        "distinct disks")
CASES = {"quick": 300, "thorough": 6000}
REQUIRED = ["files_compared", "empty_files", "full_maps", "chained_maps", "locked", "subdirs", "sd", "ed", "dd", "quad128", "quad256", "quad512", "deleted_entries", "above_8m", "damaged_end", "headerless", "big_directory", "boot", "bitmap",
            "crc", "damaged", "written_through", "above_64k"]
ASSUMPTIONS = ["disks of a standard size have the standard sector size", "no sparse files (reading one is reported as an error)"]


def build(rng, big):
    size = rng.choice([92160, 92160, 133120, 183936, 183936, None, None])
    if big:
        # the largest disks
        sec = rng.choice([128, 256, 512]) if big > 1 else 256
        most = 65530 if sec < 256 or big < 2 else 20000
        b = spartafs.Builder(rng, sectors=rng.choice([most, rng.randint(most // 2, most)]) if big > 1 else most, sec=sec)
        n = rng.choice([1 << 20, rng.randint(1 << 20, 5 << 19)]) if big > 1 else (8 << 20) + rng.randint(0, 1000)
        b.order = "first"
        b.add("BIG.DAT", rng.randbytes(min(n, b.sec * (len(b.free) - 2000))))
    elif size:
        b = spartafs.Builder(rng, size, header=rng.random() < .8)
    else:
        sec = rng.choice([128, 256, 256, 512])
        n = rng.choice([1440, 721, rng.randint(400, 4000)])
        if sec == 128 and n in (720, 1040, 1437, 1440) or sec == 256 and n == 720 or sec == 512 and n == 360:
            n += 1
        b = spartafs.Builder(rng, sectors=n, sec=sec)
    b.order = rng.choice(["random", "first"])
    per = (b.sec - 4) // 2
    n = rng.choice([0, 1, 2, 5, 12, 40, 80]) if not big else 2
    left = min(4000, len(b.free)) - 30 - n
    names = set()
    for j in range(n):
        name = session.atari_name(rng)
        if name in names:
            continue
        names.add(name)
        k = rng.random()
        room = max(0, min(left, left // max(1, n - j) * 2) - 4)
        if k < .08:
            nb = 0
        elif k < .2:
            nb = b.sec * rng.randint(0, room)
        elif k < .35:
            nb = per * b.sec + rng.choice([-1, 0, 1, 0])
        elif k < .42:
            nb = per * b.sec * rng.randint(1, 4)
        elif k < .5:
            nb = room * b.sec
        else:
            nb = rng.randint(1, max(1, min(room, 40) * b.sec))
        need = -(-nb // b.sec)
        if need + need // per + 2 > left:
            continue
        before = len(b.free)
        status = rng.choice([0x08, 0x08, 0x09])
        content = session.content(rng, nb)
        if rng.random() < .1:
            status = 0x28
            content = bytes([0x28]) + bytes(2) + (23).to_bytes(3, "little") + name.split(".")[0].encode("latin1").ljust(8) + b"   " + bytes(6)
            name = name.split(".")[0]
            if name in names and "." in name:
                continue
        if rng.random() < .15:
            b.delete(name, content)
            if rng.random() < .7:
                continue
        if b.add(name, content, status):
            left -= before - len(b.free)
    return b


def case(ctx, i):
    rng = ctx.rng
    big = (1 if i % 300 == 72 else 2) if i % 75 == 72 else 0
    b = build(rng, big)
    data = b.build()
    ctx.log("disk", b.size, b.sec, [(n, len(c), st) for _, n, c, st in b.files][:12])
    ctx.distinct(hash(data))
    ctx.count({92160: "sd", 133120: "ed", 183936: "dd"}.get(b.size, "quad%d" % b.sec))
    ctx.count("deleted_entries", len(b.entries) - len(b.files))
    if not b.header:
        ctx.count("headerless")
    if len(b.files) > 30:
        ctx.count("big_directory")
    per = (b.sec - 4) // 2
    bad = None
    if i % 5 == 4 and b.files:
        bad = rng.choice(b.files)
        data = damage(ctx, b, data, bad)
    if big == 1:
        # making segments of a file of 8 MB takes minutes and gigabytes
        listing(ctx, b, SpartaDosDiskImage(SegmentData(np.frombuffer(data, dtype=np.uint8).copy())))
        return
    if rng.random() < .5:
        parser, mime = atrcopy.find_diskimage_from_data(data)
    else:
        parser, mime = atrcopy.find_diskimage(cli.put(ctx.tmp("x.atr"), data))
    ctx.require(type(parser).__name__ == "SpartaDosSegmentParser", "kind", "opened by %s" % type(parser).__name__)
    image = parser.image
    listed = list(image.files)
    ctx.require(len(listed) == len(b.files), "listing", "%d files listed, disk has %d" % (len(listed), len(b.files)))
    names = [n for _, n, _, _ in b.files]
    for d, f in zip(listed, b.files):
        num, name, content, st = f
        ctx.require(d.filename == name, "name", "listed as %r, is %r" % (d.filename, name))
        ctx.require((bool(d.locked), bool(d.is_dir), bool(d.in_use), bool(d.deleted)) == (bool(st & 1), bool(st & 0x20), True, False), "flags",
                    "%r: %s" % (name, d))
        ctx.require(int(d.length) == len(content), "length", "%r: %d bytes shown, has %d" % (name, d.length, len(content)))
        line = str(d)
        ctx.require(line.startswith("File #%-2d " % num) and " %8d " % len(content) in line, "line", "%r for %r" % (line, name))
        if st & 0x20:
            ctx.count("subdirs")
        if st & 1:
            ctx.count("locked")
        if bad is not None and f is bad:
            try:
                got = image.get_file(d)
            except errors.AtrError:
                ctx.count("damaged")
            else:
                ctx.fail("unreported", "%r with a damaged sector map reads as %d bytes" % (name, len(got)))
            continue
        got = image.get_file(d)
        ctx.require(got == content, "content", "%r reads wrong: %d bytes, has %d" % (name, len(got), len(content)), read=got, disk=content)
        if names.count(name) == 1:
            ctx.require(image.find_file(name) == content, "content", "find_file(%r)" % name)
        ctx.count("files_compared")
        n = -(-len(content) // b.sec)
        if not content:
            ctx.count("empty_files")
        elif n % per == 0:
            ctx.count("full_maps")
        if n > per:
            ctx.count("chained_maps")
        if len(content) > 65535:
            ctx.count("above_64k")
        ctx.count("above_8m", len(content) >= 1 << 23)
    if bad is None:
        segments(ctx, b, data, parser)
        if rng.random() < .3 and b.files:
            d = ctx.tmp()
            cli.put(d + "/x.atr", data)
            r = cli.run(["x.atr", "crc"], d)
            ctx.require(r.exc is None, "crc", "crc failed: %r" % (r.exc,))
            want = ["%s: %08x" % (n, zlib.crc32(c) & 0xffffffff) for _, n, c, st in b.files]
            ctx.require(r.out.split("\n")[:-1] == want, "crc", "crc prints %s" % r.out[:200])
            ctx.count("crc")
        # a file's segment is a window on its sectors
        full = [(d, f) for d, f in zip(listed, b.files) if f[2]]
        if full:
            d, f = rng.choice(full)
            s = image.get_file_segment(d)
            k = rng.randrange(len(f[2]))
            keep = image.bytes.tobytes()
            s[k] ^= 0x5a
            after = image.bytes.tobytes()
            diff = [p for p in range(len(keep)) if keep[p] != after[p]] if keep != after else []
            where = b.where[f[0]][k // b.sec]
            p = b.pos(where)[0] + (16 if b.header else 0) + k % b.sec
            ctx.require(diff == [p], "window", "writing byte %d of %r changes %s, not %d" % (k, f[1], diff[:4], p))
            ctx.count("written_through")
    ctx.sample()


def listing(ctx, b, image):
    ctx.require(len(image.files) == len(b.files), "listing", "%d files listed, disk has %d" % (len(image.files), len(b.files)))
    for d, (num, name, content, st) in zip(image.files, b.files):
        ctx.require(d.filename == name and int(d.length) == len(content) and " %8d " % len(content) in str(d), "length",
                    "%r with %d bytes listed as %s" % (name, len(content), d))
        if len(content) < 1 << 20:
            ctx.require(image.get_file(d) == content, "content", "%r reads wrong" % name)
        else:
            ctx.count("above_8m", len(content) >= 1 << 23)


def damage(ctx, b, data, f):
    rng = ctx.rng
    hdr = 16 if b.header else 0
    m = b.maps[f[0]][0]
    p = hdr + b.pos(m)[0]
    data = bytearray(data)
    k = rng.random()
    if k < .25 and b.where[f[0]]:
        # ends early
        n = min(len(b.where[f[0]]), (b.sec - 4) // 2)
        q = p + 4 + 2 * rng.choice([n - 1, rng.randrange(n)])
        data[q:q + 2] = bytes(2)
        ctx.log("damage", f[1], "map ends early")
        ctx.count("damaged_end")
    elif k < .6 or not b.where[f[0]]:
        # loop or leave the disk
        data[p:p + 2] = min(65535, rng.choice([m, b.nsec + rng.randint(1, 5), 65535])).to_bytes(2, "little")
        ctx.log("damage", f[1], "map link")
    else:
        n = min(len(b.where[f[0]]), (b.sec - 4) // 2)
        q = p + 4 + 2 * rng.randrange(n)
        data[q:q + 2] = min(65535, b.nsec + rng.randint(1, 1000)).to_bytes(2, "little")
        ctx.log("damage", f[1], "map entry")
    return bytes(data)


def segments(ctx, b, data, parser):
    seg = {}
    for s in parser.segments:
        seg.setdefault(s.name, s)
    hdr = 16 if b.header else 0
    nb = sum(b.pos(b.nboot))
    boot = data[hdr:hdr + nb]
    for name, off, want in (("Boot Header", 0, boot[:43]), ("Boot Sectors", 0, boot), ("Boot Code", 43, boot[43:])):
        s = seg.get(name)
        ctx.require(s is not None and s.origin == 0x3000 + off and s.tobytes() == want, "boot", "%s: %s" % (name, s))
    ctx.count("boot")
    s = seg.get("Bitmap")
    p0 = hdr + b.pos(b.bitmap)[0]
    p1 = hdr + sum(b.pos(b.bitmap + b.nbitmap - 1))
    ctx.require(s is not None and s.tobytes() == data[p0:p1], "bitmap", "bitmap segment %s" % s)
    ctx.require(s.label(0) == "s%03d:00" % b.bitmap and s.label(len(s) - 1) == "s%03d:%02x" % (b.bitmap + b.nbitmap - 1, b.sec - 1), "bitmap", "labels %s" % s.label(len(s) - 1))
    ctx.count("bitmap")
    s = seg.get("MAIN")
    ctx.require(s is not None and s.tobytes() == b.rootdata, "directory", "directory segment %s" % s)
