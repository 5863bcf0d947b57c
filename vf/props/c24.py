import atrcopy
from atrcopy import errors

import atarifs
import corpus
import dos33fs

PID = "C24"
RULE = ("valid and unidentified images of every size and density, with and without header, are opened; every sector number is asked for its "
        "position, random ranges are read, numbers outside the disk are tried, and labels of random and boundary bytes of each sector view are "
        "compared with positions computed from the format documents; images are converted to ATR and the header is re-encoded; non-trivial: "
        "distinct (image size, sector range or label)")
CASES = {"quick": 1500, "thorough": 6000}
REQUIRED = ["sectors", "ranges", "rejected", "labels", "label_boot", "label_vtoc", "label_directory", "apple", "double", "double_full", "headerless",
            "unidentified", "other_size_128", "other_size_256", "other_size_512", "boot_segments", "converted", "converted_other_size", "header_encoded", "written"]
ASSUMPTIONS = ["an image of a standard size has the standard sector size"]


def layout(data):
    """[(sector, position, size)] from the format documents"""
    if len(data) == dos33fs.SIZE:
        return [(n, n * 256, 256) for n in range(560)]
    hdr = 16 if data[:2] == b"\x96\x02" else 0
    size = len(data) - hdr
    sec, bootsize, nboot = atarifs.GEOMETRY.get(size, (0, 0, 0))
    if not sec:
        sec = data[4] | data[5] << 8 if hdr else 128
        # double density disks have 128-byte boot sectors, unless dumped in full
        bootsize, nboot = (128, 3) if sec == 256 and size % 256 == 128 else (sec, 3)
    out = []
    pos = 0
    n = 1
    while True:
        k = bootsize if n <= nboot else sec
        if pos + k > size:
            return out
        out.append((n, hdr + pos, k))
        pos += k
        n += 1


def unidentified(rng):
    sec = 128
    size = rng.choice([92160, 133120, 183936, 184320, None, None])
    if size is None:
        sec = rng.choice([128, 256, 256, 512])
        n = rng.choice([720, 1040, 1440, rng.randint(8, 2000)])
        if rng.random() < .15:
            # around and above 64K paragraphs
            n = rng.choice([8191, 8192, 8193, rng.randint(8192, 20000)]) * 128 // sec
        size = sec * n - (384 if sec == 256 and rng.random() < .7 else 0)
    if size in atarifs.GEOMETRY:
        sec = atarifs.GEOMETRY[size][0]
    b = bytearray(rng.randbytes(size))
    if rng.random() < .2:
        # an executable written to the start of a disk; not a boot record
        b[0:4] = b"\xff\xff" + rng.choice([b"\x00\x06", b"\x00\x20", bytes(2), rng.randbytes(2)])
    else:
        b[1] = 0
        b[2:4] = b"\xff\xff"
    for p in (359 * 128, 384 + 356 * 256, 359 * 256, 359 * 512):
        if p < size:
            b[p] = 200
    return atarifs.atr_header(size, sec) + bytes(b)


def name_of(apple, n, off, lower=True):
    h = "%02x" % off if lower else "%02X" % off
    return "t%02ds%02d:%s" % (n // 16, n % 16, h) if apple else "s%03d:%s" % (n, h)


def case(ctx, i):
    rng = ctx.rng
    kind = rng.choice(["atari", "atari", "atari", "dos33", "dos33", "boot", "sparta", "kboot", "unidentified", "unidentified"])
    if kind == "unidentified":
        data = unidentified(rng)
    else:
        data = corpus.make(rng, kind)[1]
    if data[:2] == b"\x96\x02" and rng.random() < .5:
        data = data[:7] + rng.randbytes(9) + data[16:]
    if kind in ("atari", "boot") and rng.random() < .3 and data[:2] == b"\x96\x02" and len(data) - 16 in atarifs.GEOMETRY:
        data = data[16:]
    ctx.log("open", kind, len(data), data)
    parser, mime = atrcopy.find_diskimage_from_data(data)
    image = parser.image
    head = image.header
    apple = kind == "dos33"
    lay = layout(data)
    where = {n: (p, s) for n, p, s in lay}
    first, last = lay[0][0], lay[-1][0]
    ctx.count({"unidentified": "unidentified"}.get(kind, "identified"))
    if apple:
        ctx.count("apple")
    elif data[:2] != b"\x96\x02":
        ctx.count("headerless")
    size = len(data) - (16 if data[:2] == b"\x96\x02" else 0)
    if not apple and size in (183936, 184320):
        ctx.count("double" if size == 183936 else "double_full")
    if data[:2] == b"\x96\x02" and size not in atarifs.GEOMETRY:
        ctx.count("other_size_%d" % lay[-1][2])
    # positions
    got = [(int(n), int(p), int(s)) for n, p, s in head.iter_sectors()]
    ctx.require(got == lay, "tiling", "%d sectors, expected %d; first difference %s" % (
        len(got), len(lay), next(((a, b) for a, b in zip(got, lay) if a != b), None)))
    for n, p, s in lay:
        ctx.require(tuple(map(int, head.get_pos(n))) == (p, s), "position", "sector %d at %s, not %s" % (n, head.get_pos(n), (p, s)))
    ctx.count("sectors", len(lay))
    for n in [first - 1, last + 1, last + 2, -1, -5, 65535, 99999, last + rng.randint(1, 3000)]:
        ctx.require(not head.sector_is_valid(n), "bounds", "sector %d of %d-%d is said to be valid" % (n, first, last))
        for what, f in (("get_pos", lambda: head.get_pos(n)), ("get_sectors", lambda: image.get_sectors(n)), ("get_raw_bytes", lambda: image.get_raw_bytes(n)),
                        ("slice to it", lambda: image.get_sector_slice(last - 1, n) if n > last else image.get_sector_slice(n, first + 1)),
                        ("contiguous", lambda: image.get_contiguous_sectors(last - 1, n - last + 2) if n > last else image.get_contiguous_sectors(n, 3))):
            try:
                r = f()
            except errors.ByteNotInFile166:
                ctx.count("rejected")
                continue
            ctx.fail("bounds", "%s accepts sector %d of a disk with sectors %d-%d" % (what, n, first, last))
    # contents
    for j in range(12):
        a = rng.choice([first, last, rng.randint(first, last), rng.randint(first, min(last, first + 5))])
        b = rng.choice([a, last, rng.randint(a, last), min(last, a + rng.randint(0, 4))])
        want = b"".join(data[where[n][0]:where[n][0] + where[n][1]] for n in range(a, b + 1))
        ctx.log("range", a, b)
        ctx.distinct(len(data), a, b)
        got, style = image.get_sectors(a, b)
        ctx.require(got.tobytes() == want and len(style) == len(want), "range", "sectors %d-%d: wrong bytes" % (a, b))
        s = image.get_sector_slice(a, b)
        ctx.require(data[s] == want, "range", "slice of sectors %d-%d is %s" % (a, b, s))
        start, count = image.get_contiguous_sectors(a, b - a + 1)
        ctx.require(data[start:start + count] == want, "range", "contiguous sectors %d-%d: %d, %d" % (a, b, start, count))
        raw, pos, n = image.get_raw_bytes(a)
        ctx.require((int(pos), int(n)) == where[a] and raw.tobytes() == data[pos:pos + n], "range", "raw bytes of sector %d" % a)
        one, _ = image.get_sectors(a)
        ctx.require(one.tobytes() == data[pos:pos + n], "range", "sector %d alone" % a)
        ctx.count("ranges")
        if apple:
            t, s = divmod(a, 16)
            ctx.require(head.sector_from_track(t, s) == a and tuple(head.track_from_sector(a)) == (t, s), "track", "track and sector of %d" % a)
    # sector views
    views = [s for s in parser.segments if isinstance(s, atrcopy.RawSectorsSegment)]
    starts = [p for n, p, s in lay]
    import bisect

    def locate(pos):
        k = bisect.bisect_right(starts, pos) - 1
        n, p, s = lay[k]
        return (n, pos - p) if pos - p < s else None

    raws = [s for s in views if s.name == "Raw disk sectors"]
    ctx.require(len(raws) == 1, "views", "%d views of all sectors" % len(raws))
    expect = {"Raw disk sectors": (first, last)}
    if kind == "atari":
        expect.update({"VTOC": (360, 360), "Directory": (361, 368)})
        if size == 133120:
            expect["VTOC2"] = (1024, 1024)
    elif apple:
        expect.update({"VTOC": (272, 272)})
    elif kind == "sparta":
        nb = -(-(last + 1) // (8 * lay[-1][2]))
        a = 2 if lay[0][2] == 512 else 4
        expect.update({"Bitmap": (a, a + nb - 1)})
    ctx.require(sorted(s.name for s in views) == sorted(expect), "views", "sector views are %s" % [s.name for s in views])
    for v in views:
        a, b = expect[v.name]
        p0 = where[a][0]
        p1 = sum(where[b]) if v is not raws[0] else len(data)
        ctx.require(len(v) == p1 - p0 and v.tobytes() == data[p0:p1], "view", "%s holds %d bytes, not sectors %d-%d" % (v.name, len(v), a, b))
        ctx.require((v.first_sector, v.num_sectors) == (a, b - a + 1), "view", "%s says sectors %s+%s" % (v.name, v.first_sector, v.num_sectors))
        text = "(sectors %d-%d)" % (a, b) if b > a else "(sector %d)" % a
        ctx.require(text in str(v) and text in v.verbose_info, "view", "%s described as %r" % (v.name, str(v)))
        n = len(v)
        idx = set([0, 1, 127, 128, 255, 256, 383, 384, 385, 511, 512, 640, 768, n - 1, n - 2] + [rng.randrange(n) for _ in range(60)])
        for k in sorted(x for x in idx if 0 <= x < n):
            at = locate(p0 + k)
            if at is None:
                continue
            for lower in (True, False):
                want = name_of(apple, at[0], at[1], lower)
                ctx.require(v.label(k, lower) == want, "label", "%s byte %d is labelled %s, is %s" % (v.name, k, v.label(k, lower), want))
            ctx.require(v.label(k) == name_of(apple, *at), "label", "%s byte %d" % (v.name, k))
            ctx.count("labels")
            ctx.distinct("label", len(data), at)
            if v is raws[0] and k < 384:
                ctx.count("label_boot")
            elif v.name.startswith("VTOC"):
                ctx.count("label_vtoc")
            elif v.name == "Directory":
                ctx.count("label_directory")
    # boot sectors
    seg = {s.name: s for s in parser.segments}
    if kind == "boot":
        base = lay[0][1]
        n = data[base + 1]
        addr = data[base + 2] | data[base + 3] << 8
        body = data[base:sum(where[n])]
        for nm, off, want in (("Boot Sectors", 0, body), ("Boot Header", 0, body[:6]), ("Boot Code", 6, body[6:])):
            s = seg[nm]
            ctx.require(s.origin == addr + off and s.tobytes() == want, "boot", "%s at %x, %d bytes" % (nm, s.origin, len(s)))
        ctx.count("boot_segments")
    elif apple:
        for nm, addr, a, b in (("Boot 1", 0x800, 0, 0), ("Boot 2", 0x3700, 1, 9), ("Relocator", 0x1b00, 10, 11), ("Boot 3", 0x1d00, 12, 37)):
            s = seg[nm]
            ctx.require(s.origin == addr and s.tobytes() == data[a * 256:b * 256 + 256], "boot", "%s at %x, %d bytes" % (nm, s.origin, len(s)))
        ctx.count("boot_segments")
    # writing to a sector reaches the image
    n = rng.randint(first, last)
    p, s = where[n]
    new = rng.randbytes(s)
    keep = image.bytes.tobytes()
    image.get_sectors(n)[0][:] = list(new)
    after = image.bytes.tobytes()
    ctx.require(after == keep[:p] + new + keep[p + s:], "write", "writing sector %d changed the wrong bytes" % n)
    image.get_sectors(n)[0][:] = list(keep[p:p + s])
    ctx.count("written")
    # header
    if data[:2] == b"\x96\x02":
        ctx.require(head.to_array().tobytes() == data[:16], "header", "header encoded as %s, was %s" % (head.to_array().tobytes().hex(), data[:16].hex()))
        ctx.count("header_encoded")
    if kind in ("atari", "boot", "sparta", "unidentified"):
        new = image.as_new_format("ATR")
        b = new.bytes.tobytes()
        hdr = 16 if data[:2] == b"\x96\x02" else 0
        ctx.require(b[16:] == data[hdr:], "convert", "conversion to ATR changed the data")
        ctx.require(b[:7] == atarifs.atr_header(size, lay[-1][2])[:7], "convert", "header %s" % b[:16].hex())
        ctx.require(image.bytes.tobytes() == data, "convert", "conversion changed the original")
        ctx.require([str(d) for d in new.files] == [str(d) for d in image.files], "convert", "conversion changed the files")
        ctx.require([(int(x), int(y), int(z)) for x, y, z in new.header.iter_sectors()] == layout(b), "convert", "sectors of the converted image")
        again, mime2 = atrcopy.find_diskimage_from_data(b)
        ctx.require(type(again) is type(parser) and [str(d) for d in again.image.files] == [str(d) for d in image.files], "convert",
                    "converted image opens as %s" % again)
        ctx.count("converted")
        ctx.count("converted_other_size", size not in atarifs.GEOMETRY)
    ctx.sample()
