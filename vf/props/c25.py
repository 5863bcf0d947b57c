import contextlib
import hashlib
import io
import os
import zipfile

import numpy as np

import atrcopy
from atrcopy import errors, parsers
from atrcopy.omnivore_loader import identify_mime
from atrcopy.segments import SegmentData

import atarifs
import cli
import corpus
import dos33fs
import session

PID = "C25"
RULE = ("valid images of every kind from independent builders are opened from memory (bytes and arrays), from files with misleading names, "
        "verbosely and through the other detection entry points; near misses (wrong magic, wrong size, wrong length field) and data of no kind "
        "must be refused; known-title signatures and magic numbers are planted; non-trivial: distinct images")
CASES = {"quick": 4000, "thorough": 20000}
REQUIRED = ["kind_" + k for k in corpus.KINDS] + ["unidentified", "unknown", "near_miss", "file", "loader", "array", "verbose", "iter_parsers", "system", "magic", "magic_elsewhere",
                                                 "signature", "signature_miss", "prodos", "dot_names", "mydos"]
ASSUMPTIONS = ["executables, ROMs and binaries whose size is exactly that of a raw Atari disk dump are not made"]

MIME = {"atari": "atari8bit.atr", "sparta": "atari8bit.atr", "kboot": "atari8bit.atr", "boot": "atari8bit.atr", "dos33": "apple2.dsk", "xex": "atari8bit.xex",
        "cart": "atari8bit.cart", "cart5200": "atari5200.cart", "zip": "mame_rom", "bin": "apple2.bin", "rom": "rom", "unidentified": "atari8bit.atr"}
CLASS = dict((k, v[0] if v else None) for k, v in corpus.KINDS.items())
CLASS["unidentified"] = "AtariUnidentifiedSegmentParser"
DISKS = {92160, 133120, 183936, 184320, 143360}
DISKS |= {n + 16 for n in DISKS}
PACKED = (b"\x1f\x8b", b"BZh", b"\xfd7zXZ", b"]\x00\x00", b"\xfa", b"\xf9", b"PK", b"CART", b"\x96\x02", b"\xff\xff")


def plain(data):
    """data that can't be taken for anything else than a binary or ROM"""
    return len(data) not in DISKS and not data.startswith(PACKED)


def is_bin(data):
    return len(data) >= 4 and (data[2] | data[3] << 8) == len(data) - 4


def pow2(n):
    return n & (n - 1) == 0


MAGIC = [("application/vnd.atari8bit.atr.jumpman", {0x810 + 0x3f: 0x4c, 0x810 + 0x48: 0x20, 0x810 + 0x4b: 0x60, 0x810 + 0x4c: 0xff}),
         ("application/vnd.atari8bit.atr.getaway", dict(enumerate([0x00, 0xc1, 0x80, 0x0f, 0xcc, 0x22, 0x18, 0x60, 0x0e], 0x10))),
         ("application/vnd.atari8bit.atr.getaway_pd", {8: 0x82, 9: 0x39, 12: 0x67, 13: 0x21, 14: 0x70, 15: 0x64}),
         ("application/vnd.atari8bit.xex.getaway", None)]


def unknown(rng):
    k = rng.random()
    if k < .15:
        return rng.randbytes(rng.choice([3, 5, 7, 15, 17, 100]))
    if k < .3:
        return b"10 PRINT \"HELLO\"\n20 GOTO 10\n" * rng.randint(1, 300)
    if k < .4:
        return bytes([rng.randrange(255)]) * rng.randint(3, 70000)
    return rng.randbytes(rng.choice([rng.randint(3, 2000), 1000, 4097, 8191, 16400, rng.randint(3, 200000)]))


def near_miss(rng):
    k = rng.choice(["xex", "cart", "bin", "rom", "dsk", "atr", "zip", "xfd"])
    if k == "xex":
        d = corpus.random_xex(rng)[0]
        return k, rng.choice([b"\xfe\xff", b"\xff\xfe", b"\x00"]) + d[2:]
    if k == "cart":
        d = corpus.cart(rng)[0]
        return k, rng.choice([b"CARS" + d[4:], b"cart" + d[4:], d + b"x", d[:-1], d[:4] + (99).to_bytes(4, "big") + d[8:]])
    if k == "bin":
        d = corpus.bsave(rng)[0]
        return k, rng.choice([d + b"\x00", d[:-1], d[:2] + (len(d)).to_bytes(2, "little") + d[4:], d + rng.randbytes(200)])
    if k == "rom":
        d = corpus.rom(rng)
        return k, rng.choice([d + b"\x00", d[:-1], d + d[:1024 * 1] if len(d) > 1024 else d[:-2]])
    if k == "dsk":
        d = session.load("template", "dos33.dsk")
        return k, rng.choice([d[:-256], d + bytes(256), d[:-1]])
    if k == "atr":
        d = session.load("template", "dos2sd.atr")
        return k, rng.choice([b"\x02\x96", b"\x96\x03", b"\x97\x02"]) + d[2:]
    if k == "xfd":
        d = session.load("template", "dos2sd.atr")[16:]
        return k, rng.choice([d[:-128], d + bytes(128), d + b"\x00"])
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as zf:
        zf.writestr("a.rom", rng.randbytes(160))
        zf.writestr("readme.txt", rng.randbytes(16 * rng.randint(0, 9) + rng.randint(1, 15)))
    return k, buf.getvalue()


def refused(ctx, data, what):
    try:
        parser, mime = atrcopy.find_diskimage_from_data(data)
    except errors.UnsupportedDiskImage:
        return
    ctx.fail("accepted", "%s of %d bytes was taken for %s (%s)" % (what, len(data), parser, mime), data=data)


def identified(ctx, kind, data, parser, mime, how):
    want = "application/vnd." + MIME[kind]
    ctx.require(mime == want or mime.startswith(want + "."), "mime", "%s is %s (%s)" % (kind, mime, how))
    cls = CLASS[kind]
    if cls:
        ctx.require(type(parser).__name__ == cls, "kind", "%s opened by %s (%s)" % (kind, type(parser).__name__, how))
    s = parser.segments[0]
    ctx.require(len(s) == len(data) and s.tobytes() == data, "whole", "first segment isn't the whole input (%s)" % how)
    ctx.require(parser.image is not None and len(parser.segments) >= 1, "image", "no image")


def case(ctx, i):
    rng = ctx.rng
    k = rng.random()
    if k < .12:
        data = unknown(rng)
        if pow2(len(data)) or is_bin(data) or not plain(data):
            return
        ctx.log("unknown", data)
        ctx.distinct("unknown", data)
        refused(ctx, rng.choice([data, np.frombuffer(data, dtype=np.uint8).copy()]), "random data")
        ctx.count("unknown")
        path = cli.put(ctx.tmp(rng.choice(["x.atr", "x.xex", "x.car", "x.dsk", "x.zip", "x"])), data)
        try:
            atrcopy.find_diskimage(path)
        except errors.UnsupportedDiskImage:
            pass
        else:
            ctx.fail("accepted", "file %s was accepted" % path)
        with open(path, "rb") as fh, contextlib.redirect_stdout(io.StringIO()):
            ctx.require(identify_mime(fh.read(100), fh) is None, "accepted", "the loader accepts file %s" % path)
        mime, p = atrcopy.iter_parsers(SegmentData(np.frombuffer(data, dtype=np.uint8).copy()))
        ctx.require(p is None, "accepted", "iter_parsers finds %s" % p)
        return
    if k < .24:
        what, data = near_miss(rng)
        if pow2(len(data)) or is_bin(data) or data.startswith(PACKED[:6]):
            return
        ctx.log("near miss", what, data)
        ctx.distinct("near", data)
        refused(ctx, data, "not quite " + what)
        ctx.count("near_miss")
        return
    if k < .3:
        return signature(ctx)
    if k < .36:
        return magic(ctx)
    if k < .38:
        b = bytearray(session.load("template", "dos33.dsk"))
        b[0:4] = bytes([1, 56, 176, 3])
        refused(ctx, bytes(b), "ProDOS disk")
        ctx.count("prodos")
        return
    kind = rng.choice(sorted(CLASS))
    if kind == "unidentified":
        import props.c24 as c24
        data = c24.unidentified(rng)
        ctx.count("unidentified")
    elif kind == "atari" and rng.random() < .15:
        data = session.foreign_atari(rng, mydos=True).build()
        ctx.count("mydos")
        ctx.count("kind_atari")
    else:
        data = corpus.make(rng, kind)[1]
        if kind in ("rom", "bin", "xex") and (not plain(data) and not (kind == "xex" and data[:2] == b"\xff\xff" and len(data) not in DISKS)):
            return
        if kind == "rom" and is_bin(data):
            return
        ctx.count("kind_" + kind)
    ctx.log("open", kind, data)
    ctx.distinct(kind, data)
    parser, mime = atrcopy.find_diskimage_from_data(data)
    identified(ctx, kind, data, parser, mime, "bytes")
    v = corpus.view(parser, mime, contents=False)
    how = rng.random()
    if how < .25:
        a = np.frombuffer(data, dtype=np.uint8).copy()
        p2, m2 = atrcopy.find_diskimage_from_data(a)
        identified(ctx, kind, data, p2, m2, "array")
        ctx.require(a.tobytes() == data, "altered", "recognition altered the data")
        ctx.count("array")
    elif how < .6:
        name = rng.choice(["x.atr", "x.xex", "x.car", "x.dsk", "x.zip", "x.gz", "noext", "a.b.c", ".hidden", "x.ATR", "x.bin", "x.rom", "\u00e9.atr", "x y.dsk"])
        path = cli.put(ctx.tmp(name), data)
        p2, m2 = atrcopy.find_diskimage(path, verbose=False)
        identified(ctx, kind, data, p2, m2, "file " + name)
        ctx.count("file")
        if name.startswith(".") or name.count(".") > 1:
            ctx.count("dot_names")
        ctx.require(cli.get(path) == data, "altered", "recognition altered the file")
        if rng.random() < .5:
            with open(path, "rb") as fh, contextlib.redirect_stdout(io.StringIO()):
                found = identify_mime(fh.read(100), fh)
            ctx.require(found is not None and found["mime"] == m2, "loader", "%s: the loader says %s" % (kind, found))
            identified(ctx, kind, data, found["atrcopy_parser"], found["mime"], "loader")
            ctx.count("loader")
    elif how < .7:
        with contextlib.redirect_stdout(io.StringIO()):
            p2, m2 = atrcopy.find_diskimage_from_data(data, verbose=True)
        ctx.count("verbose")
    elif how < .85:
        r = SegmentData(np.frombuffer(data, dtype=np.uint8).copy())
        m2, p2 = atrcopy.iter_parsers(r)
        identified(ctx, kind, data, p2, m2, "iter_parsers")
        ctx.count("iter_parsers")
    else:
        r = SegmentData(np.frombuffer(data, dtype=np.uint8).copy())
        full = "application/vnd." + MIME[kind]
        m2, p2 = parsers.guess_parser_for_system(rng.choice([full, full.rsplit(".", 1)[0]]), r)
        identified(ctx, kind, data, p2, m2, "system")
        ctx.count("system")
        other = rng.choice([m for m in MIME.values() if m.split(".")[0] != MIME[kind].split(".")[0]])
        if other != "rom" or not pow2(len(data)):
            if not (other == "apple2.bin" and is_bin(data)) and kind != "rom":
                m3, p3 = parsers.guess_parser_for_system("application/vnd." + other, r)
                ctx.require(p3 is None, "system", "%s accepted as %s" % (kind, m3))
    v2 = corpus.view(p2, m2, contents=False)
    ctx.require(v == v2, "differs", "two ways of opening differ: %s" % [x for x in v if v[x] != v2[x]])
    ctx.sample()


def signature(ctx):
    """a title in the signature database is recognised, its neighbours aren't"""
    rng = ctx.rng
    db = parsers.sha1_signatures
    mime, cls, size = rng.choice([("application/vnd.atari2600.cart", "Atari2600CartParser", rng.choice([2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144])),
                                  ("application/vnd.vectrex", "VectrexParser", rng.choice([4096, 8192, 2048, rng.randint(90, 32768)])),
                                  ("application/vnd.atari2600.starpath", "Atari2600StarpathParser", 8448)])
    data = rng.randbytes(size)
    if not plain(data):
        return
    key = hashlib.sha1(data).digest()
    had = size in db
    db.setdefault(size, {})[key] = (mime, "Test Title")
    try:
        parser, m = atrcopy.find_diskimage_from_data(data)
        ctx.log("signature", mime, data)
        ctx.require(m == mime and type(parser).__name__ == cls, "signature", "%s recognised as %s, %s" % (mime, m, parser))
        ctx.require(parser.segments[0].tobytes() == data, "whole", "first segment isn't the whole input")
        ctx.count("signature")
        other = bytearray(data)
        other[rng.randrange(size)] ^= 1 << rng.randrange(8)
        try:
            p2, m2 = atrcopy.find_diskimage_from_data(bytes(other))
        except errors.UnsupportedDiskImage:
            ctx.require(not pow2(size), "signature", "a ROM was refused")
        else:
            ctx.require(m2 != mime, "signature", "different data recognised by signature")
        ctx.count("signature_miss")
    finally:
        del db[size][key]
        if not had:
            del db[size]


def magic(ctx):
    rng = ctx.rng
    mime, bits = rng.choice(MAGIC)
    if bits is None:
        body = bytes([0x80, 0x2a, 0xff, 0x8a]) + rng.randbytes(0x8aff - 0x2a80 + 1)
        good = b"\xff\xff" + body
        spoil = 5
        base = "application/vnd.atari8bit.xex"
        bad = b"\xff\xff" + bytes([0x80, 0x2a, 0xff, 0x8b]) + rng.randbytes(0x8bff - 0x2a80 + 1)
    else:
        good = bytearray(session.load("template", "dos2sd.atr"))
        for p, x in bits.items():
            good[p] = x
        bad = bytearray(good)
        bad[rng.choice(sorted(bits))] ^= 0x41
        base = "application/vnd.atari8bit.atr"
    ctx.log("magic", mime)
    if bits is not None and min(bits) < 0x100:
        # the same bytes in a file of another kind mean nothing
        kind = rng.choice(["xex", "rom", "cart"])
        other = bytearray({"xex": lambda: b"\xff\xff\x00\x20\xff\x21" + rng.randbytes(512), "rom": lambda: rng.randbytes(8192),
                           "cart": lambda: corpus.cart(rng)[0]}[kind]())
        if kind == "xex" and min(bits) >= 6 or kind == "rom" or kind == "cart" and min(bits) >= 16:
            for q, x in bits.items():
                other[q] = x
            if kind != "rom" or plain(bytes(other)) and not is_bin(other):
                p, m = atrcopy.find_diskimage_from_data(bytes(other))
                ctx.require("atr" not in m.split("."), "magic", "%s with the bytes of %s recognised as %s" % (kind, mime, m))
                ctx.count("magic_elsewhere")
    p, m = atrcopy.find_diskimage_from_data(bytes(good))
    ctx.require(m == mime, "magic", "recognised as %s, not %s" % (m, mime))
    p, m = atrcopy.find_diskimage_from_data(bytes(bad))
    ctx.require(m == base, "magic", "near miss of %s recognised as %s" % (mime, m))
    m, p = atrcopy.iter_parsers(SegmentData(np.frombuffer(bytes(good), dtype=np.uint8).copy()))
    ctx.require(m == mime, "magic", "iter_parsers: recognised as %s, not %s" % (m, mime))
    ctx.count("magic")
