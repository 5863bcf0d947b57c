import io
import zipfile

import numpy as np

import atrcopy
from atrcopy import errors, parsers
from atrcopy.segments import SegmentData

import corpus
import session

PID = "C21"
RULE = ("every cartridge type up to 2 MB with random contents, with a header (detected and parsed directly) and forced on raw data, sizes one byte, "
        "one page or one bank off, headers of unknown or other types; ROMs of every power of two and sizes near it; ROM zip files with any "
        "number, order and compression of members; segments are compared with an independent table of the cartridge types; "
        "non-trivial: distinct (type, form, contents)")
CASES = {"quick": 12000, "thorough": 30000}
REQUIRED = ["with_header", "forced", "detected", "banked", "wrong_size_rejected", "unknown_type_rejected", "mismatch_rejected", "emulator_image",
            "rom", "rom_rejected", "zip", "zip_same_name", "zip_large_rom", "zip_rejected", "written", "all_types"]
ASSUMPTIONS = ["cartridges above 2 MB aren't made; types without a documented map in the program are one segment at 0",
               "the checksum field of a header isn't judged"]

# type: (KB of fixed bank, its offset in KB, address, KB per bank, address of the banks); after the cartridge documentation of atari800
XEGS = {12: 32, 13: 64, 67: 64, 14: 128, 23: 256, 24: 512, 25: 1024, 33: 32, 34: 64, 35: 128, 36: 256, 37: 512, 38: 1024}
MAP = {57: (2, 0, 0xb800), 58: (4, 0, 0xb000), 59: (4, 0, 0x9000), 1: (8, 0, 0xa000), 2: (16, 0, 0x8000), 53: (8, 0, 0x8000),
       40: (16, 0, 0x8000), 20: (4, 0, 0x8000), 19: (8, 0, 0x8000), 4: (32, 0, 0x4000),
       3: (4, 12, 0xb000, 4, 0xa000), 45: (4, 12, 0xb000, 4, 0xa000)}
for _t, _kb in XEGS.items():
    MAP[_t] = (8, _kb - 8, 0xa000, 8, 0x8000)
SIZES = dict(corpus.CARTS)
SIZES.update(corpus.CARTS_5200)
SIZES.update({61: 2048, 64: 2048})
MIMES = ("application/vnd.atari8bit.cart", "application/vnd.atari5200.cart")


def parser_class(t):
    found = [p for m in MIMES for p in parsers.mime_parsers[m] if p.cart_type == t]
    return found[0] if len(found) == 1 else None


def judge(ctx, t, data, parser, header, base):
    """segments of a cartridge"""
    rng = ctx.rng
    kb = SIZES[t]
    m = MAP.get(t, (kb, 0, 0))
    want = []
    if header:
        want.append((0, 0, header))
    want.append((m[2], len(header) + m[1] * 1024, data[m[1] * 1024:(m[1] + m[0]) * 1024]))
    if len(m) > 3:
        ctx.count("banked")
        for off in range(0, kb - m[0], m[3]):
            want.append((m[4], len(header) + off * 1024, data[off * 1024:(off + m[3]) * 1024]))
    got = parser.image.segments
    ctx.require(len(got) == len(want), "banks", "type %d: %d segments, wanted %d" % (t, len(got), len(want)))
    ctx.require([id(s) for s in parser.segments[1:]] == [id(s) for s in got], "segments", "parser and image disagree")
    ctx.require(parser.segments[0].tobytes() == header + data, "whole", "the whole-image segment isn't the input")
    cover = bytearray(len(header) + len(data))
    for j, (s, (org, pos, b)) in enumerate(zip(got, want)):
        ctx.require(int(s.origin) == org, "address", "type %d: segment %d at %04x, wanted %04x" % (t, j, s.origin, org))
        ctx.require(s.tobytes() == b, "bytes", "type %d: segment %d (%s) has other bytes" % (t, j, s.name))
        ctx.require(s.get_raw_index(0) == pos, "position", "type %d: segment %d starts at file position %d, not %d" % (t, j, s.get_raw_index(0), pos))
        for x in range(0, len(b), 512):
            cover[pos + x] += 1
    ctx.require(all(cover[x] == 1 for x in range(len(header), len(cover), 512)), "cover", "banks don't cover the data once")
    # what an emulator gets
    boot = parser.image.create_emulator_boot_segment()
    b = boot.tobytes()
    ctx.require(b[:4] == b"CART" and int.from_bytes(b[4:8], "big") == t and b[16:] == data and b[12:16] == bytes(4), "emulator",
                "type %d: emulator image isn't header plus data (%s...)" % (t, b[:16].hex()))
    ctx.require(parser.segments[0].tobytes() == header + data, "whole", "making the emulator image changed the data")
    ctx.count("emulator_image")
    s = rng.choice(got)
    k = rng.randrange(len(s))
    pos = s.get_raw_index(k)
    old = int(base.data[pos])
    s[k] = old ^ 0xff
    ctx.require(int(base.data[pos]) == old ^ 0xff, "window", "segment isn't a window of the image")
    ctx.count("written")


def cart_case(ctx, i):
    rng = ctx.rng
    types = sorted(SIZES)
    t = types[(i // 2) % len(types)] if i < 4 * len(types) else rng.choice(types)
    kb = SIZES[t]
    data = rng.randbytes(1024) * kb if kb > 256 else rng.randbytes(kb * 1024)
    if kb > 256:
        # banks can be told apart
        b = np.frombuffer(data, dtype=np.uint8).copy()
        b[::1024] = np.arange(kb) % 251
        b[1::1024] = np.arange(kb) // 251
        data = b.tobytes()
    cls = parser_class(t)
    ctx.require(cls is not None, "types", "cartridge type %d isn't supported exactly once" % t)
    ctx.require(("5200" in cls.menu_name) == (t in corpus.CARTS_5200), "types", "machine of type %d" % t)
    header = b""
    form = "forced"
    if i % 2 == 0:
        header = b"CART" + t.to_bytes(4, "big") + rng.randbytes(4) + bytes(4)
        form = "header"
    ctx.log("cartridge", t, form)
    ctx.distinct(t, form, hash(data))
    full = header + data
    base = SegmentData(np.frombuffer(full, dtype=np.uint8).copy())
    if header and rng.random() < .6:
        mime, parser = parsers.iter_parsers(base)
        ctx.require(parser is not None and parser.__class__ is cls, "detect", "type %d found as %s" % (t, type(parser).__name__))
        ctx.require(mime == MIMES[t in corpus.CARTS_5200], "detect", "type %d found as %s" % (t, mime))
        ctx.count("detected")
    else:
        parser = cls(base, bool(header) and rng.random() < .5)
    ctx.count("with_header" if header else "forced")
    judge(ctx, t, data, parser, header, base)
    ctx.count("all_types", i == 2 * len(types) - 1)
    # wrong sizes
    k = rng.randrange(6)
    bad = [full + b"\0", full[:-1], full + bytes(1024), full[:-1024], full + bytes(rng.randint(1, 3000)), full[:-rng.randint(1, min(2000, len(data)))]][k]
    for strict in (False, True):
        try:
            p = cls(SegmentData(bad), strict)
        except errors.InvalidSegmentParser:
            ctx.count("wrong_size_rejected")
        else:
            ctx.fail("size", "type %d (%dK) accepts %d bytes" % (t, kb, len(bad)))
    if header:
        # another type
        u = rng.choice([x for x in types if SIZES[x] != kb])
        for strict in (False, True):
            try:
                parser_class(u)(SegmentData(full), strict)
            except errors.InvalidSegmentParser:
                ctx.count("mismatch_rejected")
            else:
                ctx.fail("mismatch", "cartridge of type %d accepted as type %d" % (t, u))
        u = rng.choice([x for x in types if SIZES[x] == kb])
        if u != t:
            try:
                parser_class(u)(SegmentData(full), True)
            except errors.InvalidSegmentParser:
                ctx.count("mismatch_rejected")
            else:
                ctx.fail("mismatch", "cartridge of type %d strictly accepted as type %d" % (t, u))
        unknown = rng.choice([68, 200, 0x01000000, 0xffffffff, t << 24, t << 8])
        bad = b"CART" + unknown.to_bytes(4, "big") + full[8:]
        for strict in (False, True):
            try:
                cls(SegmentData(bad), strict)
            except errors.AtrError:
                ctx.count("unknown_type_rejected")
            else:
                ctx.fail("unknown", "header with unknown type %d accepted as type %d" % (unknown, t))


def rom_case(ctx):
    rng = ctx.rng
    n = 1 << rng.randint(0, 18)
    data = rng.randbytes(n)
    ctx.log("rom", n)
    ctx.distinct("rom", hash(data))
    cls = rng.choice([parsers.RomParser, parsers.RomParser, parsers.Atari2600CartParser, parsers.VectrexParser])
    p = cls(SegmentData(np.frombuffer(data, dtype=np.uint8).copy()), cls is parsers.RomParser)
    s = p.image.segments
    ctx.require(len(s) == 1 and s[0].tobytes() == data and int(s[0].origin) == 0 and s[0].get_raw_index(0) == 0, "rom", "ROM of %d bytes: %s" % (n, s))
    ctx.require(len(p.segments) == 2 and p.segments[0].tobytes() == data, "rom", "segments of a ROM")
    ctx.count("rom")
    m = rng.choice([n + 1, n - 1, n + rng.randint(1, n), 3 * n])
    if m > 0 and m & m - 1:
        try:
            parsers.RomParser(SegmentData(rng.randbytes(m)), True)
        except errors.InvalidSegmentParser:
            ctx.count("rom_rejected")
        else:
            ctx.fail("rom", "%d bytes accepted as a ROM" % m)


def zip_case(ctx):
    rng = ctx.rng
    buf = io.BytesIO()
    members = []
    names = set()
    odd = rng.random() < .25
    count = rng.choice([1, 1, 2, 5, 20])
    with zipfile.ZipFile(buf, "w") as zf:
        for i in range(count):
            n = rng.choice([0, 16, 256, 16 * rng.randint(1, 300), 16 * rng.randint(1, 3000)]) if rng.random() < .5 else 16 * rng.randint(1, 40)
            if i == 0 and not n:
                n = 16
            if count > 1 and i < 3 and rng.random() < .05:
                # later boards have ROMs of a megabyte and more
                n = rng.choice([1, 2, 3]) * 0x80000 + rng.choice([0, 16])
                ctx.count("zip_large_rom", n >= 0x100000)
            if odd and i == count - 1:
                n += rng.choice([1, 8, 15])
            data = rng.choice([rng.randbytes(n), bytes(n), b"\xff" * n, rng.randbytes(1) * n])
            name = rng.choice(["%s.%d", "sub/%s.%d", "%s-%d.rom"]) % (session.atari_name(rng), i)
            if members and rng.random() < .05:
                # an archive may hold two members of one name
                name = rng.choice(members)[0]
                ctx.count("zip_same_name")
            zf.writestr(name, data, compress_type=rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]))
            members.append((name, data))
        if rng.random() < .2:
            zf.comment = b"some comment"
    z = buf.getvalue()
    ctx.log("zip", [(n, len(d)) for n, d in members])
    ctx.distinct("zip", hash(z))
    direct = rng.random() < .5
    try:
        if direct:
            p = parsers.MameZipParser(SegmentData(np.frombuffer(z, dtype=np.uint8).copy()), rng.random() < .5)
        else:
            p = atrcopy.find_diskimage_from_data(z)[0]
    except errors.AtrError as e:
        ctx.require(odd, "zip", "ROM zip rejected: %r" % e)
        ctx.count("zip_rejected")
        return
    if odd:
        ctx.require(not isinstance(p, parsers.MameZipParser), "zip", "zip with a member that isn't a multiple of 16 accepted")
        return
    ctx.require(type(p) is parsers.MameZipParser, "zip", "ROM zip found as %s" % type(p).__name__)
    s = p.image.segments
    ctx.require(len(s) == len(members), "zip", "%d segments for %d ROMs" % (len(s), len(members)))
    ctx.require(p.segments[0].tobytes() == z and [id(x) for x in p.segments[1:]] == [id(x) for x in s], "zip", "segments of the zip file")
    pos = 0
    for g, (name, data) in zip(s, members):
        ctx.require(g.name == name and g.tobytes() == data, "zip", "ROM %s (%d bytes) shown as %s" % (name, len(data), g))
        ctx.require(int(g.origin) == pos, "zip", "ROM %s at %x, wanted %x" % (name, g.origin, pos))
        pos += len(data)
    ctx.count("zip")


def case(ctx, i):
    k = i % 4
    if k < 2:
        cart_case(ctx, i // 4 * 2 + k)
    elif k == 2:
        rom_case(ctx)
    else:
        zip_case(ctx)
    ctx.sample()
