"""Valid images of every kind, made without the package under test, and a
complete description ("view") of what the package makes of some bytes."""
import hashlib
import io
import os
import zipfile

import atrcopy

import atarifs
import dos33fs
import session
import spartafs
from core import REPO

CARTS = {  # type: (KB, name contains 5200) -- sizes from the atari800 documentation
    1: 8, 2: 16, 3: 16, 5: 32, 8: 64, 9: 64, 10: 64, 11: 64, 12: 32, 13: 64, 14: 128, 15: 16, 17: 128, 18: 40,
    21: 8, 22: 32, 23: 256, 24: 512, 25: 1024, 26: 16, 27: 32, 28: 64, 29: 128, 30: 256, 31: 512, 32: 1024, 33: 32,
    34: 64, 35: 128, 36: 256, 37: 512, 38: 1024, 39: 8, 40: 16, 41: 128, 42: 1024, 43: 128, 44: 8, 45: 16, 46: 4,
    47: 32, 48: 64, 49: 128, 50: 64, 51: 128, 52: 32, 53: 8, 54: 128, 55: 256, 56: 512, 57: 2, 58: 4, 59: 4, 60: 32,
    67: 64}
CARTS_5200 = {4: 32, 6: 16, 7: 40, 16: 16, 19: 8, 20: 4}

BOOTCODE = None


def kboot_header():
    global BOOTCODE
    if BOOTCODE is None:
        with open(os.path.join(REPO, "test_data/kboot_test1.atr"), "rb") as fh:
            BOOTCODE = fh.read()[16:16 + 384]
    return BOOTCODE


def random_xex(rng, nmax=6, maxlen=3000):
    """(bytes, blocks) blocks: (start, data)"""
    out = bytearray(b"\xff\xff")
    blocks = []
    for i in range(rng.randint(1, nmax)):
        if i and rng.random() < .3:
            out += b"\xff\xff"
        n = rng.choice([1, 2, 3, 4, rng.randint(1, 40), rng.randint(1, maxlen)])
        start = rng.choice([rng.randint(0, 65536 - n), rng.choice([0x2000, 0x600, 0, 65536 - n])])
        if rng.random() < .1:
            start, n = rng.choice([(0x2e0, 2), (0x2e2, 2), (0x2e0, 4)])
        if start == 0xffff:
            start = 0xfffe - n
        data = rng.randbytes(n)
        out += start.to_bytes(2, "little") + (start + n - 1).to_bytes(2, "little") + data
        blocks.append((start, data))
    return bytes(out), blocks


def kboot(rng, maxlen=20000):
    xex, _ = random_xex(rng, maxlen=maxlen)
    if rng.random() < .2:
        # a program that ends exactly with its last sector
        n = -(len(xex) + 4) % 128
        if n:
            start = rng.randint(0x2000, 0x8000)
            xex += start.to_bytes(2, "little") + (start + n - 1).to_bytes(2, "little") + rng.randbytes(n)
    boot = bytearray(kboot_header())
    boot[9:12] = len(xex).to_bytes(3, "little")
    body = xex + bytes(-len(xex) % 128)
    payload = bytes(boot) + body
    return atarifs.atr_header(len(payload), 128) + payload, xex


def bootdisk(rng):
    size, sec = rng.choice([(92160, 128), (133120, 128), (183936, 256), (384 + 256 * rng.randint(721, 1500), 256), (128 * rng.randint(721, 1030), 128)])
    b = bytearray(rng.randbytes(size))
    n = rng.randint(1, 100)
    addr = rng.randint(0x600, 0xc000 - n * 256 - 256)
    b[0:6] = bytes([0, n]) + addr.to_bytes(2, "little") + (addr + 6).to_bytes(2, "little")
    # root of neither KBoot nor SpartaDOS nor DOS 2
    b[9:12] = b"\xff\xff\xff"
    b[32] = 0
    p = 359 * 128 if sec == 128 else 384 + 356 * 256
    b[p] = rng.choice([200, rng.randint(20, 255)])
    return (atarifs.atr_header(size, sec)) + bytes(b)


def cart(rng, only5200=None, maxkb=64, minkb=0):
    table = dict(CARTS_5200) if only5200 else dict(CARTS)
    t = rng.choice([k for k in sorted(table) if minkb <= table[k] <= maxkb])
    kb = table[t]
    data = rng.randbytes(kb * 1024)
    return b"CART" + t.to_bytes(4, "big") + rng.randbytes(4) + bytes(4) + data, t, data


def mamezip(rng):
    buf = io.BytesIO()
    members = []
    with zipfile.ZipFile(buf, "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as zf:
        for i in range(rng.randint(1, 6)):
            data = rng.randbytes(16 * rng.randint(1, 300)) if rng.random() < .6 else bytes(16 * rng.randint(1, 300))
            name = "%s.%d" % (session.atari_name(rng).replace(".", "-"), i)
            zf.writestr(name, data)
            members.append((name, data))
    return buf.getvalue(), members


def bsave(rng, maxlen=4000):
    n = rng.randint(1, maxlen)
    if rng.random() < .25:
        n = rng.choice([k for k in (4, 12, 28, 60, 124, 252, 508, 1020, 2044, 4092, 8188, 16380, 1024, 4096) if k <= max(maxlen, 200)])
    addr = rng.choice([rng.randint(0, 65535 - n), rng.choice([0x2000, 0x800, 0x300, 65536 - n])])
    data = rng.randbytes(n)
    raw = addr.to_bytes(2, "little") + n.to_bytes(2, "little") + data
    return raw, addr, data


def rom(rng):
    return rng.randbytes(1 << rng.randint(10, 16))


KINDS = {
    "atari": ("AtariDosSegmentParser",), "sparta": ("SpartaDosSegmentParser",), "kboot": ("KBootSegmentParser",),
    "boot": ("AtariBootDiskSegmentParser",), "dos33": ("Dos33SegmentParser",), "xex": ("XexSegmentParser",),
    "cart": (), "cart5200": (), "zip": ("MameZipParser",), "bin": ("Dos33BinSegmentParser",), "rom": ("RomParser",),
}
WEIGHTS = [("atari", 5), ("dos33", 4), ("sparta", 3), ("kboot", 2), ("boot", 1), ("xex", 3), ("cart", 2), ("cart5200", 1),
           ("zip", 2), ("bin", 2), ("rom", 1)]


def make(rng, kind=None, small=False):
    """(kind, bytes) of a valid image"""
    kind = kind or rng.choice([k for k, w in WEIGHTS for _ in range(w)])
    if kind == "atari":
        r = rng.random()
        if r < .15:
            data = session.load("template", rng.choice(session.TEMPLATES[:5]))
        elif r < .35:
            data = session.load("sample", rng.choice(session.SAMPLES[:-1]))
        else:
            data = session.foreign_atari(rng, nfiles=rng.choice([0, 2, 5, 12, 30]), fill=150 if small else None).build()
    elif kind == "dos33":
        r = rng.random()
        if r < .1:
            data = session.load("template", rng.choice(session.TEMPLATES[5:]))
        elif r < .2:
            data = session.load("sample", "dos33_master.dsk")
        else:
            data = session.foreign_dos33(rng, nfiles=rng.choice([0, 2, 5, 12, 30]), maxtotal=150 if small else 400).build()
    elif kind == "sparta":
        data = spartafs.random_disk(rng).build()
    elif kind == "kboot":
        data = kboot(rng)[0]
    elif kind == "boot":
        data = bootdisk(rng)
    elif kind == "xex":
        data = random_xex(rng)[0]
    elif kind == "cart":
        data = cart(rng)[0]
    elif kind == "cart5200":
        data = cart(rng, True)[0]
    elif kind == "zip":
        data = mamezip(rng)[0]
    elif kind == "bin":
        data = bsave(rng)[0]
    else:
        data = rom(rng)
    return kind, data


def digest(b):
    return hashlib.sha1(bytes(b)).hexdigest()[:12]


def raw_bytes(segment):
    return segment.tobytes()


def describe_segment(s):
    return (type(s).__name__, s.name, str(s), int(s.origin), len(s), digest(s.tobytes()), s.error)


def view(parser, mime, contents=True):
    """everything observable about an opened image"""
    v = {"parser": type(parser).__name__, "mime": mime, "image": str(parser.image)}
    v["segments"] = [describe_segment(s) for s in parser.segments]
    files = []
    for d in parser.image.files:
        row = [str(d), d.filename]
        if contents:
            try:
                row.append(digest(parser.image.get_file(d)))
            except atrcopy.errors.AtrError as e:
                row.append("error %s" % type(e).__name__)
        files.append(tuple(row))
    v["files"] = files
    return v


def open_view(data):
    """('ok', view) or ('error', type name)"""
    try:
        parser, mime = atrcopy.find_diskimage_from_data(bytes(data))
    except atrcopy.errors.AtrError as e:
        return "error", type(e).__name__
    return "ok", view(parser, mime)
