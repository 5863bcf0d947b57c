import bz2
import gzip
import io
import lzma

import numpy as np

import atrcopy
from atrcopy import errors

import cli
import corpus

PID = "C08"
RULE = ("valid images of every kind are compressed with random settings (gzip levels with and without name, bz2, xz, old lzma, "
        "1-4 concatenated streams) and the complete view (format, listing, file contents, segments) is compared with the view of the "
        "uncompressed image; then the compressed bytes are truncated or altered at random points and the outcome must be a library error, "
        "the raw bytes themselves, or the unaltered image; non-trivial: distinct compressed inputs")
CASES = {"quick": 1800, "thorough": 20000}
REQUIRED = ["views_compared", "multi_stream", "truncated", "altered", "gz", "bz2", "xz", "lzma", "rejected", "dcm", "large", "huge", "iter_parsers"]
ASSUMPTIONS = ["alteration is only judged for streams that carry a check (not the old .lzma format or xz without check)"]


def gz(rng, data):
    buf = io.BytesIO()
    with gzip.GzipFile(rng.choice(["", "disk.atr", "x" * 60]), "wb", rng.randint(0, 9), buf, mtime=rng.choice([0, 1e9])) as f:
        f.write(data)
    return buf.getvalue()


def compress(rng, how, data):
    if how == "gz":
        return gz(rng, data)
    if how == "bz2":
        return bz2.compress(data, rng.randint(1, 9))
    if how == "xz":
        return lzma.compress(data, check=rng.choice([lzma.CHECK_CRC32, lzma.CHECK_CRC64]), preset=rng.choice([0, 1, 3]))
    return lzma.compress(data, format=lzma.FORMAT_ALONE, preset=rng.choice([0, 1]))


def big(rng):
    unit = rng.randbytes(4096)
    if rng.random() < .4:
        return corpus.cart(rng, maxkb=1024, minkb=512)[0]
    sec = rng.choice([128, 256, 512])
    n = rng.choice([0x100000, 0x180000, 0x240000]) + rng.choice([0, 1, 5]) * sec
    d = bytearray((unit * (n // 4096 + 1))[:n])
    for k in range(0, n, 65536):
        d[k + 8] = k >> 16
    d[0:6] = b"\0\x03\0\x07\x40\x15"
    return bytes([0x96, 2, n // 16 & 255, n // 16 >> 8 & 255, sec & 255, sec >> 8, n // 16 >> 16] + [0] * 9) + bytes(d)


def huge(rng):
    """more than 16 MB"""
    d = bytearray(rng.randbytes(4096) * 0x2000)
    for k in range(0, len(d), 65536):
        d[k + 8:k + 10] = rng.randbytes(2)
    return bytes(d)


def first_bytes(data):
    try:
        parser, mime = atrcopy.find_diskimage_from_data(bytes(data))
    except errors.AtrError as e:
        return None, type(e).__name__
    return parser, parser.segments[0].tobytes()


def case(ctx, i):
    rng = ctx.rng
    if i % 225 == 7:
        kind, data = "huge", huge(rng)
        ctx.count("huge")
    elif i % 45 == 7:
        # hard disk images, large cartridges
        kind, data = "large", big(rng)
        ctx.count("large")
    else:
        kind, data = corpus.make(rng, small=True)
    how = rng.choice(["gz", "gz", "bz2", "xz", "lzma"]) if kind != "huge" else ["gz", "bz2", "xz", "lzma"][i // 225 % 4]
    ctx.log("image", kind, data)
    want = corpus.open_view(data)
    if kind == "rom" and want[0] == "error":
        return
    parts = [data]
    if rng.random() < .3 and how != "lzma":
        cuts = sorted(rng.randint(0, len(data)) for _ in range(rng.randint(1, 3)))
        parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        ctx.count("multi_stream")
    packed = b"".join(compress(rng, how, p) for p in parts)
    ctx.count(how)
    ctx.log("compressed", how, len(parts), packed)
    got = corpus.open_view(packed)
    ctx.count("views_compared")
    same(ctx, how, got, want)
    if rng.random() < .4:
        path = cli.put(ctx.tmp(rng.choice(["disk.atr.gz", "disk", "disk.dsk", "DISK.XEX.bz2"])), packed)
        parser, mime = atrcopy.find_diskimage(path)
        same(ctx, how + " file", ("ok", corpus.view(parser, mime)), want)
    if rng.random() < .3 and want[0] == "ok":
        raw = lambda d: atrcopy.iter_parsers(atrcopy.SegmentData(np.frombuffer(d, dtype=np.uint8).copy()))
        m1, p1 = raw(data)
        m2, p2 = raw(packed)
        ctx.count("iter_parsers")
        ctx.require(m1 == m2 and type(p1) is type(p2), "format", "%s: iter_parsers gives %s %s, uncompressed: %s %s" % (
            how, m2, type(p2).__name__, m1, type(p1).__name__))
        if p1 is not None:
            ctx.require(p1.segments[0].tobytes() == p2.segments[0].tobytes(), "format", "%s: iter_parsers gives other bytes" % how)
    ctx.distinct(kind, how, hash(packed))

    # damage
    if len(parts) == 1:
        for _ in range(4):
            bad = bytearray(packed)
            if rng.random() < .5:
                n = rng.choice([0, 1, 2, 5, rng.randint(0, len(bad) - 1), len(bad) - 1, rng.randint(max(0, len(bad) - 20), len(bad) - 1)])
                if how == "lzma" and n < 14:
                    continue
                bad = bad[:n]
                what = "truncated"
            elif how != "lzma":
                p = rng.choice([rng.randrange(len(bad)), rng.randrange(min(len(bad), 24)), len(bad) - 1 - rng.randrange(min(len(bad), 16))])
                bad[p] ^= 1 << rng.randrange(8)
                what = "altered"
            else:
                continue
            bad = bytes(bad)
            ctx.count(what)
            parser, first = first_bytes(bad)
            ctx.log(what, len(bad), first if parser is None else type(parser).__name__)
            if parser is None:
                ctx.count("rejected")
                ctx.require(True, "", "")
                continue
            ctx.require(first == bad or first == data, "different-disk",
                        "%s %s of a %s image is opened as %s with other data than the image" % (what, how, kind, type(parser).__name__),
                        got=first, image=data)
    # Disk Communicator
    if i % 8 == 0:
        t = rng.choice([0xf9, 0xfa])
        d = rng.choice([0, 1, 2])
        dcm = bytes([t, 1 | d << 5 | rng.choice([0, 0x80])]) + rng.randbytes(rng.choice([0, 100, 5000]))
        exc = None
        try:
            atrcopy.find_diskimage_from_data(dcm)
        except Exception as e:
            exc = e
        ctx.count("dcm")
        ctx.require(isinstance(exc, errors.UnsupportedContainer), "dcm", "Disk Communicator data gives %r" % (exc,))
    ctx.sample()


def same(ctx, how, got, want):
    ctx.require(got[0] == want[0], "format", "%s: %s, uncompressed: %s" % (how, got if got[0] == "error" else "ok", want if want[0] == "error" else "ok"))
    if got[0] == "error":
        ctx.require(got == want, "error", "%s: %s, uncompressed: %s" % (how, got[1], want[1]))
        return
    for k in want[1]:
        ctx.require(got[1][k] == want[1][k], k, "%s: %s differs from the uncompressed image" % (how, k), got=str(got[1][k])[:300], want=str(want[1][k])[:300])
