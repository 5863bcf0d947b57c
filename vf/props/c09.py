import resource
import struct

import atrcopy
from atrcopy import errors

import cli
import corpus
import session

PID = "C09"
RULE = ("valid images of every kind (raw or compressed) are mutated structurally: bit flips and boundary values in headers, boot "
        "records, allocation maps, directories, catalogs, sector links, track/sector lists, sector maps, zip and executable "
        "headers; links, lists, maps and catalogs bent back into loops; truncation, extension, splicing, pure noise.  Each is opened, listed, every file read, every segment described, "
        "partly through the command line, under step and memory limits; non-trivial: distinct mutated inputs")
CASES = {"quick": 1000, "thorough": 20000}
REQUIRED = ["inputs", "opened", "rejected", "files_read", "file_errors", "segments_described", "cli_runs", "loops_made"]
CPU_LIMIT = {"quick": 30, "thorough": 40}
ASSUMPTIONS = ["inputs up to about 1 MB", "the address space limit of a worker is 6 GB"]

BYTES = [0, 1, 2, 3, 4, 0x10, 0x1f, 0x20, 0x40, 0x42, 0x46, 0x7f, 0x80, 0xc0, 0xf9, 0xfe, 0xff]


def regions(kind, data):
    """offsets that matter"""
    n = len(data)
    if kind == "dos33":
        out = [(0, 16), (17 * 4096, 17 * 4096 + 256)]
        out += [(17 * 4096 + s * 256, 17 * 4096 + s * 256 + 256) for s in range(1, 16)]
        try:
            fs = session.dos33fs.Dos33Fs(data)
            for e in fs.files[:8]:
                for l in fs.tslists(e)[0]:
                    out.append((l * 256, l * 256 + 24))
        except Exception:
            pass
        return out
    if kind in ("atari", "sparta", "boot", "kboot"):
        h = 16 if data[:2] == b"\x96\x02" else 0
        out = [(0, 16), (h, h + 48), (h, h + 48)]
        if kind == "atari":
            try:
                fs = session.atarifs.AtariFs(data)
                p, s = fs.pos(360)
                out += [(p, p + 10), (p, p + s)]
                for k in range(361, 369):
                    p, s = fs.pos(k)
                    out += [(p, p + 128)]
                for e in fs.ok_files()[:12]:
                    for q in fs.sectors(e)[:5]:
                        p, s = fs.pos(q)
                        out.append((p + s - 3, p + s))
            except Exception:
                pass
        if kind == "sparta":
            for k in range(40):
                q = h + 384 + 128 * k
                out.append((q, q + 128))
        return out
    if kind == "zip":
        return [(0, 40), (max(0, n - 150), n)]
    return [(0, min(n, 32)), (0, n)]


def mutate(rng, kind, data):
    b = bytearray(data)
    regs = [(s, min(e, len(b))) for s, e in regions(kind, data) if s < len(b)]
    for _ in range(rng.choice([1, 1, 1, 2, 3, 5, 10, 40])):
        r = rng.random()
        if not b:
            break
        s, e = rng.choice(regs) if regs else (0, len(b))
        e = min(e, len(b))
        if s >= e:
            continue
        if r < .35:
            b[rng.randrange(s, e)] = rng.choice(BYTES)
        elif r < .6:
            b[rng.randrange(s, e)] ^= 1 << rng.randrange(8)
        elif r < .72:
            p = rng.randrange(s, e)
            w = rng.choice([0, 1, 0xffff, 0x7fff, 0x8000, 360, 361, 719, 720, 1023, 1040, rng.randint(0, 1100), len(data) // 128])
            b[p:p + 2] = struct.pack("<H", w)[:len(b) - p]
        elif r < .8:
            n = rng.choice([16, 23, 35, 128, 256])
            b[s:s + n] = rng.randbytes(min(n, len(b) - s))
        elif r < .86:
            n = rng.choice([16, 35, 128, 256])
            b[s:s + n] = bytes([rng.choice([0, 0xff, 0x42])]) * min(n, len(b) - s)
        elif r < .91:
            b = b[:rng.choice([rng.randint(0, len(b)), rng.randint(0, min(len(b), 600)), len(b) - rng.randint(0, min(len(b), 300))])]
        elif r < .94:
            b += rng.randbytes(rng.choice([1, 16, 128, 1000]))
        else:
            p = rng.randrange(len(b))
            n = rng.randint(1, 512)
            q = rng.randrange(len(b))
            b[p:p + n] = b[q:q + n]
    return bytes(b)


def noise(rng):
    k = rng.random()
    n = rng.choice([0, 1, 2, 3, 4, 5, 15, 16, 17, 128, 144, 400, 1024, 1040, 8192, 8208, 65536, rng.randint(0, 70000), 92160, 92176, 143360,
                    133136, 183952, 184336, 184320])
    if k < .5:
        b = bytearray(rng.randbytes(n))
    else:
        b = bytearray(bytes([rng.choice([0, 0xff, 1, 0x55])]) * n)
    pre = rng.choice([b"", b"", b"\x96\x02", b"\x96\x02\x80\x16\x80\x00", b"\xff\xff", b"CART", b"CART\0\0\0\x01", b"PK\3\4", b"\x1f\x8b\x08",
                      b"BZh9", b"\xfd7zXZ\0", b"\x5d\0\0", b"\xf9\x01", b"\xfa", b"\x01\x38\xb0\x03", b"\x01\xa5\x27\xc9"])
    b[0:len(pre)] = pre
    if k >= .5 and pre == b"\xff\xff":
        # thousands of tiny blocks: valid, but slow to list
        b = b[:20000]
    return bytes(b)


def loop(rng, kind, data):
    """a link, list, map or catalog that leads back to an earlier part of itself; None if there's nothing to bend"""
    b = bytearray(data)
    if kind == "dos33":
        try:
            fs = session.dos33fs.Dos33Fs(data)
        except session.atarifs.FsError:
            return None
        if rng.random() < .4 or not fs.ok_files():
            cat = fs.catalog
            i = rng.randrange(len(cat))
            b[cat[i] * 256 + 1:cat[i] * 256 + 3] = divmod(rng.choice(cat[:i + 1]), 16)
        else:
            lists = fs.tslists(rng.choice(fs.ok_files()))[0]
            i = rng.randrange(len(lists))
            b[lists[i] * 256 + 1:lists[i] * 256 + 3] = divmod(rng.choice(lists[:i + 1]), 16)
        return bytes(b)
    try:
        fs = session.atarifs.AtariFs(data)
    except session.atarifs.FsError:
        return None
    files = [e for e in fs.ok_files() if fs.sectors(e)]
    if not files:
        return None
    e = rng.choice(files)
    secs = fs.sectors(e)
    i = rng.randrange(len(secs))
    to = rng.choice(secs[:i + 1])
    p, s = fs.pos(secs[i])
    hi = b[p + s - 3]
    b[p + s - 3:p + s - 1] = bytes([to >> 8 if e.flag & 4 else hi & 0xfc | to >> 8, to & 255])
    return bytes(b)


def sparta_loop(rng):
    """SpartaDOS disk with a sector map leading back to itself (of the directory: in half of the cases)"""
    import spartafs
    sb = spartafs.Builder(rng, rng.choice([92160, 133120, 183936]), header=rng.random() < .8)
    for j in range(rng.choice([1, 3, 8])):
        sb.add("FILE%d" % j, session.content(rng, rng.choice([10, 3000, sb.sec * sb.sec // 2, 3 * 62 * 128])), 0x08)
    rootmaps = None
    data = bytearray(sb.build())
    rootmaps = sb.last[0]
    maps = rootmaps if rng.random() < .4 or not sb.maps else rng.choice(list(sb.maps.values()))
    i = rng.randrange(len(maps))
    p = sb.pos(maps[i])[0] + (16 if sb.header else 0)
    data[p:p + 2] = rng.choice(maps[:i + 1]).to_bytes(2, "little")
    return bytes(data)


def exercise(ctx, data):
    """the whole reading API; only library errors may come out"""
    try:
        parser, mime = atrcopy.find_diskimage_from_data(data)
    except errors.AtrError as e:
        ctx.count("rejected")
        return None
    ctx.count("opened")
    ctx.count("as_" + type(parser).__name__)
    str(parser.image)
    str(parser)
    for s in parser.segments:
        str(s)
        s.verbose_info
        s.tobytes()
        if len(s):
            s.label(0)
            s.label(len(s) - 1)
            s.get_raw_index(0)
        ctx.count("segments_described")
    for d in parser.image.files:
        str(d)
        d.filename
        try:
            got = parser.image.get_file(d)
            ctx.count("files_read")
            ctx.require(len(got) <= 70 * len(data) + 70000, "growth", "file of %d bytes from %d bytes of image" % (len(got), len(data)))
        except errors.AtrError:
            ctx.count("file_errors")
        try:
            d.extra_metadata(parser.image)
        except errors.AtrError:
            pass
    return parser


def limit():
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    if soft == resource.RLIM_INFINITY or soft > 6 << 30:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, hard))
        except (ValueError, OSError):
            pass


def case(ctx, i):
    rng = ctx.rng
    limit()
    if i % 9 == 8:
        inputs = [("noise", noise(rng)) for _ in range(6)]
    else:
        kind, base = corpus.make(rng, small=True)
        inputs = []
        for _ in range(5):
            m = mutate(rng, kind, base)
            if rng.random() < .08:
                from props.c08 import compress
                m = compress(rng, rng.choice(["gz", "bz2", "xz"]), m)
                if rng.random() < .5:
                    m = mutate(rng, "raw", m)
            inputs.append((kind, m))
        if i % 3 == 0:
            if rng.random() < .3:
                kind, m = "sparta", sparta_loop(rng)
            else:
                kind = rng.choice(["atari", "atari", "dos33"])
                if kind == "atari":
                    base = session.foreign_atari(rng, nfiles=rng.choice([2, 5, 12]), fill=150, mydos=rng.random() < .5).build()
                else:
                    base = session.foreign_dos33(rng, nfiles=rng.choice([2, 5, 12]), maxtotal=300).build()
                m = loop(rng, kind, base)
            if m is not None:
                inputs.append((kind, m))
                ctx.count("loops_made")
    for kind, data in inputs:
        ctx.count("inputs")
        ctx.log("input", kind, data)
        ctx.distinct(hash(data))
        parser = exercise(ctx, data)
        if rng.random() < .08:
            d = ctx.tmp()
            cli.put(d + "/img", data)
            for argv in (["img"], ["img", "segments"], ["img", "crc"], ["img", "list", "-m"], ["img", "extract", "-a", "-d", "out"]):
                r = cli.run(argv, d)
                ctx.count("cli_runs")
                ctx.log("cli", " ".join(argv), type(r.exc).__name__)
                if r.exc is not None and not isinstance(r.exc, (errors.AtrError, SystemExit, OSError)):
                    raise r.exc
    ctx.sample()
