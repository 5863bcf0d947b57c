import numpy as np

import atrcopy
from atrcopy import errors
from atrcopy.kboot import KBootImage, add_xexboot_header, xexboot_header
from atrcopy.parsers import KBootSegmentParser
from atrcopy.segments import SegmentData

import atarifs
import cli
import cpu6502
import execs
import segs

PID = "C16"
RULE = ("random segment lists (1-8 segments anywhere in program memory, overlapping or not, run and init vectors, total sizes up to 64K, exact "
        "sector multiples) are made into boot disks through the class and through the boot command; the image is booted in a 6502 "
        "simulation with a recording disk drive, and the sequence of stores, init calls and the final jump is compared with the "
        "segments; then the image is opened again; non-trivial: distinct (layout, run address)")
CASES = {"quick": 4000, "thorough": 30000}
REQUIRED = ["booted", "init_calls", "run_default", "run_given", "run_vector", "via_cli", "reopened", "sector_multiple", "rejected_run", "large",
            "cli_obj", "rejected_size", "existing_output", "own_boot_code", "own_texts"]
ASSUMPTIONS = ["segments lie in $0480-$06FF, $0880-$BFFF or are run/init vectors; run address other than 0"]


def program(blocks, run):
    """what the boot must do: stores (vectors left out), init calls, final jump"""
    out = []
    mem = {0x2e0: run & 255, 0x2e1: run >> 8, 0x2e2: 0, 0x2e3: 0}
    for s, d in blocks:
        for i, v in enumerate(d):
            if 0x2e0 <= s + i <= 0x2e3:
                mem[s + i] = v
            else:
                out.append(("write", s + i, v))
        if mem[0x2e2] or mem[0x2e3]:
            out.append(("init", mem[0x2e2] | mem[0x2e3] << 8))
            mem[0x2e2] = mem[0x2e3] = 0
    out.append(("run", mem[0x2e0] | mem[0x2e1] << 8))
    return out


def layout_for(ctx):
    rng = ctx.rng
    k = rng.random()
    if k < .1:
        lo, hi = 0x480, 0x700
    else:
        lo, hi = 0x880, 0xc000
    if k > .985:
        # as large as the loader's counter, or larger
        size = rng.choice([65535, 65535, 65536, 65537, 65536 + 300, rng.randint(65000, 66000), rng.randint(66000, 140000)])
        total = size - 8
        layout = []
        while total > 5000:
            n = min(total - 4, rng.randint(5000, 30000))
            layout.append((rng.randint(lo, hi - n), rng.randbytes(n)))
            total -= n + 4
        if total > 4:
            layout.append((lo, rng.randbytes(total - 4)))
        ctx.count("around_64K")
        return layout
    if k > .93:
        # more than half of memory, several times over
        total = rng.randint(30000, 65000)
        layout = []
        while total > 0:
            n = min(total, rng.randint(5000, 30000))
            layout.append((rng.randint(lo, hi - n), rng.randbytes(n)))
            total -= n
        while sum(len(b) + 4 for s, b in layout) + 20 > 65500:
            layout.pop()
        ctx.count("large")
    else:
        layout = segs.random_layout(rng, lo=lo, hi=hi, maxlen=min(hi - lo, rng.choice([50, 400, 4000])), total=64000)
    vec = []
    if rng.random() < .3:
        for _ in range(rng.randint(1, 3)):
            j = rng.randint(1, len(layout))
            layout.insert(j, (0x2e2, rng.choice(layout)[0].to_bytes(2, "little")))
    if rng.random() < .25:
        v = rng.choice([b for b in layout if b[0] != 0x2e2])
        a = v[0] + rng.randrange(len(v[1]))
        ini = rng.choice([x[0] for x in layout]).to_bytes(2, "little") if rng.random() < .3 else b""
        layout.insert(rng.randint(0, len(layout)), (0x2e0, a.to_bytes(2, "little") + ini))
    if rng.random() < .3:
        # make the file fill its sectors exactly
        j = max(range(len(layout)), key=lambda j: len(layout[j][1]) if layout[j][0] not in (0x2e0, 0x2e2) else 0)
        size = 2 + sum(4 + len(b) for s, b in layout) + (0 if any(s == 0x2e0 for s, b in layout) else 6)
        s, b = layout[j]
        over = size % 128
        if len(b) > over:
            layout[j] = (s, b[:len(b) - over])
            ctx.count("sector_multiple")
    return layout


def case(ctx, i):
    rng = ctx.rng
    layout = layout_for(ctx)
    vector = any(s == 0x2e0 for s, b in layout)
    plain = [x for x in layout if x[0] not in (0x2e0, 0x2e2)]
    s, b = rng.choice(plain)
    run = None
    k = rng.random()
    if k < .4:
        run = s + rng.randrange(len(b))
    elif k < .5:
        run = rng.choice([s - 1, s + len(b), 0xc123])
    use_cli = i % 5 == 0
    ctx.log("layout", [(hex(s), len(b)) for s, b in layout], "run", run)
    ctx.distinct(str(layout), run)
    exc = None
    if use_cli:
        layout, run, image, exc = by_command(ctx, layout, run)
        vector = any(s == 0x2e0 for s, b in layout)
        ctx.count("via_cli")
        if layout is None:
            return
    inside = run is None or any(s <= run < s + len(b) for s, b in layout)
    if not use_cli:
        given = [segs.segment(rng, s, b) for s, b in layout]
        before = segs.snapshot(given)
        try:
            image = KBootImage.create_boot_image(given, run).bytes.tobytes()
        except errors.InvalidBinaryFile as e:
            exc = e
        ctx.require(segs.snapshot(given) == before, "inputs", "building changed the input segments")
    if not vector and not inside:
        ctx.require(exc is not None, "run", "run address %04x outside of all segments accepted" % run)
        ctx.count("rejected_run")
        return
    size = 2 + sum(4 + len(b) for s, b in layout) + (0 if vector else 6)
    if size > 65535:
        ctx.require(exc is not None, "size", "executable of %d bytes, which the loader can't load, accepted" % size)
        ctx.count("rejected_size")
        return
    ctx.require(exc is None, "rejected", "valid segments rejected: %r" % exc)
    ctx.count("run_vector" if vector else "run_default" if run is None else "run_given")
    want = program(layout, run if run is not None else layout[0][0])
    try:
        boot = cpu6502.AtariBoot(image)
    except cpu6502.CpuError as e:
        ctx.fail("boot", "the disk doesn't boot: %s" % e)
    got = [e for e in boot.events if not (e[0] == "write" and 0x2e0 <= e[1] <= 0x2e3)]
    if got != want:
        j = next((j for j, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        ctx.fail("program", "event %d while booting: %s, wanted %s" % (j, got[j:j + 3], want[j:j + 3]))
    ctx.count("booted")
    ctx.count("stores", len(want))
    ctx.count("sectors_read", len(boot.reads))
    ctx.count("init_calls", sum(e[0] == "init" for e in got))
    # open it again
    parser, mime = atrcopy.find_diskimage_from_data(image)
    ctx.require(type(parser) is KBootSegmentParser, "reopen", "opens as %s (%s)" % (type(parser).__name__, mime))
    body = None
    for name, data in [("segment", [x.tobytes() for x in parser.segments if "executable" in x.name.lower()]),
                       ("file", [parser.image.find_file(d.filename) if isinstance(d.filename, bytes) else parser.image.find_file(d.filename)
                                 for d in parser.image.files])]:
        ctx.require(len(data) == 1, "reopen", "%d executables as %s" % (len(data), name))
        data = bytes(data[0])
        try:
            blocks = execs.parse_xex(data)
        except execs.BadExec as e:
            ctx.fail("reopen", "%s of the boot disk isn't the executable: %s" % (name, e))
        ctx.require(execs.writes(blocks) == execs.writes(layout), "reopen", "%s of the boot disk loads other bytes" % name)
        ctx.require(execs.run_vector(blocks) == want[-1][1], "reopen", "%s of the boot disk runs %s" % (name, execs.run_vector(blocks)))
        ctx.require(body is None or body == data, "reopen", "segment and file differ")
        body = data
    ctx.count("reopened")
    if i % 4 == 1:
        # the same executable with other texts or own boot code
        exe = np.frombuffer(body, dtype=np.uint8)
        if rng.random() < .5:
            made = add_xexboot_header(exe, bootcode=np.frombuffer(xexboot_header, dtype=np.uint8).copy())
            ctx.count("own_boot_code")
        else:
            made = add_xexboot_header(exe, title=rng.choice([b"", b"x", b"A TITLE"]), author=b"someone"[:rng.randint(0, 7)])
        made = np.asarray(made, dtype=np.uint8).tobytes()
        ctx.require(made[384:384 + len(body)] == body and len(made) % 128 == 0 and len(made) - 384 - len(body) < 256, "header", "boot disk of %d bytes for %d" % (len(made), len(body)))
        ctx.require(atrcopy.add_atr_header(np.frombuffer(made, dtype=np.uint8)).tobytes()[16:] == made, "header", "ATR header")
        try:
            boot = cpu6502.AtariBoot(atarifs.atr_header(len(made), 128) + made)
        except cpu6502.CpuError as e:
            ctx.fail("boot", "the disk doesn't boot: %s" % e)
        got = [e for e in boot.events if not (e[0] == "write" and 0x2e0 <= e[1] <= 0x2e3)]
        ctx.require(got == want, "program", "boot disk with other texts or own boot code loads something else")
        ctx.count("own_texts")
    ctx.sample()


def number(rng, n):
    """the notations for addresses"""
    return rng.choice(["0x%x" % n, "$%x" % n, "%x" % n, "%04X" % n, "#%d" % n, "%" + format(n, "b")])


def by_command(ctx, layout, run):
    """the boot command; data files come first, then object files"""
    rng = ctx.rng
    d = ctx.tmp()
    plain = [x for x in layout if x[0] not in (0x2e0, 0x2e2)]
    if rng.random() < .5:
        # data files
        argv, order = [], []
        for j, (s, b) in enumerate(plain):
            if rng.random() < .4:
                pre, post = rng.randint(0, 9), rng.randint(1, 9)
                cli.put("%s/f%d" % (d, j), rng.randbytes(pre) + b + rng.randbytes(post))
                arg = "f%d[%d:%d]" % (j, pre, pre + len(b))
            else:
                cli.put("%s/f%d" % (d, j), b)
                arg = "f%d" % j
            argv += ["-d", arg + "@" + number(rng, s)]
            order.append((s, b))
        objrun = None
    else:
        # one executable; its run vector counts unless -r is given
        cli.put(d + "/p.xex", execs.xex(layout, rng))
        argv = ["-b", "p.xex"]
        order, objrun = [], None
        for s, b in layout:
            if s == 0x2e0:
                objrun = objrun or (b[0] | b[1] << 8)
                if len(b) > 2:
                    order.append((0x2e2, b[2:]))
            else:
                order.append((s, b))
        ctx.count("cli_obj")
    if run is not None:
        argv += ["-r", number(rng, run)]
    name = rng.choice(["out.atr", "OUT.ATR", "my disk.atr"])
    old = None
    if rng.random() < .3:
        # there already is a file of that name
        old = rng.randbytes(rng.choice([0, 100, 92176, rng.randint(1, 70000)]))
        cli.put(d + "/" + name, old)
        ctx.count("existing_output")
    r = cli.run([name, "boot"] + argv, d)
    ctx.require(not r.escaped, "escape", "wrote outside: %s" % r.escaped)
    try:
        image = cli.get(d + "/" + name)
    except OSError:
        image = None
    if image == old:
        image = None
    exc = r.exc
    if image is None and exc is None:
        exc = r.out + r.err
    eff = run if run is not None else objrun
    return order, eff, image, exc
