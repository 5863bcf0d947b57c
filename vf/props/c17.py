from atrcopy.standard_delivery import StandardDeliveryImage

import cli
import contextlib
import cpu6502
import io
import segs

PID = "C17"
RULE = ("random segment lists on separate memory pages (1-30 segments of 1 byte to 140K disk capacity, page aligned or not, screens at $2000 and "
        "$4000, pages in any order, adjacent page runs) are made into boot disks through the class and the boot command; the image is "
        "booted in a 6502 simulation with the sector read entry of the boot ROM and a head position model; memory at the final "
        "jump is compared with the segments; non-trivial: distinct (layout, run address)")
CASES = {"quick": 3600, "thorough": 40000}
REQUIRED = ["booted", "run_default", "run_given", "via_cli", "screen1", "screen2", "long_run", "several_tracks", "unaligned", "interleaved_screen"]
ASSUMPTIONS = ["segments lie in $0400-$07FF or $0900-$BFFF, no two on one memory page; the loader's page list fits the boot sector",
               "no segment starts at $2001 or $4001 (documented special case of the loader)"]
LISTMAX = 256 - 135


def listlen(layout):
    """upper bound for the loader's page list"""
    n = 2
    for s, b in layout:
        pages = (s % 256 + len(b) + 255) // 256
        n += (32 if s >> 8 == 0x20 and pages == 32 else pages if pages < 3 else 2 * ((pages + 31) // 32)) + 1
    return n


def layout_for(ctx):
    rng = ctx.rng
    free = set(range(4, 8)) | set(range(9, 0xc0))
    out = []
    for _ in range(rng.choice([1, 2, 3, 4, 6, 30])):
        if not free:
            break
        k = rng.random()
        if k < .12:
            first, n = rng.choice([0x20, 0x40]), 0x2000
            off = 0
            if rng.random() < .5:
                n = rng.choice([1, 8191, 8185, 4000, 0x2000 + 1, 0x2000 - 256])
        elif k < .2:
            first, n, off = rng.choice([0x20, 0x40]), rng.randint(1, 9000), rng.choice([0, 2, 3, 100, 255])
        else:
            first = rng.choice(sorted(free))
            off = rng.choice([0, 0, 1, 255, rng.randrange(256)])
            n = rng.choice([1, 255, 256, 257, 512, 513, rng.randint(1, 1000), rng.randint(1, 8000), rng.randint(1, 40000)])
            if out and k < .35:
                first = out[-1][0] + len(out[-1][1]) + 255 >> 8
        if off == 1 and first in (0x20, 0x40):
            off = 0
        if first not in free:
            continue
        # as far as pages are free
        room = 0
        while first + room in free:
            room += 1
        n = min(n, room * 256 - off)
        if n <= 0:
            continue
        new = (first * 256 + off, rng.randbytes(n))
        pages = range(first, (first * 256 + off + n - 1 >> 8) + 1)
        if listlen(out + [new]) > LISTMAX:
            continue
        free -= set(pages)
        out.append(new)
    return out


def case(ctx, i):
    rng = ctx.rng
    layout = layout_for(ctx)
    if not layout:
        return
    s, b = rng.choice(layout)
    run = rng.choice([None, s, s + rng.randrange(len(b)), s + len(b) - 1, 0x9f3])
    ctx.log("layout", [(hex(s), len(b)) for s, b in layout], "run", run)
    ctx.distinct(str(layout), run)
    if i % 4 == 0:
        d = ctx.tmp()
        argv = []
        for j, (s, b) in enumerate(layout):
            if rng.random() < .3:
                cli.put("%s/f%d" % (d, j), s.to_bytes(2, "little") + len(b).to_bytes(2, "little") + b)
                argv.append(("-b", "f%d" % j))
            else:
                cli.put("%s/f%d" % (d, j), b)
                argv.append(("-d", "f%d@%x" % (j, s)))
        # data files are placed before object files
        order = [l for l, a in zip(layout, argv) if a[0] == "-d"] + [l for l, a in zip(layout, argv) if a[0] == "-b"]
        argv = [x for a in argv for x in a]
        if run is not None:
            argv += ["-r", "%x" % run]
        name = rng.choice(["out.dsk", "OUT.DSK"])
        if rng.random() < .3:
            # there already is a file of that name
            cli.put(d + "/" + name, rng.randbytes(rng.choice([0, 100, 143360, 143616, rng.randint(1, 200000)])))
            ctx.count("existing_output")
        r = cli.run([name, "boot"] + argv, d)
        ctx.require(r.exc is None and not r.escaped, "failed", "boot command failed: %r %s" % (r.exc, r.err))
        image = cli.get(d + "/" + name)
        layout = order
        ctx.count("via_cli")
    else:
        given = [segs.segment(rng, s, b) for s, b in layout]
        before = segs.snapshot(given)
        with contextlib.redirect_stdout(io.StringIO()):
            made = StandardDeliveryImage.create_boot_image(given, run)
        image = made.bytes.tobytes()
        ctx.require("143360" in str(made), "describe", "140K disk is described as %s" % made)
        ctx.require(segs.snapshot(given) == before, "inputs", "building changed the input segments")
    want = run if run is not None else layout[0][0]
    ctx.count("run_default" if run is None else "run_given")
    try:
        boot = cpu6502.AppleBoot(image)
    except cpu6502.CpuError as e:
        ctx.fail("boot", "the disk doesn't boot: %s" % e)
    ctx.require(boot.start == want, "run", "starts at %04x, wanted %04x" % (boot.start, want))
    mem = boot.cpu.mem
    for s, b in layout:
        got = bytes(mem[s:s + len(b)])
        if got != b:
            j = next(j for j in range(len(b)) if got[j] != b[j])
            ctx.fail("memory", "%04x-%04x: byte at %04x is %02x, wanted %02x" % (s, s + len(b) - 1, s + j, got[j], b[j]))
    # nothing loaded outside of the segments' pages
    pages = set(p for s, b in layout for p in range(s >> 8, (s + len(b) - 1 >> 8) + 1)) | {8}
    stray = [r for r in boot.reads if r[2] not in pages]
    ctx.require(not stray, "stray", "loads other pages: %s" % stray[:3])
    ctx.count("booted")
    ctx.count("sectors_read", len(boot.reads))
    starts = [s >> 8 for s, b in layout]
    ctx.count("screen1", 0x20 in starts)
    ctx.count("screen2", 0x40 in starts)
    ctx.count("interleaved_screen", any(s == 0x2000 and 31 * 256 < len(b) <= 0x2000 for s, b in layout))
    ctx.count("long_run", any(len(b) > 32 * 256 for s, b in layout))
    ctx.count("several_tracks", len(set(r[0] for r in boot.reads)) > 2)
    ctx.count("unaligned", any(s % 256 for s, b in layout))
    ctx.sample()
