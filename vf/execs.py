"""Independent loaders for Atari executables and Apple BSAVE files"""


class BadExec(Exception):
    pass


def parse_xex(b):
    """blocks [(start, data)] of a complete executable, or BadExec"""
    if b[:2] != b"\xff\xff":
        raise BadExec("no header")
    p = 0
    out = []
    while p < len(b):
        if len(b) - p < 2:
            raise BadExec("trailing byte")
        s = b[p] | b[p + 1] << 8
        if s == 0xffff:
            p += 2
            continue
        if len(b) - p < 4:
            raise BadExec("short header")
        e = b[p + 2] | b[p + 3] << 8
        if e < s:
            raise BadExec("end %04x before start %04x" % (e, s))
        n = e - s + 1
        if len(b) - p - 4 < n:
            raise BadExec("short block")
        out.append((s, bytes(b[p + 4:p + 4 + n])))
        p += 4 + n
    return out


def writes(blocks):
    """the sequence of (address, byte) a loader performs, run vector left out"""
    return [(s + i, c) for s, d in blocks for i, c in enumerate(d) if not 0x2e0 <= s + i <= 0x2e1]


def run_vector(blocks, default=None):
    """what a loader finds in RUNAD at the end"""
    mem = {}
    if default is not None:
        mem = {0x2e0: default & 255, 0x2e1: default >> 8}
    for s, d in blocks:
        for a in (0x2e0, 0x2e1):
            if s <= a < s + len(d):
                mem[a] = d[a - s]
    if len(mem) < 2:
        return None
    return mem[0x2e0] | mem[0x2e1] << 8


def parse_bsave(b):
    if len(b) < 4:
        raise BadExec("short")
    start, n = b[0] | b[1] << 8, b[2] | b[3] << 8
    if len(b) - 4 < n:
        raise BadExec("header says %d bytes, file has %d" % (n, len(b) - 4))
    return start, bytes(b[4:4 + n]), bytes(b[4 + n:])


def expected_bsave(segs, run):
    """(origin, image) of the BLOADable file"""
    lo = min(s for s, d in segs)
    hi = max(s + len(d) for s, d in segs)
    mem = bytearray(hi - lo)
    for s, d in segs:
        mem[s - lo:s - lo + len(d)] = d
    if run and run != lo:
        return lo - 3, bytes([0x4c, run & 255, run >> 8]) + bytes(mem)
    return lo, bytes(mem)


def xex(blocks, rng=None):
    out = bytearray(b"\xff\xff")
    for i, (s, d) in enumerate(blocks):
        if i and rng is not None and rng.random() < .3:
            out += b"\xff\xff"
        out += s.to_bytes(2, "little") + (s + len(d) - 1).to_bytes(2, "little") + d
    return bytes(out)
