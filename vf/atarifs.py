"""Independent implementation of the Atari DOS 2 / 2.5 disk layout.

Pure Python, written from the format documentation, shares no code with the
package under test: reader, consistency data and disk builder.
"""

class FsError(Exception):
    pass

GEOMETRY = {  # payload size: (sector size, boot sector size, boot sectors)
    92160: (128, 128, 3),
    133120: (128, 128, 3),
    184320: (256, 256, 3),
    183936: (256, 128, 3),
}
SYSTEM = frozenset([0, 1, 2, 3] + list(range(360, 369)))


class Entry:
    def __init__(self, num, raw):
        self.num = num
        self.raw = bytes(raw)
        self.flag = raw[0]
        self.count = raw[1] | raw[2] << 8
        self.start = raw[3] | raw[4] << 8
        self.rawname = bytes(raw[5:13])
        self.rawext = bytes(raw[13:16])

    live = property(lambda self: bool(self.flag & 0x40))
    deleted = property(lambda self: bool(self.flag & 0x80) and not self.flag & 0x40)
    locked = property(lambda self: bool(self.flag & 0x20))
    # a new file may take this entry
    reusable = property(lambda self: not self.flag & 0x40 and (self.flag & 0x80 or self.flag == 0))

    @property
    def name(self):
        n = self.rawname.rstrip(b" ").decode("latin1")
        e = self.rawext.rstrip(b" ").decode("latin1")
        return n + "." + e if e else n

    @property
    def ident(self):
        return (self.raw,)


class AtariFs:
    kind = "atari"

    def __init__(self, data):
        self.data = data = bytes(data)
        self.hdr = 16 if data[0:2] == b"\x96\x02" else 0
        if self.hdr:
            self.sec = data[4] | data[5] << 8
            size = ((data[2] | data[3] << 8) | data[6] << 16) * 16
        size = len(data) - self.hdr
        if size - 16 in GEOMETRY and size != 133136 and self.hdr:
            size -= 16      # some extra bytes at the end
        if size not in GEOMETRY:
            raise FsError("size %d" % size)
        self.size = size
        self.sec, self.bootsize, self.nboot = GEOMETRY[size]
        self.nsec = self.nboot + (size - self.nboot * self.bootsize) // self.sec
        self.payload = self.sec - 3
        self.pagesize = self.sec
        v = self.sector(360)
        self.vtoc = v
        self.total = v[1] | v[2] << 8
        self.free_count = v[3] | v[4] << 8
        self.free = set(s for s in range(720) if v[10 + s // 8] >> (7 - s % 8) & 1)
        self.free2 = None
        if size == 133120:
            v2 = self.sector(1024)
            self.free2 = v2[122] | v2[123] << 8
        self.entries = []  # up to the end-of-directory marker
        self.all_entries = []
        ended = False
        for i in range(64):
            d = self.sector(361 + i // 8)
            e = Entry(i, d[(i % 8) * 16:(i % 8) * 16 + 16])
            self.all_entries.append(e)
            if e.flag == 0:
                ended = True
            if not ended:
                self.entries.append(e)
        self.files = [e for e in self.entries if e.live]

    def pos(self, n):
        if n < 1 or n > self.nsec:
            raise FsError("sector %d" % n)
        if n <= self.nboot:
            return self.hdr + (n - 1) * self.bootsize, self.bootsize
        return self.hdr + self.nboot * self.bootsize + (n - 1 - self.nboot) * self.sec, self.sec

    def sector(self, n):
        p, s = self.pos(n)
        return self.data[p:p + s]

    def chain(self, e):
        """sector numbers and contents"""
        seen = []
        out = []
        n = e.start
        mydos = e.flag & 4
        while True:
            if n in seen or len(seen) > 1040:
                raise FsError("loop")
            s = self.sector(n)
            if len(s) != self.sec:
                raise FsError("boot sector in chain")
            seen.append(n)
            link = s[-3:]
            if not mydos and link[0] >> 2 != e.num:
                raise FsError("file number")
            if link[2] > self.sec - 3:
                raise FsError("byte count")
            out.append(s[:link[2]])
            n = (link[0] if mydos else link[0] & 3) << 8 | link[1]
            if n == 0:
                break
        return seen, b"".join(out)

    def content(self, e):
        return self.chain(e)[1]

    def sectors(self, e):
        return self.chain(e)[0]

    def ok_files(self):
        r = []
        for e in self.files:
            try:
                self.chain(e)
            except FsError:
                continue
            r.append(e)
        return r

    def free_slot(self):
        """number of the slot a new file can take, or None"""
        for e in self.all_entries:
            if e.reusable:
                return e.num
            if e.flag == 0:
                break
        return None

    def needed(self, size):
        return max(1, -(-size // self.payload))

    def padded(self, size):
        return size

    system = SYSTEM

    def dir_ranges(self):
        return [(self.pos(361 + i)[0], self.pos(361 + i)[0] + 128) for i in range(8)]

    def vtoc_ranges(self):
        p, _ = self.pos(360)
        return [(p + 3, p + 5), (p + 10, p + 100)]

    def sector_ranges(self, nums):
        r = []
        for n in nums:
            if 1 <= n <= self.nsec:
                p, s = self.pos(n)
                r.append((p, p + s))
        return r

    def allocatable(self):
        return self.free


# -- builder

def atr_header(size, sec):
    par = size // 16
    return bytes([0x96, 0x02, par & 255, par >> 8 & 255, sec & 255, sec >> 8, par >> 16 & 255]) + bytes(9)


class Builder:
    """Makes a disk the way a native DOS could have left it"""

    def __init__(self, rng, size, header=True, junk=True):
        self.rng = rng
        self.size = size
        self.header = header
        self.sec, self.bootsize, self.nboot = GEOMETRY[size]
        self.nsec = self.nboot + (size - self.nboot * self.bootsize) // self.sec
        b = bytearray(size)
        if junk:
            # whatever was on the sectors before
            b[:] = rng.randbytes(size) if hasattr(rng, "randbytes") else bytes(rng.getrandbits(8) for _ in range(size))
        self.b = b
        usable = [n for n in range(4, 720) if n not in SYSTEM]
        self.free = list(usable)
        self.slots = [None] * 64
        self.files = []   # (slot, name, data, flag, sectors)
        for n in range(360, 369):
            p, s = self.pos(n)
            b[p:p + s] = bytes(s)
        for n in (1, 2, 3):
            p, s = self.pos(n)
            b[p] = 0
        # boot header that isn't KBoot, SpartaDOS
        p, _ = self.pos(1)
        b[p:p + 16] = bytes([0, 3, 0, 7, 0x40, 0x15, 0x4c, 0x14, 0x07, 3, 3, 0, 0x7c, 0x1a, 1, 4])
        self.order = "random"

    def pos(self, n):
        if n <= self.nboot:
            return (n - 1) * self.bootsize, self.bootsize
        return self.nboot * self.bootsize + (n - 1 - self.nboot) * self.sec, self.sec

    def take(self, n):
        if self.order == "random":
            idx = sorted(self.rng.sample(range(len(self.free)), n), reverse=True)
            got = [self.free.pop(i) for i in idx]
            self.rng.shuffle(got)
        elif self.order == "reverse":
            got = [self.free.pop() for _ in range(n)]
        else:
            got = self.free[:n]
            del self.free[:n]
        return got

    def room(self):
        return len(self.free)

    def add(self, name, data, flag=0x42, slot=None, partial=False):
        """partial: some sectors of the chain aren't full (appended files)"""
        if slot is None:
            slot = self.slots.index(None)
        payload = self.sec - 3
        pieces = []
        i = 0
        while i < len(data):
            k = min(payload, len(data) - i)
            if partial and self.rng.random() < .3:
                k = self.rng.randint(1, k)
            pieces.append(data[i:i + k])
            i += k
        if not pieces:
            pieces = [b""]
        if len(pieces) > len(self.free):
            return None
        secs = self.take(len(pieces))
        for j, piece in enumerate(pieces):
            p, s = self.pos(secs[j])
            nxt = secs[j + 1] if j + 1 < len(secs) else 0
            self.b[p:p + len(piece)] = piece
            self.b[p + s - 3] = nxt >> 8 if flag & 4 else slot << 2 | nxt >> 8
            self.b[p + s - 2] = nxt & 255
            self.b[p + s - 1] = len(piece)
        n, _, x = name.partition(".")
        raw = bytes([flag, len(secs) & 255, len(secs) >> 8, secs[0] & 255, secs[0] >> 8]) + \
            (n.encode("latin1") + b" " * 8)[:8] + (x.encode("latin1") + b" " * 3)[:3]
        self.slots[slot] = raw
        self.files.append([slot, name, bytes(data), flag, secs])
        return secs

    def delete(self, slot):
        f = [f for f in self.files if f[0] == slot][0]
        self.files.remove(f)
        self.free.extend(f[4])
        self.free.sort()
        raw = bytearray(self.slots[slot])
        raw[0] = 0x80
        k = self.rng.random()
        if k < .1:
            raw[1:5] = bytes(4)
        elif k < .15:
            raw[1:] = bytes(15)
        elif k < .2:
            raw[1:] = self.rng.randbytes(15)
        self.slots[slot] = bytes(raw)

    def build(self):
        b = self.b
        for i, raw in enumerate(self.slots):
            p, _ = self.pos(361 + i // 8)
            p += (i % 8) * 16
            b[p:p + 16] = raw if raw is not None else bytes(16)
        p, _ = self.pos(360)
        total = 707
        b[p] = 2
        b[p + 1], b[p + 2] = total & 255, total >> 8
        n = len(self.free)
        b[p + 3], b[p + 4] = n & 255, n >> 8
        bits = bytearray(90)
        for s in self.free:
            bits[s // 8] |= 0x80 >> s % 8
        b[p + 10:p + 100] = bits
        if self.size == 133120:
            b[p + 1], b[p + 2] = 1010 & 255, 1010 >> 8
            q, _ = self.pos(1024)
            # copy of the map of 48-719, then 720-1023 all free
            b[q:q + 128] = bytes(bits[6:90]) + b"\xff" * 38 + bytes(6)
            b[q + 122], b[q + 123] = 303 & 255, 303 >> 8
        return (atr_header(self.size, self.sec) if self.header else b"") + bytes(b)
