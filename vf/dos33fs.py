"""Independent implementation of the Apple DOS 3.3 disk layout (140K, DOS
sector order).  Shares no code with the package under test."""

from atarifs import FsError

SIZE = 143360
TYPES = {0: "T", 1: "I", 2: "A", 4: "B", 8: "S", 0x10: "R", 0x20: "a", 0x40: "b"}


class Entry:
    def __init__(self, num, sector, slot, raw):
        self.num = num          # running number over all slots of the catalog
        self.sector = sector
        self.slot = slot
        self.raw = bytes(raw)
        self.track = raw[0]
        self.sec = raw[1]
        self.flag = raw[2]
        self.rawname = bytes(raw[3:33])
        self.count = raw[33] | raw[34] << 8

    deleted = property(lambda self: self.track == 0xff)
    unused = property(lambda self: self.track == 0)
    live = property(lambda self: not self.deleted and not self.unused)
    reusable = property(lambda self: not self.live)
    locked = property(lambda self: bool(self.flag & 0x80))
    type = property(lambda self: TYPES.get(self.flag & 0x7f, "?"))

    @property
    def name(self):
        """as plain text; None if there are inverse or flashing characters"""
        if any(c < 0x80 for c in self.rawname):
            return None
        return bytes(c & 0x7f for c in self.rawname).decode("ascii").rstrip(" ")

    @property
    def ident(self):
        return (self.raw,)


class Dos33Fs:
    kind = "dos33"
    hdr = 0
    payload = 256
    pagesize = 256
    nsec = 560

    def __init__(self, data):
        self.data = data = bytes(data)
        if len(data) != SIZE:
            raise FsError("size")
        self.size = SIZE
        v = self.sector(17 * 16)
        self.vtoc = v
        self.free = set()
        for t in range(35):
            hi, lo = v[0x38 + 4 * t], v[0x39 + 4 * t]
            bits = hi << 8 | lo
            for s in range(16):
                if bits >> s & 1:
                    self.free.add(t * 16 + s)
        self.free_count = None
        self.free2 = None
        self.max_pairs = v[0x27]
        self.catalog = []
        self.all_entries = []
        n = v[1] * 16 + v[2]
        num = 0
        while n:
            if n in self.catalog or n >= 560:
                raise FsError("catalog loop")
            self.catalog.append(n)
            d = self.sector(n)
            for i in range(7):
                self.all_entries.append(Entry(num, n, i, d[0x0b + 35 * i:0x0b + 35 * i + 35]))
                num += 1
            n = d[1] * 16 + d[2]
        self.entries = [e for e in self.all_entries if not e.unused]
        self.files = [e for e in self.all_entries if e.live]
        self.system = frozenset([0, 17 * 16] + self.catalog)

    def pos(self, n):
        if not 0 <= n < 560:
            raise FsError("sector %d" % n)
        return n * 256, 256

    def sector(self, n):
        p, s = self.pos(n)
        return self.data[p:p + s]

    def tslists(self, e):
        lists, secs = [], []
        n = e.track * 16 + e.sec
        while n:
            if n in lists or n >= 560:
                raise FsError("T/S list loop")
            lists.append(n)
            d = self.sector(n)
            for i in range(122):
                t, s = d[0x0c + 2 * i], d[0x0d + 2 * i]
                if t >= 35 or s >= 16:
                    raise FsError("T/S pair")
                secs.append(t * 16 + s)
            n = d[1] * 16 + d[2]
        return lists, secs

    def chain(self, e):
        """all sectors (lists and data), contents (full sectors)"""
        lists, secs = self.tslists(e)
        secs = [s for s in secs if s][:max(0, e.count - len(lists))]
        return lists + secs, b"".join(self.sector(s) for s in secs)

    def content(self, e):
        return self.chain(e)[1]

    def sectors(self, e):
        return self.chain(e)[0]

    def ok_files(self):
        r = []
        for e in self.files:
            try:
                self.chain(e)
            except FsError:
                continue
            r.append(e)
        return r

    def free_slot(self):
        for e in self.all_entries:
            if e.reusable:
                return e.num
        return None

    def needed(self, size):
        n = max(1, -(-size // 256))
        return n + -(-n // 122)

    def padded(self, size):
        return max(1, -(-size // 256)) * 256

    def dir_ranges(self):
        return [(n * 256, n * 256 + 256) for n in self.catalog]

    def vtoc_ranges(self):
        p = 17 * 16 * 256
        return [(p + 0x38 + 4 * t, p + 0x3a + 4 * t) for t in range(35)]

    def sector_ranges(self, nums):
        return [(n * 256, n * 256 + 256) for n in nums]

    def allocatable(self):
        return self.free


class Builder:
    def __init__(self, rng, ncat=15, junk=True):
        self.rng = rng
        self.ncat = ncat
        self.b = bytearray(rng.randbytes(SIZE)) if junk else bytearray(SIZE)
        self.b[0:4] = b"\x01\xa5\x27\xc9"
        # catalog normally runs from sector ncat of track 17 down to sector 1
        self.cat = [17 * 16 + ncat - i for i in range(ncat)]
        # disks without DOS have the room for files
        self.free = [n for n in range(16 if rng.random() < .2 else 3 * 16, 560) if n // 16 != 17]
        k = rng.random()
        if k < .08:
            rng.shuffle(self.cat)
        elif k < .16:
            keep = rng.choice([0, 0, 1, ncat // 2])
            self.cat = self.cat[:keep] + rng.sample(self.free, ncat - keep)
            self.free = [n for n in self.free if n not in self.cat]
        if rng.random() < .1:
            self.free += [17 * 16 + n for n in range(1, 16) if 17 * 16 + n not in self.cat]
            self.free.sort()
        self.slots = [None] * (7 * ncat)
        self.files = []  # [slot, rawname(30 bytes), data, flag, lists, secs]
        self.order = "random"

    take = None

    def room(self):
        return len(self.free)

    def add(self, rawname, data, flag=0x04, slot=None, holes=False):
        """rawname: text or 30 raw bytes. holes: insert gaps (sparse file)"""
        if slot is None:
            slot = self.slots.index(None)
        if isinstance(rawname, str):
            rawname = bytes((c | 0x80) for c in rawname.ljust(30).encode("ascii"))
        n = -(-len(data) // 256)
        pairs = list(range(n))
        if holes:
            out = []
            for p in pairs:
                while self.rng.random() < .3:
                    out.append(None)
                out.append(p)
            pairs = out
        nl = max(1, -(-len(pairs) // 122))
        if n + nl > len(self.free):
            return None
        if self.order == "random":
            idx = sorted(self.rng.sample(range(len(self.free)), n + nl), reverse=True)
            got = [self.free.pop(i) for i in idx]
            self.rng.shuffle(got)
        else:
            got = [self.free.pop() for _ in range(n + nl)]
        lists, secs = got[:nl], got[nl:]
        for i, s in enumerate(secs):
            piece = data[i * 256:i * 256 + 256]
            self.b[s * 256:s * 256 + len(piece)] = piece
            if len(piece) < 256:
                self.b[s * 256 + len(piece):s * 256 + 256] = bytes(256 - len(piece))
        for i, s in enumerate(lists):
            d = bytearray(256)
            if i + 1 < nl:
                d[1], d[2] = divmod(lists[i + 1], 16)
            d[5], d[6] = (i * 122) & 255, (i * 122) >> 8
            for j, p in enumerate(pairs[i * 122:i * 122 + 122]):
                if p is not None:
                    d[12 + 2 * j], d[13 + 2 * j] = divmod(secs[p], 16)
            self.b[s * 256:s * 256 + 256] = d
        t, s = divmod(lists[0], 16)
        cnt = n + nl
        self.slots[slot] = bytes([t, s, flag]) + rawname + bytes([cnt & 255, cnt >> 8])
        full = bytes(data) + bytes(-len(data) % 256)
        self.files.append([slot, rawname, full, flag, lists, secs])
        return got

    def delete(self, slot):
        f = [f for f in self.files if f[0] == slot][0]
        self.files.remove(f)
        self.free.extend(f[4] + f[5])
        self.free.sort()
        raw = bytearray(self.slots[slot])
        raw[0x20] = raw[0]
        raw[0] = 0xff
        k = self.rng.random()
        if k < .1:
            raw[0x21:0x23] = bytes(2)
        elif k < .15:
            raw[1:] = bytes(34)
        elif k < .2:
            raw[1:] = self.rng.randbytes(34)
        self.slots[slot] = bytes(raw)

    def build(self):
        b = self.b
        v = bytearray(256)
        v[1], v[2], v[3], v[6] = self.cat[0] // 16, self.cat[0] % 16, 3, 254
        v[0x27] = 122
        v[0x30], v[0x31] = 18, 1
        v[0x34], v[0x35], v[0x37] = 35, 16, 1
        for n in self.free:
            t, s = divmod(n, 16)
            if s >= 8:
                v[0x38 + 4 * t] |= 1 << (s - 8)
            else:
                v[0x39 + 4 * t] |= 1 << s
        p = 17 * 16 * 256
        b[p:p + 256] = v
        for i, q in enumerate(self.cat):
            d = bytearray(256)
            if i + 1 < self.ncat:
                d[1], d[2] = divmod(self.cat[i + 1], 16)
            for j in range(7):
                raw = self.slots[i * 7 + j]
                if raw is not None:
                    d[0x0b + 35 * j:0x0b + 35 * j + 35] = raw
            b[q * 256:q * 256 + 256] = d
        return bytes(b)


def open_fs(data):
    import atarifs
    if len(data) == SIZE:
        return Dos33Fs(data)
    return atarifs.AtariFs(data)
