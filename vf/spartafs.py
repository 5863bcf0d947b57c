"""Builds SpartaDOS disks (independent of the package under test)"""
from atarifs import GEOMETRY, atr_header


class Builder:
    def __init__(self, rng, size=92160, header=True, junk=True, sectors=None, sec=128):
        self.rng = rng
        if sectors:
            # any number of sectors of any size
            self.sec, self.bootsize, self.nboot = sec, 512 if sec == 512 else 128, 1 if sec == 512 else 3
            size = self.nboot * self.bootsize + (sectors - self.nboot) * sec
        else:
            self.sec, self.bootsize, self.nboot = GEOMETRY[size]
        self.size = size
        self.header = header
        self.nsec = self.nboot + (size - self.nboot * self.bootsize) // self.sec
        self.b = bytearray(rng.randbytes(size)) if junk else bytearray(size)
        self.nbitmap = -(-(self.nsec + 1) // (8 * self.sec))
        self.bitmap = 4
        if self.nboot == 1:
            self.bitmap = 2
        self.free = list(range(self.bitmap + self.nbitmap, self.nsec + 1))
        self.order = "random"
        self.entries = []   # raw 23-byte entries
        self.files = []     # (index, name, data, status)
        self.where = {}     # index: data sectors
        self.maps = {}      # index: map sectors
        self.last = None

    def pos(self, n):
        if n <= self.nboot:
            return (n - 1) * self.bootsize, self.bootsize
        return self.nboot * self.bootsize + (n - 1 - self.nboot) * self.sec, self.sec

    def take(self, n):
        if self.order == "random":
            got = self.rng.sample(self.free, n)
        else:
            got = self.free[:n]
        gone = set(got)
        self.free = [s for s in self.free if s not in gone]
        return got

    def store(self, data):
        """data sectors plus sector map; returns first map sector"""
        n = -(-len(data) // self.sec)
        per = (self.sec - 4) // 2
        nmap = max(1, -(-n // per))
        if n + nmap > len(self.free):
            return None
        maps = self.take(nmap)
        secs = self.take(n)
        self.last = maps, secs
        for i, s in enumerate(secs):
            p, size = self.pos(s)
            piece = data[i * self.sec:(i + 1) * self.sec]
            self.b[p:p + len(piece)] = piece
        for i, m in enumerate(maps):
            p, size = self.pos(m)
            words = [maps[i + 1] if i + 1 < nmap else 0, maps[i - 1] if i else 0] + secs[i * per:(i + 1) * per]
            raw = b"".join(w.to_bytes(2, "little") for w in words)
            self.b[p:p + size] = raw + bytes(size - len(raw))
        return maps[0]

    def add(self, name, data, status=0x08):
        m = self.store(data)
        if m is None:
            return False
        n, _, x = name.partition(".")
        raw = bytes([status]) + m.to_bytes(2, "little") + len(data).to_bytes(3, "little") + n.encode("latin1").ljust(8) + \
            x.encode("latin1").ljust(3) + bytes([self.rng.randint(1, 28), self.rng.randint(1, 12), self.rng.randint(80, 99)]) + \
            bytes([self.rng.randint(0, 23), self.rng.randint(0, 59), self.rng.randint(0, 59)])
        self.entries.append(raw)
        self.files.append((len(self.entries), name, bytes(data), status))
        self.maps[len(self.entries)], self.where[len(self.entries)] = self.last
        return True

    def delete(self, name, data):
        """an entry whose sectors were given back (and may be used again)"""
        before = self.free
        if not self.add(name, data, 0x10):
            return False
        self.files.pop()
        self.free = before
        return True

    def truth(self):
        """(name, contents) of the live files"""
        return [(n, d) for i, n, d, st in self.files if st & 0x18 == 0x08]

    def build(self):
        b = self.b
        length = 23 * (len(self.entries) + 1)
        head = bytes([0x28]) + bytes(2) + length.to_bytes(3, "little") + b"MAIN".ljust(8) + b"   " + bytes(6)
        self.rootdata = head + b"".join(self.entries)
        root = self.store(self.rootdata)
        if root is None:
            raise ValueError("no room for the directory")
        boot = bytearray(48)
        boot[1] = self.nboot
        boot[2:4] = (0x3000).to_bytes(2, "little")
        boot[4:6] = (0x07e0).to_bytes(2, "little")
        boot[6:9] = bytes([0x4c, 0x80, 0x30])
        boot[9:11] = root.to_bytes(2, "little")
        boot[11:13] = self.nsec.to_bytes(2, "little")
        boot[13:15] = len(self.free).to_bytes(2, "little")
        boot[15] = self.nbitmap
        boot[16:18] = self.bitmap.to_bytes(2, "little")
        boot[18:20] = (self.free[0] if self.free else 0).to_bytes(2, "little")
        boot[20:22] = (self.free[0] if self.free else 0).to_bytes(2, "little")
        boot[22:30] = b"TESTDISK"
        boot[30] = 40
        boot[31] = {128: 0x80, 256: 0, 512: 1}[self.sec]
        boot[32] = 0x21 if self.sec == 512 else self.rng.choice([0x20, 0x21])
        b[0:48] = boot
        p, size = self.pos(self.bitmap)
        bits = bytearray(self.nbitmap * self.sec)
        for s in self.free:
            bits[s // 8] |= 0x80 >> s % 8
        b[p:p + len(bits)] = bits
        return (atr_header(self.size, self.sec) if self.header else b"") + bytes(b)


def random_disk(rng, deleted=True, **kw):
    if rng.random() < .25:
        sec = rng.choice([128, 256, 512])
        b = Builder(rng, sectors=rng.choice([1441, rng.randint(730, 1030), rng.randint(1045, 1430)]), sec=sec, **kw)
    else:
        b = Builder(rng, rng.choice([92160, 133120, 183936]), header=rng.random() < .8, **kw)
    b.order = rng.choice(["random", "first"])
    import session
    names = set()
    n = rng.choice([0, 1, 3, 8, 20, 60])
    maxsec = max(2, 500 // max(1, n))
    per = (b.sec - 4) // 2
    for i in range(n):
        name = session.atari_name(rng)
        if name in names:
            continue
        names.add(name)
        k = rng.random()
        if k < .1:
            size = 0
        elif k < .25:
            size = min(per, maxsec) * b.sec
        elif k < .35 and n <= 3:
            size = 2 * per * b.sec if 2 * per < len(b.free) - 10 else per * b.sec
        else:
            size = rng.randint(1, maxsec * b.sec)
        if deleted and rng.random() < .2:
            b.delete(name, session.content(rng, size))
            if rng.random() < .5:
                # a file of the same name
                b.add(name, session.content(rng, rng.randint(0, 300)), 0x08)
        else:
            b.add(name, session.content(rng, size), rng.choice([0x08, 0x08, 0x09]))
    return b
