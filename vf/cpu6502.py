"""NMOS 6502 core (documented instructions, binary mode arithmetic plus decimal
flag ignored for compare), written for this framework."""


class CpuError(Exception):
    pass


# opcode: (mnemonic, mode)
OPS = {}


def _def(mn, **modes):
    for mode, op in modes.items():
        OPS[op] = (mn, mode)


_def("ADC", imm=0x69, zp=0x65, zpx=0x75, ab=0x6d, abx=0x7d, aby=0x79, inx=0x61, iny=0x71)
_def("AND", imm=0x29, zp=0x25, zpx=0x35, ab=0x2d, abx=0x3d, aby=0x39, inx=0x21, iny=0x31)
_def("ASL", acc=0x0a, zp=0x06, zpx=0x16, ab=0x0e, abx=0x1e)
_def("BIT", zp=0x24, ab=0x2c)
_def("CMP", imm=0xc9, zp=0xc5, zpx=0xd5, ab=0xcd, abx=0xdd, aby=0xd9, inx=0xc1, iny=0xd1)
_def("CPX", imm=0xe0, zp=0xe4, ab=0xec)
_def("CPY", imm=0xc0, zp=0xc4, ab=0xcc)
_def("DEC", zp=0xc6, zpx=0xd6, ab=0xce, abx=0xde)
_def("EOR", imm=0x49, zp=0x45, zpx=0x55, ab=0x4d, abx=0x5d, aby=0x59, inx=0x41, iny=0x51)
_def("INC", zp=0xe6, zpx=0xf6, ab=0xee, abx=0xfe)
_def("JMP", ab=0x4c, ind=0x6c)
_def("JSR", ab=0x20)
_def("LDA", imm=0xa9, zp=0xa5, zpx=0xb5, ab=0xad, abx=0xbd, aby=0xb9, inx=0xa1, iny=0xb1)
_def("LDX", imm=0xa2, zp=0xa6, zpy=0xb6, ab=0xae, aby=0xbe)
_def("LDY", imm=0xa0, zp=0xa4, zpx=0xb4, ab=0xac, abx=0xbc)
_def("LSR", acc=0x4a, zp=0x46, zpx=0x56, ab=0x4e, abx=0x5e)
_def("ORA", imm=0x09, zp=0x05, zpx=0x15, ab=0x0d, abx=0x1d, aby=0x19, inx=0x01, iny=0x11)
_def("ROL", acc=0x2a, zp=0x26, zpx=0x36, ab=0x2e, abx=0x3e)
_def("ROR", acc=0x6a, zp=0x66, zpx=0x76, ab=0x6e, abx=0x7e)
_def("SBC", imm=0xe9, zp=0xe5, zpx=0xf5, ab=0xed, abx=0xfd, aby=0xf9, inx=0xe1, iny=0xf1)
_def("STA", zp=0x85, zpx=0x95, ab=0x8d, abx=0x9d, aby=0x99, inx=0x81, iny=0x91)
_def("STX", zp=0x86, zpy=0x96, ab=0x8e)
_def("STY", zp=0x84, zpx=0x94, ab=0x8c)
for _mn, _op in dict(BPL=0x10, BMI=0x30, BVC=0x50, BVS=0x70, BCC=0x90, BCS=0xb0, BNE=0xd0, BEQ=0xf0).items():
    OPS[_op] = (_mn, "rel")
for _mn, _op in dict(CLC=0x18, SEC=0x38, CLI=0x58, SEI=0x78, CLV=0xb8, CLD=0xd8, SED=0xf8, DEX=0xca, DEY=0x88, INX=0xe8, INY=0xc8,
                     NOP=0xea, PHA=0x48, PLA=0x68, PHP=0x08, PLP=0x28, RTS=0x60, RTI=0x40, TAX=0xaa, TXA=0x8a, TAY=0xa8, TYA=0x98,
                     TSX=0xba, TXS=0x9a, BRK=0x00).items():
    OPS[_op] = (_mn, "imp")


class Cpu:
    def __init__(self):
        self.mem = bytearray(65536)
        self.a = self.x = self.y = 0
        self.s = 0xff
        self.c = self.z = self.n = self.v = 0
        self.pc = 0
        self.steps = 0
        self.log_writes = None   # list of (address, value)
        self.io_read = None      # f(address) -> value or None
        self.io_lo, self.io_hi = 0xc000, 0xd000

    def rd(self, a):
        if self.io_read is not None and self.io_lo <= a < self.io_hi:
            v = self.io_read(a)
            if v is not None:
                return v
        return self.mem[a]

    def wr(self, a, v):
        if self.log_writes is not None:
            self.log_writes.append((a, v))
        if self.io_read is not None and self.io_lo <= a < self.io_hi:
            self.io_read(a)
            return
        self.mem[a] = v

    def push(self, v):
        self.mem[0x100 + self.s] = v
        self.s = (self.s - 1) & 255

    def pull(self):
        self.s = (self.s + 1) & 255
        return self.mem[0x100 + self.s]

    def rts(self):
        lo = self.pull()
        self.pc = ((lo | self.pull() << 8) + 1) & 0xffff

    def nz(self, v):
        self.z = int(v == 0)
        self.n = v >> 7
        return v

    def step(self):
        mem = self.mem
        pc = self.pc
        op = mem[pc]
        try:
            mn, mode = OPS[op]
        except KeyError:
            raise CpuError("illegal instruction %02x at %04x" % (op, pc))
        self.steps += 1
        lo = mem[(pc + 1) & 0xffff]
        ad = -1
        if mode == "imp" or mode == "acc":
            self.pc = (pc + 1) & 0xffff
        elif mode == "imm":
            ad = (pc + 1) & 0xffff
            self.pc = (pc + 2) & 0xffff
        elif mode == "zp":
            ad = lo
            self.pc = (pc + 2) & 0xffff
        elif mode == "zpx":
            ad = (lo + self.x) & 255
            self.pc = (pc + 2) & 0xffff
        elif mode == "zpy":
            ad = (lo + self.y) & 255
            self.pc = (pc + 2) & 0xffff
        elif mode == "rel":
            self.pc = (pc + 2) & 0xffff
            ad = (self.pc + (lo if lo < 128 else lo - 256)) & 0xffff
        elif mode == "inx":
            t = (lo + self.x) & 255
            ad = mem[t] | mem[(t + 1) & 255] << 8
            self.pc = (pc + 2) & 0xffff
        elif mode == "iny":
            ad = ((mem[lo] | mem[(lo + 1) & 255] << 8) + self.y) & 0xffff
            self.pc = (pc + 2) & 0xffff
        else:
            ad = lo | mem[(pc + 2) & 0xffff] << 8
            self.pc = (pc + 3) & 0xffff
            if mode == "abx":
                ad = (ad + self.x) & 0xffff
            elif mode == "aby":
                ad = (ad + self.y) & 0xffff
            elif mode == "ind":
                ad = mem[ad] | mem[(ad & 0xff00) | ((ad + 1) & 255)] << 8

        if mn == "LDA":
            self.a = self.nz(self.rd(ad))
        elif mn == "STA":
            self.wr(ad, self.a)
        elif mn == "LDX":
            self.x = self.nz(self.rd(ad))
        elif mn == "LDY":
            self.y = self.nz(self.rd(ad))
        elif mn == "STX":
            self.wr(ad, self.x)
        elif mn == "STY":
            self.wr(ad, self.y)
        elif mode == "rel":
            take = {"BPL": not self.n, "BMI": self.n, "BVC": not self.v, "BVS": self.v, "BCC": not self.c, "BCS": self.c,
                    "BNE": not self.z, "BEQ": self.z}[mn]
            if take:
                self.pc = ad
        elif mn == "CMP":
            self.compare(self.a, self.rd(ad))
        elif mn == "CPX":
            self.compare(self.x, self.rd(ad))
        elif mn == "CPY":
            self.compare(self.y, self.rd(ad))
        elif mn == "INC":
            self.wr(ad, self.nz((self.rd(ad) + 1) & 255))
        elif mn == "DEC":
            self.wr(ad, self.nz((self.rd(ad) - 1) & 255))
        elif mn == "INX":
            self.x = self.nz((self.x + 1) & 255)
        elif mn == "INY":
            self.y = self.nz((self.y + 1) & 255)
        elif mn == "DEX":
            self.x = self.nz((self.x - 1) & 255)
        elif mn == "DEY":
            self.y = self.nz((self.y - 1) & 255)
        elif mn == "ADC":
            self.add(self.rd(ad))
        elif mn == "SBC":
            self.add(self.rd(ad) ^ 255)
        elif mn == "AND":
            self.a = self.nz(self.a & self.rd(ad))
        elif mn == "ORA":
            self.a = self.nz(self.a | self.rd(ad))
        elif mn == "EOR":
            self.a = self.nz(self.a ^ self.rd(ad))
        elif mn == "BIT":
            v = self.rd(ad)
            self.z = int(not v & self.a)
            self.n = v >> 7
            self.v = v >> 6 & 1
        elif mn in ("ASL", "LSR", "ROL", "ROR"):
            v = self.a if mode == "acc" else self.rd(ad)
            c = self.c
            if mn == "ASL" or mn == "ROL":
                self.c = v >> 7
                v = (v << 1 & 255) | (c if mn == "ROL" else 0)
            else:
                self.c = v & 1
                v = v >> 1 | (c << 7 if mn == "ROR" else 0)
            self.nz(v)
            if mode == "acc":
                self.a = v
            else:
                self.wr(ad, v)
        elif mn == "JMP":
            self.pc = ad
        elif mn == "JSR":
            r = (pc + 2) & 0xffff
            self.push(r >> 8)
            self.push(r & 255)
            self.pc = ad
        elif mn == "RTS":
            self.rts()
        elif mn == "TAX":
            self.x = self.nz(self.a)
        elif mn == "TAY":
            self.y = self.nz(self.a)
        elif mn == "TXA":
            self.a = self.nz(self.x)
        elif mn == "TYA":
            self.a = self.nz(self.y)
        elif mn == "TSX":
            self.x = self.nz(self.s)
        elif mn == "TXS":
            self.s = self.x
        elif mn == "PHA":
            self.push(self.a)
        elif mn == "PLA":
            self.a = self.nz(self.pull())
        elif mn == "PHP":
            self.push(self.n << 7 | self.v << 6 | 0x30 | self.z << 1 | self.c)
        elif mn == "PLP":
            p = self.pull()
            self.n, self.v, self.z, self.c = p >> 7, p >> 6 & 1, p >> 1 & 1, p & 1
        elif mn == "CLC":
            self.c = 0
        elif mn == "SEC":
            self.c = 1
        elif mn == "CLV":
            self.v = 0
        elif mn in ("NOP", "CLI", "SEI", "CLD"):
            pass
        else:
            raise CpuError("%s at %04x" % (mn, pc))

    def compare(self, r, v):
        self.c = int(r >= v)
        self.nz((r - v) & 255)

    def add(self, v):
        t = self.a + v + self.c
        self.v = int(bool((self.a ^ t) & (v ^ t) & 0x80))
        self.c = t >> 8
        self.a = self.nz(t & 255)


class AtariBoot:
    """Boots a single density image the way the OS does; the serial I/O call
    (SIOV) is a stand-in that delivers sectors.  events: ("write", a, v) of the
    program being loaded, ("init", a), ("run", a)"""

    def __init__(self, image, limit=8000000):
        if image[0:2] != b"\x96\x02":
            raise CpuError("no ATR header")
        self.secsize = image[4] | image[5] << 8
        paras = image[2] | image[3] << 8 | image[6] << 16
        self.disk = image[16:]
        if paras * 16 != len(self.disk):
            raise CpuError("header says %d bytes, image has %d" % (paras * 16, len(self.disk)))
        if self.secsize != 128:
            raise CpuError("sector size %d" % self.secsize)
        self.cpu = Cpu()
        self.limit = limit
        self.events = []
        self.reads = []
        self.boot()

    def sector(self, n):
        if n < 1 or n * 128 > len(self.disk):
            return None
        return self.disk[(n - 1) * 128:n * 128]

    def boot(self):
        c = self.cpu
        first = self.sector(1)
        nsec, load = first[1], first[2] | first[3] << 8
        for i in range(nsec):
            s = self.sector(1 + i)
            if s is None:
                raise CpuError("boot sector %d isn't on the disk" % (1 + i))
            c.mem[load + i * 128:load + i * 128 + 128] = s
        end = load + nsec * 128
        region = range(load, end)
        c.s = 0xf7
        c.push(0xc6)   # return address in the OS
        c.push(0x00)
        level = c.s
        c.pc = load + 6
        via = None
        while True:
            if c.steps > self.limit:
                raise CpuError("still running after %d instructions, at %04x" % (c.steps, c.pc))
            pc = c.pc
            if pc == 0xe459:
                self.sio()
                c.rts()
                continue
            if pc not in region:
                # the loader leaves through one of the two vectors
                if via == 0x2e0:
                    self.events.append(("run", pc))
                    return
                if via == 0x2e2 and c.s == (level - 2) & 255:
                    self.events.append(("init", pc))
                    c.rts()
                    continue
                raise CpuError("jump to %04x" % pc)
            op = c.mem[pc]
            via = c.mem[pc + 1] | c.mem[pc + 2] << 8 if op == 0x6c else None
            # stores into the program area (anything outside of OS variables, hardware and the loader)
            before = c.log_writes
            c.log_writes = w = []
            c.step()
            c.log_writes = before
            for a, v in w:
                if user(a) and a not in region:
                    self.events.append(("write", a, v))
            if op == 0:
                raise CpuError("BRK at %04x" % pc)

    def sio(self):
        m = self.cpu.mem
        dev, unit, cmd, stat = m[0x300], m[0x301], m[0x302], m[0x303]
        buf = m[0x304] | m[0x305] << 8
        n = m[0x308] | m[0x309] << 8
        sec = m[0x30a] | m[0x30b] << 8
        data = self.sector(sec)
        self.reads.append(sec)
        ok = dev == 0x31 and unit == 1 and cmd == 0x52 and stat == 0x40 and n == 128 and data is not None
        if ok:
            m[buf:buf + 128] = data
        status = 1 if ok else 139
        m[0x303] = status
        self.cpu.y = self.cpu.nz(status)


def user(a):
    return 0x480 <= a < 0xc000 or 0x2e0 <= a <= 0x2e3


# physical sector -> position in a DOS order image
SKEW = [0, 7, 14, 6, 13, 5, 12, 4, 11, 3, 10, 2, 9, 1, 8, 15]


class AppleBoot:
    """Boots a 140K DOS order image from slot 6: sector read entry of the Disk II
    ROM, head stepper, WAIT and a monitor routine are stand-ins"""

    def __init__(self, image, limit=3000000):
        if len(image) != 143360:
            raise CpuError("image has %d bytes" % len(image))
        self.disk = image
        self.cpu = c = Cpu()
        self.limit = limit
        self.half = 0      # head position in half tracks
        self.reads = []    # (track, physical sector, page)
        self.switches = []
        c.io_read = self.io
        c.mem[0x2b] = 0x60
        c.x = 0x60
        c.mem[0x26] = 0
        c.mem[0x27] = 8
        c.mem[0x3d] = 0
        c.mem[0x41] = 0
        self.loaded = {}
        self.rom_read()
        self.run()

    def io(self, a):
        if 0xc0e0 <= a < 0xc0e8:
            phase, on = (a & 7) >> 1, a & 1
            if on:
                cur = self.half & 3
                if phase == (cur + 1) & 3:
                    self.half = min(self.half + 1, 79)
                elif phase == (cur - 1) & 3:
                    self.half = max(self.half - 1, 0)
        elif 0xc050 <= a < 0xc058:
            self.switches.append(a)
        else:
            raise CpuError("access to %04x" % a)
        return 0

    def rom_read(self):
        """$C65C: read track $41, sector $3D to page $27, then jump to $0801"""
        c = self.cpu
        m = c.mem
        track, sec, page = m[0x41], m[0x3d], m[0x27]
        if self.half != track * 2:
            raise CpuError("looking for track %d while the head is at %.1f" % (track, self.half / 2))
        if track > 34 or sec > 15:
            raise CpuError("track %d sector %d isn't on the disk" % (track, sec))
        p = (track * 16 + SKEW[sec]) * 256
        m[page * 256:page * 256 + 256] = self.disk[p:p + 256]
        self.reads.append((track, sec, page))
        m[0x40] = track
        m[0x3d] = (sec + 1) & 255
        m[0x27] = (page + 1) & 255
        c.a = m[0x3d]
        c.compare(c.a, m[0x800])
        c.x = m[0x2b]
        c.y = 0
        c.pc = 0x801

    def run(self):
        c = self.cpu
        while True:
            if c.steps > self.limit:
                raise CpuError("still running after %d instructions, at %04x" % (c.steps, c.pc))
            pc = c.pc
            if pc == 0xc65c:
                self.rom_read()
            elif pc == 0xf87b:
                c.c = c.a >> 3 & 1
                c.a = c.nz(c.a >> 4)
                c.rts()
            elif pc == 0xfca8:
                # WAIT counts A down with SBC: it ends with A=0 and carry set
                c.a = c.nz(0)
                c.c = 1
                c.rts()
            elif 0x800 <= pc < 0x900:
                c.step()
            else:
                self.start = pc
                return
