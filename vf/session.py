"""Drives one disk image through a random history of operations.

Every operation becomes an event with the image bytes before and after, the
exception (if any) and independent readings of both states.  Monitors judge
the events; nothing of the code under test is used for judging.
"""
import os
import sys

import numpy as np

import atrcopy
from atrcopy import errors

import atarifs
import dos33fs
from atarifs import FsError
from core import REPO

TEMPLATES = ["dos2dd.atr", "dos2ed+2.5.atr", "dos2ed.atr", "dos2sd+2.0s.atr", "dos2sd.atr", "dos33.dsk", "dos33autobrun.dsk"]
SAMPLES = ["dos_%s_test%d.atr" % (d, n) for d in ("sd", "ed", "dd") for n in range(1, 6)] + ["dos33_master.dsk"]
SIZES = [92160, 133120, 183936, 184320]

_cache = {}


def load(kind, name):
    key = (kind, name)
    if key not in _cache:
        d = os.path.join(REPO, "atrcopy/templates" if kind == "template" else "test_data", name)
        with open(d, "rb") as fh:
            _cache[key] = fh.read()
    return _cache[key]


def open_bytes(data):
    parser, mime = atrcopy.find_diskimage_from_data(bytes(data))
    return parser


def image_bytes(image):
    return image.bytes.tobytes()


# -- generators

FIRST = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
REST = FIRST + "0123456789"


def atari_name(rng):
    n = rng.choice([1, 2, 3, 5, 7, 8, 8, 8])
    s = rng.choice(FIRST) + "".join(rng.choice(REST) for _ in range(n - 1))
    k = rng.choice([0, 0, 1, 2, 3, 3, 3])
    if k:
        s += "." + "".join(rng.choice(REST) for _ in range(k))
    r = rng.random()
    if r < .08:
        s = s.lower()
    elif r < .12 and n > 2:
        # seen on real disks, although DOS itself doesn't accept it
        k = rng.randint(1, n - 2)
        s = s[:k] + rng.choice(" @_-!") + s[k + 1:]
    return s


def apple_name(rng):
    n = rng.choice([1, 2, 5, 8, 12, 20, 29, 30, 30, rng.randint(1, 30)])
    chars = REST + REST + ".-!#$%&'()*+/:;<=>?@ []^_abcdefgz"
    s = rng.choice(FIRST) + "".join(rng.choice(chars) for _ in range(n - 1))
    while s.endswith(" "):
        s = s[:-1] + rng.choice(FIRST)
    if n > 2 and rng.random() < .04:
        s = " " + s[1:]
    return s


def name_for(rng, fs, avoid=()):
    while True:
        s = apple_name(rng) if fs.kind == "dos33" else atari_name(rng)
        if avoid and rng.random() < .06:
            # differs from another name in case only
            t = rng.choice([a for a in avoid if a] or ["X"])
            if isinstance(t, str) and t.isascii() and t.isprintable():
                s = t.swapcase()
        if s not in avoid:
            return s


def content(rng, size):
    """unique-ish contents of various flavours"""
    r = rng.random()
    if size == 0:
        return b""
    if r < .6:
        return rng.randbytes(size)
    if r < .7:
        return bytes(size)
    if r < .78:
        return b"\xff" * size
    if r < .88:
        unit = b"\xff\xff\x00\x20\xff\x20" + rng.randbytes(7)
        return (unit * (size // len(unit) + 1))[:size]
    # every sector of the data can be told apart
    return b"".join(b"%06d\x9b" % i for i in range(size // 7 + 1))[:size]


def file_size(rng, fs, cap=None):
    p = fs.payload
    free = len(fs.free)
    r = rng.random()
    if r < .06:
        n = 0
    elif r < .12:
        n = rng.choice([1, 2, 3])
    elif r < .40:
        n = rng.randint(1, 6) * p + rng.choice([-1, 0, 1])
    elif r < .70:
        n = rng.randint(1, 12 * p)
    elif r < .80:
        n = rng.randint(1, max(1, free // 4)) * p + rng.choice([-1, 0, 1, 17])
    elif r < .86:
        # around the end of the first track/sector list, page borders, ...
        n = rng.choice([121, 122, 123, 243, 244, 245, 255, 256, 257]) * p + rng.choice([-1, 0, 1])
    elif r < .93:
        n = max_data(fs, free) * p + rng.choice([0, 0, -1, -p, -p + 1])
    else:
        n = rng.randint(1, max(1, free)) * p
    n = max(0, n)
    if cap is not None:
        n = min(n, cap)
    return n


def max_data(fs, free):
    """largest number of data sectors that fits in free sectors"""
    if fs.kind == "dos33":
        n = free - -(-free // 123)
        while n + 1 + -(-(n + 1) // 122) <= free:
            n += 1
        while n > 0 and n + -(-n // 122) > free:
            n -= 1
        return n
    return free


def foreign_atari(rng, size=None, header=None, nfiles=None, junk=True, fill=None, mydos=False):
    size = size or rng.choice(SIZES)
    header = rng.random() < .75 if header is None else header
    b = atarifs.Builder(rng, size, header, junk=junk)
    b.order = rng.choice(["random", "random", "reverse", "first"])
    names = set()
    n = nfiles if nfiles is not None else rng.choice([0, 1, 3, 6, 10, 20, 50, 62, 64])
    maxsec = max(1, (600 if fill is None else fill) // max(1, n))
    hidden = rng.choice([0, 0, .2])
    for i in range(n):
        if None not in b.slots:
            break
        name = name_for(rng, AtariLike, names)
        names.add(name)
        sz = rng.choice([0, 1, b.sec - 3, rng.randint(0, maxsec * (b.sec - 3)), rng.randint(0, maxsec * (b.sec - 3))])
        sz = min(sz, maxsec * (b.sec - 3))
        flag = rng.choice([0x42, 0x42, 0x42, 0x62, 0x40, 0x60] + ([0x46, 0x66] if mydos else []))
        b.add(name, content(rng, sz), flag, partial=rng.random() < .3)
        if rng.random() < hidden and None in b.slots and b.free:
            # a file that was never closed or a MyDOS subdirectory: allocated, but not a file in use
            b.add(name_for(rng, AtariLike, names), content(rng, rng.randint(0, 300)), rng.choice([0x03, 0x03, 0x10, 0x30]))
            b.files.pop()
        if rng.random() < .2 and b.files:
            b.delete(rng.choice(b.files)[0])
        if rng.random() < .2 and any(s is not None and s[0] == 0x80 for s in b.slots):
            # DOS reuses the first deleted entry
            slot = [k for k, s in enumerate(b.slots) if s is not None and s[0] == 0x80][0]
            name = name_for(rng, AtariLike, names)
            names.add(name)
            b.slots[slot] = None
            b.add(name, content(rng, rng.randint(0, maxsec * (b.sec - 3))), 0x42, slot=slot)
    return b


class AtariLike:
    kind = "atari"


class AppleLike:
    kind = "dos33"


def foreign_dos33(rng, nfiles=None, junk=True, exotic=True, maxtotal=400):
    b = dos33fs.Builder(rng, ncat=15 if rng.random() < .7 else rng.randint(1, 15), junk=junk)
    b.order = rng.choice(["random", "random", "reverse"])
    names = set()
    cap = 7 * b.ncat
    n = nfiles if nfiles is not None else rng.choice([0, 1, 3, 6, 10, 20, 50, 100])
    n = min(n, cap)
    maxsec = max(1, maxtotal // max(1, n))
    for i in range(n):
        name = name_for(rng, AppleLike, names)
        names.add(name)
        sz = rng.choice([1, 256, 257, rng.randint(0, maxsec * 256), rng.randint(0, maxsec * 256)])
        sz = min(sz, maxsec * 256)
        if rng.random() < .05:
            sz = 0
        flag = rng.choice([0, 1, 2, 4, 4, 8, 0x10, 0x20, 0x40]) | rng.choice([0, 0, 0x80])
        raw = name
        if exotic and rng.random() < .15 and len(name) > 5 and name == name.upper():
            raw = bytearray((c | 0x80) for c in name.ljust(30).encode("ascii"))
            for k in range(len(name)):
                if rng.random() < .4:
                    raw[k] = rng.choice([raw[k] & 0x3f, raw[k] & 0x7f | 0x40 & 0x7f])
            raw = bytes(raw)
        if None not in b.slots:
            break
        b.add(raw, content(rng, sz), flag, holes=exotic and sz > 0 and rng.random() < .08)
        if rng.random() < .2 and b.files:
            b.delete(rng.choice(b.files)[0])
        if rng.random() < .2:
            dead = [k for k, s in enumerate(b.slots) if s is not None and s[0] == 0xff]
            if dead:
                b.slots[dead[0]] = None
                name = name_for(rng, AppleLike, names)
                names.add(name)
                b.add(name, content(rng, rng.randint(0, maxsec * 256)), 4, slot=dead[0])
    return b


def start_image(ctx, kinds=("template", "sample", "foreign"), fmt=None):
    """(description, bytes) of a writable disk image"""
    rng = ctx.rng
    while True:
        kind = rng.choice(kinds)
        if kind == "template":
            name = rng.choice(TEMPLATES)
            if fmt == "dos33":
                name = rng.choice(TEMPLATES[5:])
            data = load(kind, name)
        elif kind == "sample":
            name = rng.choice(SAMPLES + ["dos33_master.dsk"] * 3)
            if fmt == "dos33":
                name = "dos33_master.dsk"
            data = load(kind, name)
        else:
            if fmt == "dos33" or (fmt is None and rng.random() < .35):
                b = foreign_dos33(rng)
                name = "built-dos33"
            else:
                b = foreign_atari(rng, mydos=rng.random() < .25)
                name = "built-atari-%d" % b.size
            data = b.build()
        if fmt == "atari" and len(data) == dos33fs.SIZE:
            continue
        if kind != "foreign" and len(data) != dos33fs.SIZE and rng.random() < .2:
            data = data[16:]
            name += "-noheader"
        elif data[:2] == b"\x96\x02" and len(data) in (92176, 183952, 184336) and rng.random() < .05:
            data += rng.randbytes(16)
            name += "-trailer"
        return name, data


# -- events

class Event:
    pass


class Session:
    def __init__(self, ctx, monitors, start=None, **kw):
        self.ctx = ctx
        self.rng = ctx.rng
        self.monitors = monitors
        self.start, data = start or start_image(ctx, **kw)
        self.initial = data
        self.parser = open_bytes(data)
        self.image = self.parser.image
        self.bytes = image_bytes(self.image)
        self.fs = dos33fs.open_fs(self.bytes)
        self.model = {}     # files written in this session and still there
        self.dead = []      # names deleted in this session
        self.events = 0
        self.opened_from = "bytes"
        ctx.log("start", self.start, data)
        ctx.require(self.bytes == data, "open", "opening changed the image")

    @property
    def kind(self):
        return self.fs.kind

    def perform(self, op, *args, **info):
        """run one operation and hand the event to the monitors"""
        ev = Event()
        ev.op, ev.args = op, args
        ev.info = info
        ev.pre, ev.fs_pre = self.bytes, self.fs
        ev.exc = None
        ev.image = self.image
        for m in self.monitors:
            if hasattr(m, "before"):
                m.before(self, ev)
        try:
            if op == "write":
                name, ftype, data = args
                ev.result = self.image.write_file(name, ftype, info.get("as", data))
            elif op == "delete":
                ev.result = self.image.delete_file(args[0])
            elif op == "shred":
                ev.result = self.image.shred(args[0])
            elif op == "reopen":
                path = self.ctx.tmp("disk" + (".dsk" if self.kind == "dos33" else ".atr"))
                how = args[0]
                if how == "file":
                    self.image.save(path)
                    self.parser, _ = atrcopy.find_diskimage(path)
                    self.image = self.parser.image
                    if self.rng.random() < .5:
                        # and saving under its own name
                        self.image.save()
                        self.parser, _ = atrcopy.find_diskimage(path)
                        self.image = self.parser.image
                else:
                    self.parser = open_bytes(image_bytes(self.image))
                    self.image = self.parser.image
        except Exception as e:
            ev.exc = e
        ev.image = self.image
        ev.post = image_bytes(self.image)
        ev.fs_error = None
        try:
            ev.fs_post = dos33fs.open_fs(ev.post)
        except FsError as e:
            ev.fs_error = e
            ev.fs_post = None
        a = args[0] if args else None
        shown = a if isinstance(a, (str, int)) else getattr(a, "filename", repr(a)[:40])
        self.ctx.log(op, shown, len(args[2]) if op == "write" and hasattr(args[2], "__len__") else "",
                     type(ev.exc).__name__ if ev.exc is not None else "ok")
        self.ctx.count("events")
        self.ctx.count("op_%s_%s" % (op, "ok" if ev.exc is None else "failed"))
        self.events += 1
        if ev.exc is None:
            if op == "write":
                self.model[args[0]] = bytes(args[2])
            elif op == "delete":
                n = args[0] if isinstance(args[0], str) else args[0].filename
                self.model.pop(n, None)
                self.dead.append(n)
        for m in self.monitors:
            m.event(self, ev)
        self.bytes = ev.post
        if ev.fs_post is None:
            self.ctx.fail("unreadable", "an independent reader can't read the disk any more: %s" % ev.fs_error)
        self.fs = ev.fs_post
        self.ctx.distinct(self.start, op, ev.exc is None, len(self.fs.files), len(self.fs.free), hash(ev.post))
        return ev

    # -- choosing operations

    def live_names(self):
        return [e.name for e in self.fs.files if e.name]

    def unique_live(self):
        """good files whose name identifies them"""
        names = [e.name for e in self.fs.files]
        return [e for e in self.fs.ok_files() if e.name is not None and names.count(e.name) == 1]

    def new_name(self):
        return name_for(self.rng, self.fs, set(self.live_names()))

    def ftype(self):
        if self.kind == "dos33":
            return self.rng.choice(["B", "B", "T", "A", "I", "S", "R", "a", "b", "", "XEX"])
        return self.rng.choice(["", "", "XEX", "B"])

    def as_arg(self, data):
        r = self.rng.random()
        if r < .7:
            return data
        if r < .95 or len(data) > 2000:
            return np.frombuffer(data, dtype=np.uint8).copy()
        return list(data)

    def write(self, size=None, name=None, cap=None):
        if size is None:
            size = file_size(self.rng, self.fs, cap)
        name = name or self.new_name()
        data = content(self.rng, size)
        return self.perform("write", name, self.ftype(), data, **{"as": self.as_arg(data)})

    def delete_some(self):
        good = self.unique_live()
        if not good:
            return self.write()
        e = self.rng.choice(good)
        arg = e.name
        if self.rng.random() < .25:
            for d in self.image.files:
                if d.filename == e.name:
                    arg = d
                    break
        return self.perform("delete", arg)

    def overwrite(self):
        good = self.unique_live()
        if not good:
            return self.write()
        e = self.rng.choice(good)
        self.perform("delete", e.name)
        return self.write(name=e.name)

    def too_big(self):
        n = max_data(self.fs, len(self.fs.free))
        p = self.fs.payload
        size = n * p + self.rng.choice([1, 1, p, 5 * p, 100 * p, 1000 * p])
        return self.write(size=size)

    def exact_fit(self):
        n = max_data(self.fs, len(self.fs.free))
        if n == 0:
            return self.delete_some()
        return self.write(size=n * self.fs.payload - self.rng.choice([0, 0, 1, self.fs.payload - 1]))

    def unknown(self):
        r = self.rng.random()
        if self.dead and r < .6:
            name = self.rng.choice(self.dead)
            if name in self.live_names():
                name = self.new_name()
        else:
            name = self.new_name()
        return self.perform("delete", name)

    def bad_write(self):
        r = self.rng.random()
        name = self.new_name()
        data = content(self.rng, file_size(self.rng, self.fs, 20000))
        if r < .35:
            name = self.rng.choice(["\u263a.TXT", "A\u0141B", "\u4e2d\u6587"])
            return self.perform("write", name, self.ftype(), data)
        bad = self.rng.choice(["text", None, 17, 3.5, {"a": 1}, ["x"], (1, 2), object()])
        return self.perform("write", name, self.ftype(), bad, bad=True)

    def fill_directory(self):
        limit = 110
        while limit and self.fs.free_slot() is not None and len(self.fs.free) > 4:
            ev = self.write(size=self.rng.choice([0, 1, 5, 100]))
            limit -= 1
            if ev.exc is not None:
                break
        self.write(size=self.rng.choice([0, 1, 300]))
        self.write(size=self.rng.choice([1, 3000]))

    def reopen(self):
        return self.perform("reopen", self.rng.choice(["file", "file", "bytes"]))

    def shred(self):
        return self.perform("shred", self.rng.choice([0, 0, 1, 0x55, 255]))

    MIX = (("write", 34), ("delete_some", 20), ("overwrite", 8), ("too_big", 7), ("exact_fit", 5),
           ("unknown", 5), ("bad_write", 3), ("reopen", 8), ("shred", 2), ("fill_directory", 1))

    def run(self, n, mix=None):
        mix = mix or self.MIX
        ops = [k for k, w in mix for _ in range(w)]
        for _ in range(n):
            getattr(self, self.rng.choice(ops))()
        self.reopen()
        for m in self.monitors:
            if hasattr(m, "end"):
                m.end(self)
        self.ctx.sample()
