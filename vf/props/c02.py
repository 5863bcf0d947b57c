from monitors import NonInterference
from session import Session, content, foreign_atari, foreign_dos33

PID = "C02"
RULE = ("as C01 (random histories on template, sample and independently built images); the monitor compares the raw "
        "directory entries and contents of all other files, read by an independent implementation, and every byte of "
        "the image before and after each operation; some disks have several files of the same name and size, of which one is "
        "deleted through its directory entry; non-trivial: distinct post-operation image states")
CASES = {"quick": 330, "thorough": 3000}
REQUIRED = ["changes_judged", "others_compared", "op_write_ok", "op_delete_ok", "op_reopen_ok", "unclosed_entries_compared", "deleted_one_of_a_name"]
ASSUMPTIONS = ["directory slots and allocation map bytes may be rewritten; files are compared through an independent reader"]


def twins(ctx):
    """disk where several files have the same name and size"""
    rng = ctx.rng
    b = foreign_dos33(rng, nfiles=rng.choice([1, 3, 6, 20]), exotic=False) if rng.random() < .4 else foreign_atari(rng, nfiles=rng.choice([1, 3, 6, 20]))
    for k in range(rng.randint(1, 4)):
        if None in b.slots and b.files and len(b.free) > 20:
            f = rng.choice(b.files)
            if f[4:] and len(f[2]) < len(b.free) * 100:
                b.add(f[1], content(rng, len(f[2])))
    return "twins", b.build()


class Twins(Session):
    def delete_one(self):
        """by directory entry, where the name alone doesn't tell"""
        names = [e.name for e in self.fs.files]
        some = [e for e in self.fs.ok_files() if e.name is not None and names.count(e.name) > 1]
        if not some:
            return self.write()
        e = self.rng.choice(some)
        dirents = list(self.image.files)
        k = [x.num for x in self.fs.files].index(e.num)
        self.ctx.require([d.filename for d in dirents] == names or None in names, "listing", "listing differs from the disk", listed=[d.filename for d in dirents], disk=names)
        return self.perform("delete", dirents[k], target=e)

    MIX = Session.MIX + (("delete_one", 40),)


def case(ctx, i):
    if ctx.rng.random() < .12:
        Twins(ctx, [NonInterference()], start=twins(ctx)).run(ctx.rng.randint(4, 12))
    else:
        Session(ctx, [NonInterference()]).run(ctx.rng.randint(6, 30))
