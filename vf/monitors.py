"""Online monitors over session events (one class per property)"""
import re

from atrcopy import errors
from atarifs import FsError
import dos33fs
import session


def name_of(arg):
    return arg if isinstance(arg, str) else arg.filename


def spans(a, b):
    """ranges where two equally long byte strings differ"""
    if a == b:
        return []
    out = []
    step = 512
    for p in range(0, len(a), step):
        if a[p:p + step] != b[p:p + step]:
            for q in range(p, min(p + step, len(a))):
                if a[q] != b[q]:
                    if out and out[-1][1] == q:
                        out[-1][1] = q + 1
                    else:
                        out.append([q, q + 1])
    return out


def outside(diffs, allowed):
    """first differing range that isn't covered by the allowed ranges"""
    ok = set()
    for s, e in allowed:
        ok.update(range(s, e))
    for s, e in diffs:
        for q in range(s, e):
            if q not in ok:
                return s, e, q
    return None


class RoundTrip:
    """C01"""

    def check(self, ses, image, name):
        ctx = ses.ctx
        want = ses.model[name]
        ctx.count("files_read_back")
        got = image.find_file(name)
        ctx.require(isinstance(got, bytes), "type", "find_file returned %s" % type(got).__name__)
        if ses.kind == "dos33":
            ctx.require(len(got) == ses.fs.padded(len(want)), "length",
                        "%r: wrote %d bytes, read back %d" % (name, len(want), len(got)), wrote=want, read=got)
            ctx.require(got[:len(want)] == want, "content", "%r reads back different data" % name, wrote=want, read=got)
            ctx.require(not any(got[len(want):]), "padding", "%r isn't padded with zeros" % name, wrote=want, read=got)
        else:
            ctx.require(len(got) == len(want), "length",
                        "%r: wrote %d bytes, read back %d" % (name, len(want), len(got)), wrote=want, read=got)
            ctx.require(got == want, "content", "%r reads back different data" % name, wrote=want, read=got)

    def listing(self, ses, image):
        names = [d.filename for d in image.files]
        for name in ses.model:
            n = names.count(name)
            ses.ctx.require(n == 1, "listing", "%r is listed %d times" % (name, n))

    def event(self, ses, ev):
        self.listing(ses, ev.image)
        names = list(ses.model)
        if ev.op == "write" and ev.exc is None:
            self.check(ses, ev.image, ev.args[0])
        if ev.op == "reopen":
            ses.ctx.require(ev.exc is None, "reopen", "saving and opening failed: %r" % ev.exc)
            todo = names
            ses.ctx.count("reopened_with_files", 1 if names else 0)
        else:
            todo = ses.rng.sample(names, min(2, len(names)))
        for n in todo:
            self.check(ses, ev.image, n)


class NonInterference:
    """C02"""

    def view(self, fs):
        """what can be said about each live file"""
        out = []
        for e in fs.files:
            try:
                c = fs.content(e)
            except FsError as x:
                c = "unreadable"
            out.append((e.raw, c))
        return out

    def event(self, ses, ev):
        ctx = ses.ctx
        ctx.require(ev.fs_post is not None, "unreadable", "disk can't be read any more: %s" % ev.fs_error)
        pre, post = self.view(ev.fs_pre), self.view(ev.fs_post)
        if ev.exc is not None or ev.op in ("reopen",):
            if ev.op == "reopen":
                ctx.require(ev.exc is None, "reopen", "%r" % ev.exc)
                ctx.require(ev.pre == ev.post, "saved", "saving and opening again changed the image (%d bytes, %d before)" % (len(ev.post), len(ev.pre)))
            ctx.require(pre == post, "others", "%s that failed or only read changed the files" % ev.op)
            return
        if ev.op == "shred":
            ctx.require(pre == post, "others", "clearing free space changed a file")
            return
        ctx.count("changes_judged")
        diffs = spans(ev.pre, ev.post)
        fs = ev.fs_pre
        # entries of files that were never closed aren't listed, but aren't free either
        pending = [(e.num, e.raw) for e in fs.entries if not e.live and not e.reusable]
        if pending:
            ctx.count("unclosed_entries_compared", len(pending))
            left = {e.num: e.raw for e in ev.fs_post.all_entries}
            for num, raw in pending:
                ctx.require(left[num] == raw, "others", "%s %r changed entry %d, an unclosed file" % (ev.op, name_of(ev.args[0]), num))
        ctx.require(len(ev.pre) == len(ev.post), "size", "the image size changed")
        allowed = fs.dir_ranges() + fs.vtoc_ranges()
        if ev.op == "write":
            # exactly one new file, everyone else as before in the same order
            new = [i for i, v in enumerate(post) if v not in pre]
            rest_ok = False
            for i in range(len(post)):
                if post[:i] + post[i + 1:] == pre:
                    rest_ok = True
                    break
            if not rest_ok:
                gone = [v[0] for v in pre if v not in post]
                ctx.fail("others", "adding %r changed other files" % ev.args[0], changed=gone[:2],
                         became=[post[i][0] for i in new[:3]])
            ctx.count("others_compared", len(pre))
            free = fs.free
            allowed = allowed + fs.sector_ranges(free)
        else:
            name = name_of(ev.args[0])
            which = [fs.files[i] for i in range(len(pre)) if pre[:i] + pre[i + 1:] == post]
            if not which:
                gone = [v[0] for v in pre if v not in post]
                ctx.fail("others", "deleting %r changed other files" % name, changed=gone[:3])
            target = ev.info.get("target")
            if target is not None:
                ctx.count("deleted_one_of_a_name")
                ctx.require(target.num in [e.num for e in which], "others", "deleting entry %d of the files called %r took entry %d instead" % (
                    target.num, name, which[0].num))
            else:
                ctx.require(any(e.name in (None, name) for e in which), "others", "deleting %r took %r instead" % (name, which[0].name))
            ctx.count("others_compared", len(post))
        bad = outside(diffs, allowed)
        ctx.require(bad is None, "stray-write",
                    "%s %r changed byte %s which is neither free space, directory nor allocation map" % (
                        ev.op, name_of(ev.args[0]), bad and hex(bad[2])))
        # what the package itself now lists about the others
        listed = [(d.filename, bool(d.locked)) for d in ev.image.files]
        want = [(e.name, e.locked) for e in ev.fs_post.files]
        if all(w[0] is not None for w in want):
            ctx.require(listed == want, "listing", "listing differs from the disk", listed=listed, disk=want)


class Allocation:
    """C03"""

    def event(self, ses, ev):
        ctx = ses.ctx
        fs, old = ev.fs_post, ev.fs_pre
        ctx.require(fs is not None, "unreadable", "disk can't be read any more: %s" % ev.fs_error)
        if ev.exc is not None or ev.op not in ("write", "delete"):
            ctx.require(fs.free == old.free, "map", "%s changed the allocation map" % ev.op)
            return
        ctx.count("maps_judged")
        owner = {}
        for e in fs.files:
            try:
                secs = fs.sectors(e)
            except FsError as x:
                if any(o.raw == e.raw for o in old.files):
                    continue  # was like that before
                ctx.fail("chain", "%s %r: file %r has a broken sector chain: %s" % (ev.op, name_of(ev.args[0]), e.name, x))
            for s in secs:
                if s in owner:
                    if not self.shared_before(old, s):
                        ctx.fail("double", "sector %d belongs to %r and %r" % (s, owner[s], e.name))
                owner[s] = e.name
                if s in fs.free:
                    if s not in old.free or e.raw not in [o.raw for o in old.files]:
                        ctx.fail("free-in-use", "sector %d of %r is marked free" % (s, e.name))
                if s in fs.system:
                    ctx.fail("system", "file %r uses system sector %d" % (e.name, s))
                ctx.count("sectors_judged")
        pre_used = set(x for e in old.ok_files() for x in old.sectors(e))
        post_used = set(x for e in fs.ok_files() for x in fs.sectors(e))
        added = post_used - pre_used
        removed = pre_used - post_used
        ctx.require(fs.free == (old.free - added) | removed, "map",
                    "allocation map after %s: %d free, expected %d" % (ev.op, len(fs.free), len((old.free - added) | removed)),
                    wrongly_free=sorted(fs.free - ((old.free - added) | removed))[:8],
                    lost=sorted(((old.free - added) | removed) - fs.free)[:8])
        if ev.op == "write":
            ctx.require(added <= old.free, "overwrite", "new file uses sectors that weren't free: %s" % sorted(added - old.free)[:8])
            ctx.require(added, "map", "new file has no sectors")
        if fs.free_count is not None:
            ctx.require(fs.free_count == len(fs.free), "count",
                        "free count on disk is %d, map has %d free sectors" % (fs.free_count, len(fs.free)))

    def shared_before(self, old, s):
        n = 0
        for e in old.ok_files():
            n += s in old.sectors(e)
        return n > 1


class Rollback:
    """C04"""

    def __init__(self):
        self.twin = None

    def before(self, ses, ev):
        self.twin = None
        if getattr(ses, "last_failed", False) and ev.op in ("write", "delete", "shred"):
            # the same operation on a fresh copy that never saw the failure
            self.twin = session.open_bytes(ev.pre).image

    def event(self, ses, ev):
        ctx = ses.ctx
        if ev.exc is not None:
            ctx.count("failures_judged")
            ctx.count("failed_with_" + type(ev.exc).__name__)
            if ev.op != "reopen":
                d = spans(ev.pre, ev.post)
                ctx.require(not d, "not-restored", "%s failed with %s but changed the image at %s" % (
                    ev.op, type(ev.exc).__name__, [hex(x[0]) for x in d[:4]]))
        if self.twin is not None:
            ctx.count("followups_judged")
            twin_exc = None
            arg = ev.args[0]
            if ev.op == "delete" and not isinstance(arg, str):
                arg = arg.filename
            try:
                if ev.op == "write":
                    self.twin.write_file(ev.args[0], ev.args[1], ev.info.get("as", ev.args[2]))
                elif ev.op == "delete":
                    self.twin.delete_file(arg)
                else:
                    self.twin.shred(arg)
            except Exception as e:
                twin_exc = e
            ctx.require(type(twin_exc) is type(ev.exc), "after-failure",
                        "after a failed operation %s gives %r, on a fresh copy %r" % (ev.op, ev.exc, twin_exc))
            tb = session.image_bytes(self.twin)
            ctx.require(tb == ev.post, "after-failure",
                        "after a failed operation %s has a different effect than on a fresh copy" % ev.op)
            a = [(d.filename, bool(d.locked)) for d in self.twin.files]
            b = [(d.filename, bool(d.locked)) for d in ev.image.files]
            ctx.require(a == b, "after-failure", "after a failed operation the listing differs", fresh=a[:10], here=b[:10])
        ses.last_failed = ev.exc is not None


class Space:
    """C05"""

    def event(self, ses, ev):
        ctx = ses.ctx
        old, fs = ev.fs_pre, ev.fs_post
        ctx.require(fs is not None, "unreadable", "disk can't be read any more: %s" % ev.fs_error)
        if ev.op == "write" and not ev.info.get("bad"):
            try:
                ev.args[0].encode("latin1" if ses.kind == "atari" else "ascii")
            except UnicodeError:
                return
            need = old.needed(len(ev.args[2]))
            room = need <= len(old.free)
            slot = old.free_slot() is not None
            what = "%d bytes (%d sectors), %d free" % (len(ev.args[2]), need, len(old.free))
            if room and slot:
                ctx.count("must_succeed")
                if need == len(old.free):
                    ctx.count("exact_fits")
                ctx.require(ev.exc is None, "refused", "write of %s failed: %s: %s" % (what, type(ev.exc).__name__, ev.exc))
                ctx.require(len(fs.free) == len(old.free) - need, "conservation",
                            "write of %s left %d free" % (what, len(fs.free)))
            else:
                ctx.count("must_fail")
                ctx.count("disk_full" if not room else "directory_full")
                ctx.require(ev.exc is not None, "accepted", "write of %s accepted, directory slot free: %s" % (what, slot))
                allowed = []
                if not room:
                    allowed.append(errors.NotEnoughSpaceOnDisk)
                if not slot:
                    allowed.append(errors.NoSpaceInDirectory)
                ctx.require(isinstance(ev.exc, tuple(allowed)), "wrong-error",
                            "write of %s, slot free: %s, failed with %s: %s" % (what, slot, type(ev.exc).__name__, ev.exc))
        elif ev.op == "delete":
            name = name_of(ev.args[0])
            match = [e for e in old.files if e.name == name]
            if match:
                try:
                    n = len(old.sectors(match[0]))
                except FsError:
                    return
                ctx.count("deletes_judged")
                ctx.require(ev.exc is None, "delete-failed", "deleting %r failed: %s: %s" % (name, type(ev.exc).__name__, ev.exc))
                ctx.require(len(fs.free) == len(old.free) + n, "conservation",
                            "deleting %r (%d sectors) took free space from %d to %d" % (name, n, len(old.free), len(fs.free)))
                ctx.require(len(fs.files) == len(old.files) - 1, "slot", "deleting %r left %d of %d files" % (name, len(fs.files), len(old.files)))
                ctx.require(fs.free_slot() is not None, "slot", "no directory slot free after deleting %r" % name)
            else:
                ctx.count("unknown_deletes")
                ctx.require(isinstance(ev.exc, errors.FileNotFound), "not-found",
                            "deleting %r, which isn't on the disk: %r" % (name, ev.exc))
        # reported numbers
        m = re.search(r"\((\d+) free\)", str(ev.image))
        if m and fs.kind == "atari":
            ctx.count("reported_counts")
            n = len(fs.free) + (fs.free2 or 0)
            if fs.free_count == len(fs.free):
                ctx.require(int(m.group(1)) == n, "reported", "image reports %s free sectors, there are %d" % (m.group(1), n))
        m = re.search(r"\((\d+) free\)", str(ev.image.get_vtoc_object()))
        if m:
            ctx.count("reported_counts")
            ctx.require(int(m.group(1)) == len(fs.free), "reported", "map reports %s free sectors, there are %d" % (m.group(1), len(fs.free)))


class Native:
    """C06"""

    def event(self, ses, ev):
        if ev.op != "write" or ev.exc is not None:
            return
        ctx = ses.ctx
        fs, old = ev.fs_post, ev.fs_pre
        ctx.require(fs is not None, "unreadable", "a native reader can't read the disk: %s" % ev.fs_error)
        name, ftype, data = ev.args
        match = [e for e in fs.files if e.name == name]
        ctx.require(len(match) == 1, "name", "%r is on the disk %d times" % (name, len(match)),
                    entries=[e.raw for e in fs.files][-3:])
        e = match[0]
        ctx.count("entries_judged")
        try:
            secs, got = fs.chain(e)
        except FsError as x:
            ctx.fail("chain", "native reader can't follow %r: %s" % (name, x))
        if fs.kind == "atari":
            self.atari(ctx, fs, old, e, name, data, secs, got)
        else:
            self.dos33(ctx, fs, old, e, name, ftype, data, secs, got)
        # the map in native bit order agrees with the native chain
        ctx.require(not set(secs) & fs.free, "map", "native map shows sectors of %r as free" % name,
                    sectors=sorted(set(secs) & fs.free)[:8])

    def atari(self, ctx, fs, old, e, name, data, secs, got):
        ctx.require(e.num == old.free_slot(), "slot", "%r is in entry %d, first free one is %s" % (name, e.num, old.free_slot()))
        ctx.require(e.flag == 0x42, "flag", "%r has flag $%02x" % (name, e.flag))
        n, _, x = name.partition(".")
        ctx.require(e.rawname == n.encode("latin1").ljust(8) and e.rawext == x.encode("latin1").ljust(3), "name",
                    "%r stored as %r %r" % (name, e.rawname, e.rawext))
        ctx.require(e.count == len(secs), "count", "%r has %d sectors, entry says %d" % (name, len(secs), e.count))
        ctx.require(len(secs) == fs.needed(len(data)), "count", "%r of %d bytes takes %d sectors" % (name, len(data), len(secs)))
        ctx.require(got == bytes(data), "content", "native reader gets different data for %r" % name, wrote=data, read=got)
        for i, s in enumerate(secs):
            raw = fs.sector(s)
            ctx.count("links_judged")
            want = fs.payload if i < len(secs) - 1 else len(data) - fs.payload * (len(secs) - 1)
            ctx.require(raw[-1] == want, "bytes", "sector %d of %r says %d bytes, expected %d" % (s, name, raw[-1], want))
            ctx.require(raw[-3] >> 2 == e.num, "file-number", "sector %d of %r has file number %d" % (s, name, raw[-3] >> 2))
        raw = fs.sector(secs[-1])
        ctx.require(raw[-3] & 3 == 0 and raw[-2] == 0, "last-link", "last sector of %r has a link" % name)
        ctx.require(fs.free_count == len(fs.free), "count", "free count %d, map %d" % (fs.free_count, len(fs.free)))

    def dos33(self, ctx, fs, old, e, name, ftype, data, secs, got):
        codes = {"T": 0, "I": 1, "A": 2, "B": 4, "S": 8, "R": 0x10, "a": 0x20, "b": 0x40}
        ctx.require(e.flag == codes.get(ftype, 4), "type", "%r of type %r has type byte $%02x" % (name, ftype, e.flag))
        ctx.require(e.rawname == bytes(c | 0x80 for c in name.ljust(30).encode("ascii")), "name", "%r stored as %r" % (name, e.rawname))
        lists, pairs = fs.tslists(e)
        nd = max(1, -(-len(data) // 256))
        ctx.require(len(lists) == -(-nd // 122), "lists", "%r with %d data sectors has %d track/sector lists" % (name, nd, len(lists)))
        ctx.require(all(pairs[:nd]) and not any(pairs[nd:]), "lists", "%r: list entries don't match its %d sectors" % (name, nd))
        ctx.require(e.count == nd + len(lists), "count", "%r uses %d sectors, entry says %d" % (name, nd + len(lists), e.count))
        for i, s in enumerate(lists):
            raw = fs.sector(s)
            ctx.count("links_judged")
            ctx.require(raw[5] | raw[6] << 8 == i * 122, "offset", "list %d of %r has offset %d" % (i, name, raw[5] | raw[6] << 8))
            ctx.require(not raw[0] and not raw[3] and not raw[4] and not any(raw[7:12]), "reserved", "reserved bytes of list %d of %r are set" % (i, name))
        full = bytes(data) + bytes(nd * 256 - len(data))
        ctx.require(got == full, "content", "native reader gets different data for %r" % name, wrote=data, read=got)
        # native DOS stops looking at the first unused entry
        used = [x.unused for x in fs.all_entries[:e.num]]
        ctx.require(not any(used), "catalog", "unused catalog entry before %r" % name)
        ctx.require(fs.catalog == old.catalog, "catalog", "catalog chain changed", before=old.catalog, after=fs.catalog)
        ctx.require(fs.vtoc[:0x38] == old.vtoc[:0x38], "vtoc", "volume information changed")


class Shred:
    """C23"""

    def event(self, ses, ev):
        if ev.op != "shred":
            return
        ctx = ses.ctx
        ctx.require(ev.exc is None, "failed", "clearing free space failed: %r" % ev.exc)
        fs = ev.fs_pre
        want = bytearray(ev.pre)
        for s, e in fs.sector_ranges(fs.free):
            want[s:e] = bytes([ev.args[0]]) * (e - s)
        ctx.count("shreds_judged")
        ctx.count("sectors_cleared", len(fs.free))
        d = spans(bytes(want), ev.post)
        ctx.require(not d, "bytes", "clearing free space with %d: wrong bytes at %s" % (ev.args[0], [hex(x[0]) for x in d[:4]]))
