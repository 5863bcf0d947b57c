"""Runs the real command line entry point (atrcopy.run) inside a scratch
directory.  Writes, creations and removals outside the scratch directory are
replaced by stand-ins that record the path and refuse."""
import builtins
import contextlib
import io
import os
import shutil
import sys

import atrcopy


class Result:
    pass


WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

_real = {}
for _n in ("open", "mkdir", "makedirs", "remove", "unlink", "rename", "replace", "rmdir", "removedirs", "truncate",
           "symlink", "link", "chmod"):
    _real[_n] = getattr(os, _n)
_real_open = builtins.open
_real_rmtree = shutil.rmtree


class Guard:
    """Confines file system changes of this process to root"""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.escaped = []
        self.writes = []

    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return True  # a file descriptor
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep) or p == os.devnull

    def check(self, what, path):
        if isinstance(path, int):
            return
        self.writes.append((what, os.fsdecode(os.fspath(path))))
        if not self.inside(path):
            self.escaped.append((what, os.fsdecode(os.fspath(path))))
            raise PermissionError("outside of the scratch directory: %r" % (path,))

    def __enter__(self):
        guard = self

        def g_open(file, mode="r", *a, **k):
            if isinstance(mode, str) and set(mode) & set("wax+"):
                guard.check("open", file)
            return _real_open(file, mode, *a, **k)

        def g_osopen(path, flags, *a, **k):
            if flags & WRITE_FLAGS:
                guard.check("os.open", path)
            return _real["open"](path, flags, *a, **k)

        def one(name):
            def f(path, *a, **k):
                guard.check(name, path)
                return _real[name](path, *a, **k)
            return f

        def two(name):
            def f(src, dst, *a, **k):
                guard.check(name, dst)
                if name in ("rename", "replace"):
                    guard.check(name, src)
                return _real[name](src, dst, *a, **k)
            return f

        def g_rmtree(path, *a, **k):
            guard.check("rmtree", path)
            return _real_rmtree(path, *a, **k)

        builtins.open = g_open
        io.open = g_open
        os.open = g_osopen
        for n in ("mkdir", "makedirs", "remove", "unlink", "rmdir", "removedirs", "truncate", "chmod"):
            setattr(os, n, one(n))
        for n in ("rename", "replace", "symlink", "link"):
            setattr(os, n, two(n))
        shutil.rmtree = g_rmtree
        return self

    def __exit__(self, *a):
        builtins.open = _real_open
        io.open = _real_open
        for n, f in _real.items():
            setattr(os, n, f)
        shutil.rmtree = _real_rmtree


def snapshot(root):
    """every directory and file (with contents) below root"""
    out = {}
    for d, dirs, files in os.walk(root):
        for n in dirs:
            out[os.path.relpath(os.path.join(d, n), root)] = None
        for n in files:
            p = os.path.join(d, n)
            try:
                with _real_open(p, "rb") as fh:
                    out[os.path.relpath(p, root)] = fh.read()
            except OSError as e:
                out[os.path.relpath(p, root)] = "unreadable %s" % e
    return out


def run(argv, cwd, root=None):
    """atrcopy ARGV in cwd; only root (default: cwd) may be written to"""
    r = Result()
    r.argv = list(argv)
    out = io.StringIO()
    err = io.StringIO()
    saved = sys.argv
    old = os.getcwd()
    r.exc = None
    r.code = None
    guard = Guard(root or cwd)
    os.chdir(cwd)
    sys.argv = ["atrcopy"] + list(argv)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), guard:
            try:
                atrcopy.run()
            except SystemExit as e:
                r.code = e.code
                r.exc = e if e.code else None
            except Exception as e:
                r.exc = e
    finally:
        sys.argv = saved
        os.chdir(old)
    r.out = out.getvalue()
    r.err = err.getvalue()
    r.escaped = guard.escaped
    r.writes = guard.writes
    return r


def put(path, data):
    with _real_open(path, "wb") as fh:
        fh.write(data)
    return path


def get(path):
    with _real_open(path, "rb") as fh:
        return fh.read()
