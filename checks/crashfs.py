"""Crash and torn-write injection for Python file I/O in a scratch directory.

Every operation that changes the file system below the directory (opening a
file for writing, each write with torn prefixes, renaming, removing) is a
numbered crash point.  Running with `crash_at=k` stops the process image at
point k: `Crash` is raised and from then on nothing can change the directory
any more, so clean-up code that a killed process would not execute has no
effect.  Files written before stay as the operating system saw them.
"""
import builtins
import contextlib
import io
import os


class Crash(BaseException):
    """The process was killed here."""


class CrashFS:

    def __init__(self, root, crash_at=None, torn=None):
        self.root = os.path.realpath(root)
        self.crash_at = crash_at
        self.n = 0
        self.log = []
        self.dead = False

    # -- bookkeeping
    def inside(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p == self.root or p.startswith(self.root + os.sep)

    def point(self, what):
        """One crash point; raises if the process dies before `what`."""
        if self.dead:
            raise Crash()
        if self.crash_at is not None and self.n == self.crash_at:
            self.dead = True
            self.log.append(("CRASH", what))
            raise Crash()
        self.n += 1
        self.log.append(what)

    @contextlib.contextmanager
    def active(self):
        fs = self
        real_open, real_replace = builtins.open, os.replace
        real_rename, real_remove = os.rename, os.remove
        real_unlink, real_link = os.unlink, os.link
        real_truncate = os.truncate

        def my_open(file, mode="r", *args, **kwargs):
            writing = any(c in mode for c in "wax+")
            if isinstance(file, int) or not writing or not fs.inside(file):
                return real_open(file, mode, *args, **kwargs)
            fs.point(("open", os.path.basename(os.fspath(file))))
            f = real_open(file, mode, *args, **kwargs)
            return TornFile(fs, f, os.path.basename(str(file)))

        def two(real, name):

            def op(src, dst, *args, **kwargs):
                if fs.inside(src) or fs.inside(dst):
                    fs.point((name, os.path.basename(os.fspath(src)),
                              os.path.basename(os.fspath(dst))))
                return real(src, dst, *args, **kwargs)

            return op

        def one(real, name):

            def op(path, *args, **kwargs):
                if not isinstance(path, int) and fs.inside(path):
                    fs.point((name, os.path.basename(os.fspath(path))))
                return real(path, *args, **kwargs)

            return op

        builtins.open = io.open = my_open
        os.replace = two(real_replace, "replace")
        os.rename = two(real_rename, "rename")
        os.link = two(real_link, "link")
        os.remove = one(real_remove, "remove")
        os.unlink = one(real_unlink, "unlink")
        os.truncate = one(real_truncate, "truncate")
        try:
            yield fs
        finally:
            builtins.open = io.open = real_open
            os.replace, os.rename = real_replace, real_rename
            os.remove, os.unlink = real_remove, real_unlink
            os.link, os.truncate = real_link, real_truncate


class TornFile:
    """File whose writes can be cut short: 3 crash points per write."""

    def __init__(self, fs, f, name):
        self._fs, self._f, self._name = fs, f, name

    def write(self, data):
        n = len(data)
        cuts = sorted({0, n // 2, max(0, n - 1)})
        done = 0
        for c in cuts:
            # Everything before the cut has reached the file.
            self._f.write(data[done:c])
            self._f.flush()
            done = c
            self._fs.point(("write", self._name, c, n))
        self._f.write(data[done:])
        self._f.flush()
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def close(self):
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()
        return False

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __iter__(self):
        return iter(self._f)
