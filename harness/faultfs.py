"""Fault injection at the file-system calls made under one scratch directory.

Inside `with FaultFS(root, at, mode)` every call that changes a file below root is an event,
numbered from 0: opening for writing, each write, truncate, rename/replace, unlink, mkdir, rmdir.
Event number `at` fails:
  crash       the process "dies" before the event: Crash (a BaseException) is raised, and every
              later event raises too, so clean-up code cannot touch the disk any more;
  crash-half  as crash, but a write first puts half of its bytes in the file;
  error       the event raises OSError once; later events work;
  error-half  as error, but a write first puts half of its bytes in the file;
  full        from this event on every open-for-write and every write raises OSError(ENOSPC).
With at=None nothing fails and `events` lists what happened.
Only calls on paths below root are touched, and the harness works in its own scratch directories.
"""
import builtins
import errno
import io
import os
import shutil


class Crash(BaseException):
    pass


_WRITERS = ("replace", "rename", "unlink", "remove", "mkdir", "rmdir", "truncate", "link", "symlink")


class FaultFile:
    """Unbuffered pass-through: each write reaches the file before the call returns."""

    def __init__(self, fs, f):
        self.__dict__["_fs"] = fs
        self.__dict__["_f"] = f

    def write(self, data):
        def half():
            n = len(data) // 2
            if n:
                self._f.write(data[:n])
                self._f.flush()
        self._fs.event("write", half)
        n = self._f.write(data)
        self._f.flush()
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def truncate(self, *a):
        self._fs.event("truncate")
        return self._f.truncate(*a)

    def close(self):
        return self._f.close()

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)

    def __next__(self):
        return next(self._f)


class FaultFS:
    def __init__(self, root, at=None, mode="crash"):
        self.root = os.path.realpath(root)
        self.at, self.mode = at, mode
        self.events = []
        self.dead = False
        self.full = False
        self.fired = False
        self.fds = set()

    # -- bookkeeping
    def inside(self, path):
        if isinstance(path, int):
            return path in self.fds
        try:
            p = os.fsdecode(os.fspath(path))
        except TypeError:
            return False
        p = os.path.abspath(p)
        p = os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))
        return p == self.root or p.startswith(self.root + os.sep)

    def event(self, what, half=None):
        if self.dead:
            raise Crash()
        n = len(self.events)
        self.events.append(what)
        if self.full and what in ("open", "write"):
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        if n != self.at:
            return
        self.fired = True
        if self.mode.endswith("half") and half is not None:
            half()
        if self.mode.startswith("crash"):
            self.dead = True
            raise Crash()
        if self.mode == "full":
            if what not in ("open", "write"):
                return
            self.full = True
            raise OSError(errno.ENOSPC, "No space left on device (injected)")
        raise OSError(errno.EIO, "Input/output error (injected)")

    # -- patches
    def __enter__(self):
        self.saved = {"open": builtins.open, "ioopen": io.open, "osopen": os.open,
                      "sendfile": getattr(shutil, "_USE_CP_SENDFILE", None)}
        for name in _WRITERS:
            self.saved[name] = getattr(os, name)
        real_open = self.saved["open"]

        def fopen(file, mode="r", *a, **kw):
            if any(c in mode for c in "wax+") and self.inside(file):
                if not isinstance(file, int):
                    self.event("open")
                return FaultFile(self, real_open(file, mode, *a, **kw))
            return real_open(file, mode, *a, **kw)

        def osopen(path, flags, *a, **kw):
            if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC) and self.inside(path):
                self.event("open")
                fd = self.saved["osopen"](path, flags, *a, **kw)
                self.fds.add(fd)
                return fd
            return self.saved["osopen"](path, flags, *a, **kw)

        def wrap(name):
            real = self.saved[name]

            def call(*a, **kw):
                if any(isinstance(x, (str, bytes, os.PathLike, int)) and not isinstance(x, bool)
                       and self.inside(x) for x in a[:2]):
                    self.event(name)
                return real(*a, **kw)
            return call

        builtins.open = io.open = fopen
        os.open = osopen
        for name in _WRITERS:
            setattr(os, name, wrap(name))
        shutil._USE_CP_SENDFILE = False
        return self

    def __exit__(self, et, ev, tb):
        builtins.open, io.open, os.open = self.saved["open"], self.saved["ioopen"], self.saved["osopen"]
        for name in _WRITERS:
            setattr(os, name, self.saved[name])
        if self.saved["sendfile"] is not None:
            shutil._USE_CP_SENDFILE = self.saved["sendfile"]
        return False


MODES = ["crash", "crash-half", "error", "error-half", "full"]


def trial(root, at, mode, op, expect=(Exception,)):
    """Run op once under one fault; returns (outcome, value, fs).

    outcome: 'done', 'crash' or 'refused' (an exception of type `expect`).
    """
    fs = FaultFS(root, at, mode)
    with fs:
        try:
            return "done", op(), fs
        except Crash:
            return "crash", None, fs
        except expect as e:
            if fs.dead:
                return "crash", None, fs
            return "refused", e, fs
