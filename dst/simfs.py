"""
Simulated file operations: the files of the scratch directory are opened through a raw layer under the
control of the simulator (short reads and writes, errors, full disk, process death at any operation).
Everything else is opened with the real functions.
"""

import builtins
import contextlib
import errno
import io
import os

from .core import SimCrash

REAL_OPEN = io.open


class Raw(io.FileIO):
    """Raw file under the control of the simulator."""

    def __init__(self, fs, file, mode, closefd, opener):
        self._fs = None
        super().__init__(file, mode, closefd=closefd, opener=opener)
        self._fs = fs
        if isinstance(file, int):
            self._path = os.readlink("/proc/self/fd/%d" % file)
        else:
            self._path = os.path.realpath(os.fspath(file) if not isinstance(file, bytes) else os.fsdecode(file))
        self._done = False

    def write(self, data):
        fs = self._fs
        if fs is None:
            return super().write(data)
        view = memoryview(data).cast("B")
        if fs.dead:
            # the process does not exist anymore
            return len(view)
        act = fs.point("write", self._path, len(view))
        if act is None:
            return super().write(data)
        (kind, size) = act
        size = min(size, len(view))
        if kind == "short":
            size = max(1, size) if len(view) else 0
            return super().write(view[:size])
        # part of the data reaches the file
        pos = 0
        while pos < size:
            pos += super().write(view[pos:size])
        fs.fail(kind, self._path)

    def readinto(self, data):
        fs = self._fs
        if fs is None or fs.dead:
            return super().readinto(data)
        view = memoryview(data).cast("B")
        act = fs.point("read", self._path, len(view))
        if act is None:
            return super().readinto(data)
        (kind, size) = act
        if kind == "short":
            return super().readinto(view[:max(1, min(size, len(view)))])
        if kind == "eof":
            return 0
        fs.fail(kind, self._path)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        buf = bytearray(size)
        num = self.readinto(buf)
        return None if num is None else bytes(buf[:num])

    def readall(self):
        out = bytearray()
        while True:
            buf = bytearray(65536)
            num = self.readinto(buf)
            if not num:
                return bytes(out)
            out += buf[:num]

    def truncate(self, size=None):
        fs = self._fs
        if fs is not None and fs.dead:
            return 0
        return super().truncate(size)

    def close(self):
        fs = self._fs
        if fs is None or self._done or self.closed:
            return super().close()
        self._done = True
        act = None
        if not fs.dead:
            try:
                act = fs.point("close" if self.writable() else "close_read", self._path, 0)
            except BaseException:
                super().close()
                raise
        super().close()
        if act is not None and act[0] not in ("short", "eof"):
            fs.fail(act[0], self._path)


class FileSystem:
    """
    Simulated file operations.

        - plan: function (operation, path, size, number) returning None or (kind, size),
          the kind is a partial transfer ("short"), a wrong end of the file ("eof"), an error name, or "crash"
        - buffer: size of the buffers
    """

    def __init__(self, env, root):
        self.env = env
        self.root = os.path.realpath(root)
        self.plan = None
        self.buffer = 8192
        self.dead = False
        self.counts = {}
        self.log = []
        self.fired = []
        self.enabled = False

    def inside(self, path):
        return path == self.root or path.startswith(self.root+os.sep)

    def point(self, op, path, size):
        """Decide what happens."""
        if self.dead:
            raise SimCrash("the process is dead")
        num = self.counts.get(op, 0)
        self.counts[op] = num+1
        self.log.append((op, os.path.basename(path), size))
        if self.plan is None:
            return None
        act = self.plan(op, path, size, num)
        if act is not None:
            self.fired.append((op, act[0], os.path.basename(path)))
            if act[0] == "short":
                self.env.faults["short %s" % op] += 1
            else:
                self.env.fault("%s at %s" % (act[0], op), os.path.basename(path), num, act[1] if op == "write" else "")
        return act

    def fail(self, kind, path):
        if kind == "crash":
            self.dead = True
            raise SimCrash("the process is killed")
        num = getattr(errno, kind)
        raise OSError(num, os.strerror(num), path)

    def touched(self, path):
        """The file was opened for writing, replaced, or removed."""
        name = os.path.basename(path)
        return any(op in ("open_write", "rename", "remove", "write") and n == name for op, n, _ in self.log)

    # replacement of the standard functions
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        path = None
        if isinstance(file, int):
            try:
                path = os.readlink("/proc/self/fd/%d" % file)
            except OSError:
                path = None
        else:
            try:
                path = os.path.realpath(os.fsdecode(os.fspath(file)))
            except TypeError:
                path = None
        if not self.enabled or path is None or not self.inside(path):
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        writing = any(c in mode for c in "wax+")
        act = self.point("open_write" if writing else "open", path, 0)
        if act is not None and act[0] not in ("short", "eof"):
            if act[0] == "crash" and writing and act[1] and not isinstance(file, int):
                # the file is created or truncated, then the process dies
                REAL_OPEN(file, mode).close()
            self.fail(act[0], path)
        rawmode = "".join(c for c in mode if c in "rwax+")
        raw = Raw(self, file, rawmode, closefd, opener)
        if buffering == 0:
            return raw
        size = self.buffer if buffering in (-1, 1) else buffering
        if "+" in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif any(c in rawmode for c in "wax"):
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if "b" in mode:
            return buf
        txt = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=(buffering == 1))
        txt.mode = mode
        return txt

    def _wrap(self, name, real, op):
        def fct(*args, **kwargs):
            if not self.enabled:
                return real(*args, **kwargs)
            paths = []
            for x in args[:2]:
                try:
                    paths.append(os.path.realpath(os.fsdecode(os.fspath(x))))
                except TypeError:
                    pass
            if paths and any(self.inside(x) for x in paths):
                if self.dead:
                    raise SimCrash("the process is dead")
                act = self.point(op, paths[-1], 0)
                if act is not None and act[0] not in ("short", "eof"):
                    if act[0] == "crash" and act[1]:
                        real(*args, **kwargs)
                    self.fail(act[0], paths[-1])
            return real(*args, **kwargs)
        fct.__name__ = name
        return fct

    def _fsync(self, real):
        def fct(fid):
            if self.enabled:
                num = fid if isinstance(fid, int) else fid.fileno()
                try:
                    path = os.readlink("/proc/self/fd/%d" % num)
                except OSError:
                    path = ""
                if self.inside(path):
                    act = self.point("fsync", path, 0)
                    if act is not None and act[0] not in ("short", "eof"):
                        self.fail(act[0], path)
            return real(fid)
        return fct

    @contextlib.contextmanager
    def active(self):
        """Replace the functions (the simulated operations start immediately)."""
        saved = [(builtins, "open", builtins.open), (io, "open", io.open)]
        for name, op in (("rename", "rename"), ("replace", "rename"), ("remove", "remove"), ("unlink", "remove"), ("mkdir", "mkdir"), ("truncate", "write"), ("link", "rename")):
            saved.append((os, name, getattr(os, name)))
            setattr(os, name, self._wrap(name, getattr(os, name), op))
        saved.append((os, "fsync", os.fsync))
        os.fsync = self._fsync(os.fsync)
        builtins.open = self.open
        io.open = self.open
        old = self.enabled
        self.enabled = True
        try:
            yield self
        finally:
            self.enabled = old
            for obj, name, val in saved:
                setattr(obj, name, val)

    def reset(self):
        """New process."""
        self.dead = False
        self.plan = None
        self.counts = {}
        self.log = []
        self.fired = []


def snapshot(root):
    """Content of all the files of a directory."""
    out = {}
    for base, dirs, files in os.walk(root):
        for name in dirs:
            out[os.path.relpath(os.path.join(base, name), root)+os.sep] = None
        for name in files:
            path = os.path.join(base, name)
            with REAL_OPEN(path, "rb") as fid:
                out[os.path.relpath(path, root)] = fid.read()
    return out
