"""Package resources that are only present in a released package (archives of the examples and of the documentation)."""

import contextlib
import importlib.resources as res
import io
import os
import pathlib
import zipfile


class _Files:
    """Traversable with additional files."""

    def __init__(self, real, extra):
        self._real = real
        self._extra = extra

    def joinpath(self, *names):
        if len(names) == 1 and str(names[0]) in self._extra:
            return pathlib.Path(self._extra[str(names[0])])
        return self._real.joinpath(*names)

    __truediv__ = joinpath

    def __getattr__(self, name):
        return getattr(self._real, name)


@contextlib.contextmanager
def overlay(package, extra):
    """Add files to a package."""
    saved = {k: getattr(res, k) for k in ("path", "files", "open_binary", "read_binary", "is_resource")}

    def name_of(pkg):
        return pkg if isinstance(pkg, str) else pkg.__name__

    def path(anchor, *names):
        if name_of(anchor) == package and len(names) == 1 and names[0] in extra:
            return contextlib.nullcontext(pathlib.Path(extra[names[0]]))
        return saved["path"](anchor, *names)

    def files(anchor=None):
        real = saved["files"](anchor)
        return _Files(real, extra) if anchor is not None and name_of(anchor) == package else real

    def open_binary(anchor, *names):
        if name_of(anchor) == package and len(names) == 1 and names[0] in extra:
            return open(extra[names[0]], "rb")
        return saved["open_binary"](anchor, *names)

    def read_binary(anchor, *names):
        with open_binary(anchor, *names) as fid:
            return fid.read()

    def is_resource(anchor, *names):
        return (name_of(anchor) == package and len(names) == 1 and names[0] in extra) or saved["is_resource"](anchor, *names)
    for k, v in (("path", path), ("files", files), ("open_binary", open_binary), ("read_binary", read_binary), ("is_resource", is_resource)):
        setattr(res, k, v)
    try:
        yield
    finally:
        for k, v in saved.items():
            setattr(res, k, v)


def archive(ch, root):
    """Random archive: content of the file, and the extracted tree."""
    tree = {}
    dirs = [root]
    for i in range(ch.int(0, 2, "dirs")):
        dirs.append(dirs[ch.draw(len(dirs), "dir")]+"/"+ch.pick(["sub", "images", "a b"], "name")+str(i))
    for i in range(ch.int(1, 5, "files")):
        size = ch.pick([12, 0, 300, 5000, 70000], "size")
        seed = ch.draw(251, "data")
        tree["%s/file_%d.txt" % (ch.pick(dirs, "where"), i)] = bytes((seed*(j+7)+(j*j >> 3)) % 256 for j in range(size))
    out = io.BytesIO()
    span = []
    with zipfile.ZipFile(out, "w", ch.pick([zipfile.ZIP_DEFLATED, zipfile.ZIP_STORED], "zip")) as fid:
        if ch.flag(0.5, "dirs"):
            for d in dirs:
                fid.writestr(zipfile.ZipInfo(d+"/", (2024, 1, 1, 0, 0, 0)), b"")
                tree[d+"/"] = None
        for name, data in tree.items():
            if data is not None:
                info = zipfile.ZipInfo(name, (2024, 1, 1, 0, 0, 0))
                fid.writestr(info, data, compress_type=fid.compression)
    raw = out.getvalue()
    with zipfile.ZipFile(io.BytesIO(raw)) as fid:
        for info in fid.infolist():
            if info.compress_size:
                # the names are stored in the local header
                start = info.header_offset+30+len(info.filename.encode())
                span.append((start, start+info.compress_size))
    return raw, tree, span


def readable(raw, tree):
    """The archive still has the complete content."""
    try:
        with zipfile.ZipFile(io.BytesIO(raw)) as fid:
            return all(data is None or fid.read(name) == data for name, data in tree.items())
    except Exception:
        return False


def extracted(path, tree):
    """Difference between a directory and the expected tree (None if complete)."""
    for name, data in tree.items():
        full = os.path.join(path, name)
        if data is None:
            if not os.path.isdir(full):
                return "missing directory %s" % name
            continue
        if not os.path.isfile(full):
            return "missing file %s" % name
        with io.FileIO(full) as fid:
            if fid.readall() != data:
                return "wrong file %s" % name
    return None
