"""Stages of the file workflow (mesher, viewer, solver, plotter) with their input and output files."""

import contextlib
import gzip
import json
import os
import pickle

import numpy as np
import yaml

from . import cmp, simfs, work

CONFIG = [".json", ".yaml", ".js", ".yml", ".gz", ".gzip"]
DATA = [".pck", ".json", ".gz", ".pkl", ".pickle", ".js", ".gzip"]

ALIAS = {"mesher": ["mesher", "me"], "viewer": ["viewer", "vi"], "solver": ["solver", "so"], "plotter": ["plotter", "pl"]}
FLAGS = {
    "mesher": [("-ge", "--geometry"), ("-vo", "--voxel")],
    "viewer": [("-vo", "--voxel"), ("-vi", "--viewer")],
    "solver": [("-vo", "--voxel"), ("-pr", "--problem"), ("-to", "--tolerance"), ("-so", "--solution")],
    "plotter": [("-so", "--solution"), ("-pl", "--plotter")],
}
OPTIONS = {"tag_plot": ("-tp", "--tag_plot"), "tag_sweep": ("-ts", "--tag_sweep"), "plot_mode": ("-pm", "--plot_mode"), "folder": ("-f", "--folder")}


def real_open(*args, **kwargs):
    return simfs.REAL_OPEN(*args, **kwargs)


def write_config(filename, obj):
    """Write a configuration file (independent of the tested code)."""
    ext = os.path.splitext(filename)[1]
    if ext in (".yaml", ".yml"):
        txt = yaml.safe_dump(obj, sort_keys=False).encode()
    else:
        txt = json.dumps(obj).encode()
    if ext in (".gz", ".gzip"):
        txt = gzip.compress(txt, 1, mtime=0)
    with real_open(filename, "wb") as fid:
        fid.write(txt)


def _encode(obj):
    """Documented JSON representation of the arrays."""
    if isinstance(obj, dict):
        return {k: _encode(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple)):
        return [_encode(v) for v in obj]
    if isinstance(obj, np.ndarray):
        out = {"__numpy__": None, "dtype": {"c": "complex", "f": "float", "i": "int", "u": "int", "b": "bool"}[obj.dtype.kind], "shape": list(obj.shape)}
        flat = obj.flatten()
        out["data"] = {"real": flat.real.tolist(), "imag": flat.imag.tolist()} if obj.dtype.kind == "c" else flat.tolist()
        return out
    if isinstance(obj, np.generic):
        obj = obj.item()
    if isinstance(obj, complex):
        return {"__complex__": None, "real": obj.real, "imag": obj.imag}
    return obj


def data_bytes(ext, obj):
    """Content of a data file (independent of the tested code)."""
    if ext in (".pck", ".pkl", ".pickle"):
        return pickle.dumps(obj)
    txt = json.dumps(_encode(obj)).encode()
    return gzip.compress(txt, 1, mtime=0) if ext in (".gz", ".gzip") else txt


def write_data(filename, obj):
    with real_open(filename, "wb") as fid:
        fid.write(data_bytes(os.path.splitext(filename)[1], obj))


def _decode(obj):
    if "__complex__" in obj:
        return complex(obj["real"], obj["imag"])
    if "__numpy__" in obj:
        kind = {"complex": complex, "float": float, "int": int, "bool": bool}[obj["dtype"]]
        if kind is complex:
            val = np.array(obj["data"]["real"], dtype=complex)
            val.imag = obj["data"]["imag"]
        else:
            val = np.array(obj["data"], dtype=kind)
        return val.reshape(obj["shape"])
    return obj


def read_data(filename):
    """Read a data file (independent of the tested code)."""
    ext = os.path.splitext(filename)[1]
    with real_open(filename, "rb") as fid:
        txt = fid.read()
    if ext in (".pck", ".pkl", ".pickle"):
        return pickle.loads(txt)
    if ext in (".gz", ".gzip"):
        txt = gzip.decompress(txt)
    return json.loads(txt.decode(), object_hook=_decode)


def stored(filename, expected, rel=0.0):
    """Difference between the content of an output file and the expected result (None if it is complete)."""
    if not os.path.exists(filename):
        return "no output file"
    try:
        got = read_data(filename)
    except Exception as ex:
        return "unreadable output file: %s" % type(ex).__name__
    for k in ("date", "duration", "seconds"):
        if isinstance(expected, dict) and k in expected and k not in got:
            return "missing %s" % k
    return cmp.diff(expected, got, rel=rel)


class Stage:
    """Call of a stage of the workflow with files."""

    def __init__(self, kind, files, **options):
        self.kind = kind
        self.files = list(files)
        self.options = {k: v for k, v in options.items() if v is not None}

    @property
    def output(self):
        return self.files[-1] if self.kind in ("mesher", "solver") else None

    def argv(self, ch=None):
        """Command line."""
        def pick(seq, label):
            return seq[0] if ch is None else ch.pick(seq, label)
        out = ["-q"] if ch is None or ch.flag(0.6, "quiet") else []
        out.append(pick(ALIAS[self.kind], "alias"))
        args = [[pick(flag, "flag"), name] for flag, name in zip(FLAGS[self.kind], self.files)]
        for k, v in self.options.items():
            if k == "name":
                continue
            args.append([pick(OPTIONS[k], "flag")]+(list(v) if isinstance(v, list) else [v]))
        if ch is not None:
            args = ch.perm(args, "order")
        for x in args:
            out += x
        return out

    def run(self, env, img, how="file", around=None, argv=None):
        with img.active():
            if how == "cli":
                fct = img.load("pypeec.script").run_arguments
                with around or contextlib.nullcontext():
                    return work.call(env, fct, self.argv() if argv is None else argv)
            fct = getattr(img.load("pypeec.main"), "run_%s_file" % self.kind)
            with around or contextlib.nullcontext():
                return work.call(env, fct, *self.files, **self.options)
