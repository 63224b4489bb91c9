"""files of the checks: every harness works in an empty scratch directory, symbolic numbers are written as tokens"""
import builtins
import contextlib
import json as _json
import os
import shutil
import struct
import tempfile
import types
import numpy as np
from . import facade, poly, sarr
from .poly import Sym, Unsupported
from .sarr import SA, to_obj, wrap

BIN = {}        # binary files with symbolic contents: absolute path -> list of (struct code, value)
SIZES = dict(i=4, d=8, x=1, z=16)


class BinReader:
    """binary file which hands out its numbers; a read which does not match the layout is reported"""

    def __init__(self, items):
        self.cells = []
        at = 0
        for code, v in items:
            self.cells.append((at, code, v))
            at += SIZES[code]
        self.size = at
        self.pos = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass

    def seek(self, off, whence=0):
        self.pos = off + (self.pos if whence == 1 else self.size if whence == 2 else 0)

    def tell(self):
        return self.pos

    def read_numbers(self, dtype, count):
        dt = np.dtype(dtype)
        code = {"i4": "i", "f8": "d", "c16": "z"}.get(dt.str[1:])
        if code is None:
            raise Unsupported(f"binary read of {dt}")
        idx = {at: k for k, (at, _, _) in enumerate(self.cells)}
        out = []
        for _ in range(count):
            if self.pos >= self.size:
                break
            k = idx.get(self.pos)
            cells = self.cells[k:k + 2] if k is not None else []
            if code == "z" and len(cells) == 2 and cells[0][1] == "d" and cells[1][1] == "d":
                out.append(cells[0][2] + 1j * cells[1][2])
            elif code != "z" and cells and cells[0][1] == code:
                out.append(cells[0][2])
            else:
                raise AssertionError("binary file is read at the wrong place or with the wrong type")
            self.pos += dt.itemsize
        if any(isinstance(v, Sym) for v in out):
            return to_obj(out)
        return np.array(out, dtype=dt)


def _open(path, mode="r", *a, **k):
    items = BIN.get(os.path.abspath(path))
    if items is not None and "b" in mode:
        return BinReader(items)
    return builtins.open(path, mode, *a, **k)


def fromfile(f, dtype=builtins.float, count=-1, **k):
    if isinstance(f, BinReader):
        return f.read_numbers(dtype, count)
    return np.fromfile(f, dtype=facade._fixdtype(dtype), count=count, **k)


def loadtxt(f, unpack=False, skiprows=0, comments="#", **k):
    if k:
        raise Unsupported("loadtxt " + str(sorted(k)))
    if isinstance(f, str):
        with builtins.open(f) as g:
            lines = g.readlines()
    else:
        lines = f.readlines()
    rows = []
    for line in lines[skiprows:]:
        t = line.split(comments)[0].split()
        if t:
            rows.append([facade.real_float(x) for x in t])
    r = np.array(rows) if not any(isinstance(x, Sym) for row in rows for x in row) else to_obj(rows)
    if r.shape[0] == 1 or r.shape[1] == 1:
        r = r.reshape(-1)
    return r.T if unpack else r


def dumps(x):
    def conv(v):
        if isinstance(v, Sym):
            return float(v) if v.is_const() else str(v)
        if isinstance(v, dict):
            return {a: conv(b) for a, b in v.items()}
        if isinstance(v, (list, tuple)):
            return [conv(a) for a in v]
        if isinstance(v, np.ndarray):
            raise TypeError("Object of type ndarray is not JSON serializable")
        return v
    return _json.dumps(conv(x))


def loads(t):
    def conv(v):
        if isinstance(v, str):
            s = poly.untoken(v)
            return v if s is None else s
        if isinstance(v, dict):
            return {a: conv(b) for a, b in v.items()}
        if isinstance(v, list):
            return [conv(a) for a in v]
        return v
    return conv(_json.loads(t))


def make_json():
    m = types.ModuleType("json")
    m.dump = lambda x, f, **k: f.write(dumps(x))
    m.load = lambda f, **k: loads(f.read())
    m.dumps = lambda x, **k: dumps(x)
    m.loads = lambda t, **k: loads(t)
    return m


@contextlib.contextmanager
def scratch(X):
    """context: an empty directory as working directory"""
    old = os.getcwd()
    d = tempfile.mkdtemp(prefix="verif_")
    opt = np.get_printoptions()
    try:
        os.chdir(d)
        if X.symbolic:
            facade.FILES["open"] = _open
        yield d
    finally:
        np.set_printoptions(**opt)
        facade.FILES.pop("open", None)
        BIN.clear()
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def write(path, text):
    p = os.path.dirname(path)
    if p:
        os.makedirs(p, exist_ok=True)
    with builtins.open(path, "w") as f:
        f.write(text)


def write_bin(X, path, items):
    """items: (code, value); i int32, d float64, x one byte of padding"""
    p = os.path.dirname(path)
    if p:
        os.makedirs(p, exist_ok=True)
    flat = []
    for code, v in items:
        for e in (v if isinstance(v, (list, tuple)) else [v]):
            flat.append((code, e))
    with builtins.open(path, "wb") as f:
        if X.symbolic:
            BIN[os.path.abspath(path)] = flat
        else:
            for code, v in flat:
                f.write(struct.pack("<" + code, v) if code != "x" else b"\0")


def txt(x):
    """a number as text, exactly"""
    return str(x) if isinstance(x, Sym) else repr(float(x))


def num(s):
    """number of a text, symbolic for tokens"""
    t = poly.untoken(s)
    return float(s) if t is None else t
