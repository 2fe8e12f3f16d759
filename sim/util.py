"""Helpers shared by checks: scratch trees, snapshots, comparisons."""
import gzip
import hashlib
import json
import math
import os
import shutil

import numpy as np
import pandas as pd

from . import core


def write_tree(root, files):
    """files: {virtual path: bytes}"""
    for vp, data in files.items():
        p = root + vp[len(core.V):]
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)


def wipe(root):
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for d in ("w", "tmp", "in", "out"):
        os.makedirs(os.path.join(root, d))


def snapshot(root, content=False):
    """{virtual path: digest (or bytes)}; directories map to None"""
    out = {}
    for d, ds, fs in os.walk(root):
        v = core.V + d[len(root):]
        if d != root:
            out[v + "/"] = None
        for f in fs:
            p = os.path.join(d, f)
            try:
                with open(p, "rb") as h:
                    b = h.read()
            except OSError as e:
                b = b"<%d>" % e.errno
            out[v + "/" + f] = b if content else hashlib.md5(b).hexdigest()
    return out


def rd(root, vp):
    with open(root + vp[len(core.V):], "rb") as f:
        return f.read()


def exists(root, vp):
    return os.path.exists(root + vp[len(core.V):])


def md5(b):
    return hashlib.md5(b).hexdigest()


def loads_any(b):
    if b[:2] == b"\x1f\x8b":
        import zlib
        try:
            b = gzip.decompress(b)
        except (zlib.error, EOFError, OSError) as e:
            raise ValueError("damaged archive: %s" % e)
    return json.loads(b.decode("utf-8"))


# --------------------------------------------------------------- canonical values
def canon(x, depth=0):
    """plain, comparable, order-preserving form of results (dataframes, dicts, numpy)"""
    if x is None or isinstance(x, (bool, str, bytes)):
        return x
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        return "NaN" if math.isnan(f) else f
    if isinstance(x, complex):
        return ["complex", x.real, x.imag]
    if isinstance(x, pd.DataFrame):
        return ["df", [str(c) for c in x.columns], [str(t) for t in x.dtypes], canon(list(x.index)),
                [canon(list(x.iloc[:, i].values)) if x.iloc[:, i].dtype.kind != "M"
                 else [str(v) for v in x.iloc[:, i]] for i in range(x.shape[1])]]
    if isinstance(x, pd.Series):
        return ["series", str(x.name), str(x.dtype), canon(list(x.index)), canon(list(x.values))]
    if isinstance(x, np.ndarray):
        return ["nd", list(x.shape), str(x.dtype), canon(x.ravel().tolist())]
    if isinstance(x, dict):
        return {str(k): canon(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, pd.Index)):
        return [canon(v, depth + 1) for v in x]
    if isinstance(x, (set, frozenset)):
        return ["set"] + sorted(canon(v) for v in x)
    if isinstance(x, pd.Timestamp):
        return str(x)
    return "%s:%s" % (type(x).__name__, str(x))


def canon_dict(x):
    """canon + key order ignored"""
    c = canon(x)

    def s(o):
        if isinstance(o, dict):
            return {k: s(o[k]) for k in sorted(o)}
        if isinstance(o, list):
            return [s(v) for v in o]
        return o
    return s(c)


def diff(a, b, path="", rtol=0.0, out=None, limit=4):
    """human-readable differences of two canonical values"""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                out.append("%s/%s only right" % (path, k))
            elif k not in b:
                out.append("%s/%s only left" % (path, k))
            else:
                diff(a[k], b[k], path + "/" + str(k), rtol, out, limit)
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            out.append("%s length %d != %d" % (path, len(a), len(b)))
        else:
            for i, (x, y) in enumerate(zip(a, b)):
                diff(x, y, "%s[%d]" % (path, i), rtol, out, limit)
    elif a != b:
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) \
                and not isinstance(b, bool):
            if rtol and abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-12:
                return out
        out.append("%s: %.120r != %.120r" % (path, a, b))
    return out


def frames(dp):
    """every observable table/attribute of a datapath, canonical"""
    d = {}
    for a in ("raw_data", "structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary"):
        d[a] = canon(getattr(dp, a, None))
    d["metadata"] = canon(dp.metadata.raw) if getattr(dp, "metadata", None) is not None else None
    d["params"] = canon(dp.structuring_parameters)
    d["schema"] = dp.schema
    d["cls"] = type(dp).__name__
    d["diagnostic"] = canon(dp.diagnostic.as_dict()) if getattr(dp, "diagnostic", None) is not None else None
    return d


def values(x):
    """a table as {column: values}; dtypes and index labels left out, None and NaN alike"""
    if x is None:
        return None

    def v(e):
        c = canon(e)
        return "NaN" if c is None or c == "NaT" else c
    return {str(c): [v(e) for e in (x.iloc[:, i].values if x.iloc[:, i].dtype.kind != "M" else
                                    [str(t) for t in x.iloc[:, i]])] for i, c in enumerate(x.columns)}


def jsonish(x):
    """as a JSON document would hold it"""
    c = canon(x)
    return json.loads(json.dumps(c))


def labels(x):
    """row labels of a table"""
    return None if x is None else jsonish(list(x.index))


def dp_values(dp, raw=True):
    """what a datapath holds, by value"""
    d = {}
    for a in ("raw_data", "structured_data", "structured_summary", "diagnostic_data", "diagnostic_summary"):
        if a == "raw_data" and not raw:
            continue
        d[a] = values(getattr(dp, a, None))
    d["metadata"] = jsonish(dp.metadata.raw) if getattr(dp, "metadata", None) is not None else None
    d["params"] = jsonish(dp.structuring_parameters)
    d["schema"] = dp.schema
    d["cls"] = type(dp).__name__
    d["structured"] = bool(dp.is_structured)
    d["diagnostic"] = jsonish(dp.diagnostic.as_dict()) if getattr(dp, "diagnostic", None) is not None else None
    return d
