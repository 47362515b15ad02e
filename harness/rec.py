"""
Recording: turns what the implementation returns into the JSON values that the
specification reads. Nothing here judges; results are written down tagged with
their type, exceptions included.
"""
import json

import numpy as np


def cps(s):
    """A string as code points."""
    return [ord(c) for c in s]


def u64(n):
    """A non-negative integer as four 16-bit limbs."""
    n = int(n)
    if not 0 <= n < 1 << 64:
        return [-1, -1, -1, -1]
    return [n & 0xffff, (n >> 16) & 0xffff, (n >> 32) & 0xffff, n >> 48]


def f32(a):
    """A float32 array as (nested) lists of bit patterns, signed 32 bit."""
    a = np.asarray(a)
    if a.dtype.kind != 'f' or a.dtype.itemsize != 4:
        raise TypeError("not float32: %s" % a.dtype)
    a = np.ascontiguousarray(a.astype('<f4', copy=False))
    return a.view('<i4').tolist() if a.ndim else int(a.reshape(1).view('<i4')[0])


def f1(x):
    """A single float (Python or numpy) rounded to float32, as bits."""
    return int(np.array([x], dtype=np.float32).view('<i4')[0])


def exc(e):
    return {"t": "exc", "v": type(e).__name__,
            "mro": [c.__name__ for c in type(e).__mro__]}


def run(fn, tag):
    """Result of fn() through tag, or the exception it raised."""
    try:
        v = fn()
    except Exception as e:  # pylint: disable=broad-except
        return exc(e)
    try:
        return tag(v)
    except Exception as e:  # pylint: disable=broad-except
        return {"t": "other", "v": "%s %s" % (type(v).__name__, type(e).__name__)}


# ---- tags ---------------------------------------------------------------

def t_any(v):
    return {"t": "val"}


def t_bool(v):
    if isinstance(v, (bool, np.bool_)):
        return {"t": "bool", "v": bool(v)}
    return {"t": "other", "v": type(v).__name__}


def _isint(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, bool)


def t_int(v):
    if v is None:
        return {"t": "none"}
    if _isint(v):
        return {"t": "int", "v": u64(v)}
    return {"t": "other", "v": type(v).__name__}


def t_nat(v):
    """small natural"""
    if _isint(v) and -(1 << 31) < int(v) < 1 << 31:
        return {"t": "nat", "v": int(v)}
    return {"t": "other", "v": type(v).__name__}


def t_idx(v):
    """What a vocabulary lookup returns."""
    if v is None:
        return {"t": "none"}
    if _isint(v):
        return {"t": "int", "v": u64(v)}
    if isinstance(v, str):
        return {"t": "str", "v": cps(v)}
    if isinstance(v, (list, tuple)) and all(_isint(x) for x in v):
        return {"t": "list", "v": [u64(x) for x in v]}
    return {"t": "other", "v": type(v).__name__}


def t_pairs(v):
    """(n-gram, index) tuples."""
    if isinstance(v, list) and all(
            isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], str)
            and _isint(p[1]) for p in v):
        return {"t": "pairs", "v": [[cps(g), u64(i)] for g, i in v]}
    return {"t": "other", "v": type(v).__name__}


def t_str(v):
    if isinstance(v, str):
        return {"t": "str", "v": cps(v)}
    return {"t": "other", "v": type(v).__name__}


def t_strs(v):
    if isinstance(v, list) and all(isinstance(p, str) for p in v):
        return {"t": "strs", "v": [cps(g) for g in v]}
    return {"t": "other", "v": type(v).__name__}


def t_vec(v):
    """A float32 vector, or nothing."""
    if v is None:
        return {"t": "none"}
    a = np.asarray(v)
    if a.ndim == 1 and a.dtype.kind == 'f' and a.dtype.itemsize == 4:
        return {"t": "vec", "v": f32(a)}
    return {"t": "other", "v": "%s %s-d %s" % (type(v).__name__, a.ndim, a.dtype)}


def t_mat(v):
    a = np.asarray(v)
    if a.ndim == 2 and a.dtype.kind == 'f' and a.dtype.itemsize == 4:
        return {"t": "mat", "v": f32(a), "shape": list(a.shape)}
    return {"t": "other", "v": "%s %s-d %s" % (type(v).__name__, a.ndim, a.dtype)}


def js(x):
    """Metadata as a canonical string."""
    return json.dumps(x, sort_keys=True, ensure_ascii=True, default=str)
