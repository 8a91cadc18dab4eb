"""Helpers shared by the checks that drive the Python API."""
import itertools, os, sys
import numpy as np


def ldm():
    import lue.data_model as m
    return m


def attempt(f, *args, **kw):
    """(ok, value | exception)"""
    try:
        return True, f(*args, **kw)
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:   # noqa
        return False, e.with_traceback(None)


_n = [0]


def fresh(rec, suffix=".lue"):
    _n[0] += 1
    p = os.path.join(rec.scratch, "f%d%s" % (_n[0], suffix))
    return p


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(
        a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f")


def slice_from(t):
    return slice(*t)


def index_from(spec):
    """JSON-able index: int | ['s', start, stop, step] | ['t', [..]]"""
    if isinstance(spec, list):
        if spec[0] == "s":
            return slice(spec[1], spec[2], spec[3])
        return tuple(index_from(x) for x in spec[1])
    return spec


def show(spec):
    if isinstance(spec, list):
        if spec[0] == "s":
            return "%s:%s:%s" % tuple("" if x is None else x for x in spec[1:])
        return "(" + ",".join(show(x) for x in spec[1]) + ")"
    return str(spec)
