"""P08: arrays of strings through the Python API."""
import itertools, os
import numpy as np
import build as B
from ldmutil import *

PROPERTY = "P08"
LEVEL = "model_checking"
RULE = ("every Unicode code point, alone and between others, by arrays, lists and bytes; every slice of arrays of up to three "
        "strings assigned with every kind of value; every sequence of expanding, assigning, reopening and changing handle up to a "
        "depth, next to a list of strings with which all slices are compared")
BOUND = {"quick": "code points in arrays of 2048; 15 operations to depth 3", "thorough": "depth 4"}
ASSUMPTIONS = ["strings do not contain the NUL character; bytes are valid UTF-8", "something was written before strings are read; strings never written are empty"]
CHUNK = 8
POOL = ["", "a", "é", "日本", "𝄞x", " a ", "\ufeff", "\ufeffb", "a\n\t", "x" * 300, "é" * 90, "\U0010ffff", "\ud7ff\ue000", "e\u0301"]
OPS = ["e1", "e2", "wU", "wS", "wL", "wT", "wW", "w0", "w+", "w2", "wB", "wN", "wM", "R", "H"]


def build():
    B.lue(["lue_py"])


def cases(tier):
    step = 2048
    for a in range(1, 0x110000, step):
        yield {"points": [a, min(a + step, 0x110000)]}
    for n in range(4):
        yield {"slices": n}
    for depth in range(1, (3 if tier == "quick" else 4) + 1):
        for ops in itertools.product(OPS, repeat=depth):
            yield {"ops": ["e2", "wU"] + list(ops)}


def open_value(ds):
    p = ds.phenomena["p"]
    s = p.property_sets["s"]
    x = s.properties["x"]
    return (p, s, x, x.value)


def text(a):
    return [str(x) for x in a]


def create(m, path):
    ds = m.create_dataset(path)
    p = ds.add_phenomenon("p")
    s = p.add_property_set("s")
    s.add_property("x", np.dtype(str))
    return ds, open_value(ds)


def points(case, rec, m):
    a, b = case["points"]
    cs = [chr(c) for c in range(a, b) if not 0xd800 <= c < 0xe000]
    bad = [chr(c) for c in range(a, b) if 0xd800 <= c < 0xe000]
    path = fresh(rec)
    ds, h = create(m, path)
    if cs:
        v = h[3].expand(3 * len(cs))
        want = cs + ["a" + c + "b" for c in cs] + [c + c for c in cs]
        for kind in ("U", "S", "L"):
            v[:] = np.array([""] * len(want))
            x = np.array(want) if kind == "U" else np.array([w.encode() for w in want]) if kind == "S" else want
            ok, e = attempt(lambda: v.__setitem__(slice(None), x))
            got = text(v[:]) if ok else repr(e)
            if got != want:
                diff = [(w, g) for w, g in zip(want, got) if w != g][:3] if ok else got
                rec.violation("code points %s" % kind, "from U+%04X: %r" % (a, diff))
            rec.trans(len(want))
        del v, h, ds
        ds = m.open_dataset(path, "w")
        h = open_value(ds)
        if text(h[3][:]) != want:
            rec.violation("code points reopened", "from U+%04X" % a)
    if bad:
        h[3].expand(2)
        n = len(h[3][:]) if cs else 2
        h[3][:] = ["k"] * n
        for c in bad:
            ok, e = attempt(lambda: h[3].__setitem__(slice(None), np.array([c] + ["z"] * (n - 1))))
            if ok or text(h[3][:]) != ["k"] * n:
                rec.violation("surrogate", "U+%04X: %r" % (ord(c), text(h[3][:])[:3]))
            rec.trans()
    rec.outcome(a), rec.state(a)
    del h, ds
    os.remove(path)


def slices(case, rec, m):
    n = case["slices"]
    path = fresh(rec)
    ds, h = create(m, path)
    v = h[3]
    if n:
        v.expand(n)
    if v.dtype.kind != "U" or v.nr_arrays != n or tuple(v.shape) != (n,):
        rec.violation("array", "dtype %r, %d arrays, shape %r" % (v.dtype, v.nr_arrays, v.shape))
    vals = [None] + list(range(-n - 1, n + 2))
    for pool in range(0, len(POOL), 2):
        ref = (POOL[pool:] + POOL[:pool])[:n]
        for a, b, step in itertools.product(vals, vals, [None, 1, 2, 3]):
            idx = slice(a, b, step)
            if n:
                v[:] = np.array(ref)
            want = ref[idx]
            ok, got = attempt(lambda: v[idx])
            name = "n=%d [%s:%s:%s]" % (n, a, b, step)
            if not ok or text(got) != want or got.dtype.kind != "U" or got.shape != (len(want),):
                rec.violation("read", "%s: %r instead of %r" % (name, got, want))
            new = ["N%d" % i + POOL[(pool + i) % len(POOL)] for i in range(len(want))]
            wide = np.array([new, new], "U310")
            for kind, x in (("U", np.array(new, dtype="U") if new else np.array([], "U1")), ("wide", np.array(new, "U400")), ("S", np.array([s.encode() for s in new], "S") if new else np.array([], "S1")),
                            ("list", new), ("tuple", tuple(new)), ("strided", np.array([s for w in new for s in (w, "other")], "U310")[::2]), ("column", wide.T[:, 1]),
                            ("reversed", np.array(new[::-1], "U310")[::-1]), ("reversed S", np.array([s.encode() for s in new[::-1]], "S900")[::-1])):
                v[:] = np.array(ref) if n else np.array([], "U1")
                r = list(ref)
                r[idx] = new
                ok, e = attempt(lambda: v.__setitem__(idx, x))
                if kind in ("list", "tuple") and not new and not ok:
                    continue
                if not ok or text(v[:]) != r:
                    rec.violation("assign %s" % kind, "%s: %r instead of %r (%r)" % (name, text(v[:]), r, e))
                rec.trans()
            for kind, x in (("more", np.array(new + ["more"])), ("more S", np.array([s.encode() for s in new] + [b"m"])), ("fewer", np.array(new[:-1], "U1") if new else np.array(["m"])), ("two", np.array([new, new], "U5")),
                            ("numbers", np.arange(len(want))), ("zero", np.array("a")), ("text", "abc"), ("number", 5), ("none", np.array([None] * len(want) + [None])), ("complex", np.array([1j] * len(want)))):
                if not len(want) and kind in ("numbers", "complex"):
                    continue
                v[:] = np.array(ref) if n else np.array([], "U1")
                ok, e = attempt(lambda: v.__setitem__(idx, x))
                if ok or text(v[:]) != ref:
                    rec.violation("refuse %s" % kind, "%s: %r became %r" % (name, ref, text(v[:])))
                rec.trans()
            rec.outcome((n, len(want), step))
    rec.state(n)
    del v, h, ds
    os.remove(path)


def history(case, rec, m):
    path = fresh(rec)
    ds, h = create(m, path)
    handles = [(ds, h)]
    ref, written = [], False
    for i, op in enumerate(case["ops"]):
        v = handles[-1][1][3]
        key = "after " + op
        if op[0] == "e":
            k = int(op[1])
            v.expand(k)
            ref += [""] * k
        elif op == "R":
            handles = []
            del v, h, ds
            ds = m.open_dataset(path, "w")
            h = open_value(ds)
            handles.append((ds, h))
        elif op == "H":
            d2 = m.open_dataset(path, "w")
            handles.append((d2, open_value(d2)))
        else:
            new = [POOL[(3 * i + j * 5 + len(op)) % len(POOL)] + "x" * (i % 3) for j in range(len(ref))]
            kind = op[1]
            idx, must = slice(None), True
            if kind == "U":
                x = np.array(new)
            elif kind == "S":
                x = np.array([s.encode() for s in new])
            elif kind == "L":
                x = new
            elif kind == "T":
                idx, new = slice(0, 1), new[:1]
                x = tuple(new)
            elif kind == "W":
                idx, new = slice(1, None, 2), new[1::2]
                x = np.array(new, "U500")
            elif kind == "0":
                x, new = np.array([""] * len(ref)), [""] * len(ref)
            elif kind == "B":
                x, must = np.array(["\ud800"] + new[1:]), False
            elif kind == "N":
                x, must = np.arange(len(ref)), False
            elif kind == "M":
                x, must = np.array([new]), False
            elif kind == "+":
                x, must = np.array(new + new), False
            else:
                idx, x, must = slice(len(ref), None), np.array(["z"]), False
            ok, e = attempt(lambda: v.__setitem__(idx, x))
            if ok != must:
                rec.violation("%s: %s" % (op, "fails" if must else "accepted"), "%r: %r" % (case, e))
            if must:
                ref[idx] = new
                written = True
        rec.trans()
        for d, hh in handles if written else []:
            ok, got = attempt(lambda: text(hh[3][:]))
            if got != ref:
                rec.violation(key, "%r: %r instead of %r" % (case, got, ref))
            part = attempt(lambda: text(hh[3][1:]))[1]
            if part != ref[1:]:
                rec.violation(key + " part", "%r: %r instead of %r" % (case, part, ref[1:]))
            if hh[3].nr_arrays != len(ref):
                rec.violation(key + " number", "%r: %d instead of %d" % (case, hh[3].nr_arrays, len(ref)))
            del hh, d
        v = None
        rec.state((tuple(ref), len(handles))), rec.outcome((op, tuple(ref)))
    rec.trace()
    h = ds = handles = None
    os.remove(path)


def run(case, rec):
    m = ldm()
    if "points" in case:
        points(case, rec, m)
    elif "slices" in case:
        slices(case, rec, m)
    else:
        history(case, rec, m)
