"""P07: indexing and assigning arrays through the Python API agrees with NumPy."""
import itertools, os
import numpy as np
import build as B
from ldmutil import *

PROPERTY = "P07"
LEVEL = "exploration"
RULE = ("every (array shape, element type, index expression) of a bounded alphabet is read, and assigned with every "
        "kind of value, on a real dataset; every kind of value at the limits of its type is assigned to elements of every "
        "type; NumPy is the oracle. An outcome is distinct by (shape of the result, "
        "number of elements changed, exception type)")
BOUND = {"quick": "1-D extents 0..3 with all ints and all slices over start/stop in {None,-n-1..n+1}, step in "
                  "{None,1,2,3,-1,-2}; 2-D and 3-D arrays with all combinations of 14 per-dimension indices; 10 types",
         "thorough": "as quick with extents up to 5, and 20 per-dimension indices"}
ASSUMPTIONS = ["NumPy's basic indexing is the reference", "index kinds NumPy has but the API documents as unsupported "
               "(negative steps, masks, None, Ellipsis) may raise, but may not silently give another answer"]
CHUNK = 20
DTYPES = ["u1", "i1", "u2", "i2", "u4", "i4", "u8", "i8", "f4", "f8"]


def build():
    B.lue(["lue_py"])


def slices(n, steps):
    vals = [None] + list(range(-n - 1, n + 2))
    for step in steps:
        for a in vals:
            for b in vals:
                yield ["s", a, b, step]


def per_dim(n, tier):
    r = [i for i in range(-n - 1, n + 1)]
    r += [["s", None, None, None], ["s", 1, None, None], ["s", None, -1, None], ["s", None, None, 2],
          ["s", 1, 1, None], ["s", -1, None, None], ["s", 1, None, 2], ["s", 0, 1, None]]
    if tier == "thorough":
        r += [["s", None, None, 3], ["s", 5, 9, None], ["s", -2, 7, 2], ["s", 2, 1, None], ["s", None, None, -1]]
    return r


def numbers(dt):
    """Values at the limits of what an element type can represent."""
    if dt.kind == "f":
        f = np.finfo(dt)
        return [0.0, -0.0, 1.5, -2.25, 0.1, float(f.max), float(f.min), float(f.tiny), float("inf"), float("-inf"), float("nan"), 3, -4]
    i = np.iinfo(dt)
    return sorted({0, 1, int(i.max), int(i.max) - 1, int(i.min), int(i.min) + 1, 127, 100, int(i.max) // 2 + 1})


def representable(x, dt):
    """Whether values of an element type survive conversion to another one, as NumPy does it."""
    with np.errstate(all="ignore"):
        y = x.astype(dt)
        return np.array_equal(y.astype("O"), x.astype("O"), equal_nan=False) or (
            x.dtype.kind == "f" and dt.kind == "f" and bool(np.all(np.isfinite(y) == np.isfinite(x))))


def run_values(case, rec):
    """Every kind of value, at the limits of its type, assigned to elements of every type."""
    m = ldm()
    dt, src = np.dtype(case["dtype"]), case["values"]
    path = fresh(rec)
    ds = m.create_dataset(path)
    pset = ds.add_phenomenon("p").add_property_set("s")
    one = pset.add_property("x", dt).value.expand(3)
    two = pset.add_property("y", dt, (2,)).value.expand(3)
    zero = {1: np.zeros(3, dt), 2: np.zeros((3, 2), dt)}
    targets = [(1, one, 1), (1, one, slice(None)), (1, one, slice(1, 3)), (1, one, slice(0, 3, 2)), (1, one, (2,)),
               (2, two, 1), (2, two, slice(0, 2)), (2, two, (1, 0)), (2, two, (slice(None), 1)), (2, two, -1)]
    base = np.array(numbers(np.dtype(src.replace("list", "").replace("tuple", "") or dt) if src not in ("py", "list", "tuple", "b") else dt)
                    if src != "b" else [True, False], "O")
    for rank, value, idx in targets:
        for k in range(len(base)):
            want_shape = np.shape(zero[rank][idx])
            count = int(np.prod(want_shape))
            picked = [base[(k + j) % len(base)] for j in range(count)]
            if src in ("py", "b"):
                candidates = [base[k]]
            elif src in ("list", "tuple"):
                if not want_shape:
                    continue
                as_list = np.array(picked, "O").reshape(want_shape).tolist()
                candidates = [as_list if src == "list" else tuple(tuple(r) if isinstance(r, list) else r for r in as_list)]
            else:
                t = np.dtype(src)
                candidates = [t.type(base[k]), np.array(base[k]).astype(t), np.array(picked).astype(t).reshape(want_shape)]
            for v in candidates:
                if isinstance(v, (np.ndarray, np.generic)) and not representable(np.asarray(v), dt):
                    continue
                ref = zero[rank].copy()
                value[:] = ref
                with np.errstate(all="ignore"):
                    ok_w, ew = attempt(lambda: ref.__setitem__(idx, v))
                ok, e = attempt(lambda: value.__setitem__(idx, v))
                now = np.asarray(value[:])
                rec.trans()
                name = "%s rank %d [%s] = %s %r" % (dt.name, rank, idx, src, v)
                if ok_w and not ok:
                    rec.violation("value %s %s" % (dt.name, src), "%s: raised %r" % (name, e))
                elif ok_w and not (now.dtype == ref.dtype and now.tobytes() == ref.tobytes() or same(now, ref)):
                    rec.violation("value %s %s" % (dt.name, src), "%s: array is %s, expected %s" % (name, now.tolist(), ref.tolist()))
                elif not ok_w and (ok or not same(now, zero[rank])):
                    rec.violation("value %s %s" % (dt.name, src), "%s: accepted, array is %s; NumPy raises %r" % (name, now.tolist(), ew))
                rec.outcome(("v", dt.name, src, ok))
    # What is no number leaves everything as it was
    one[:] = np.array([1, 2, 3], dt)
    for bad in (None, "a", "1x", b"a", object(), [None, 1, 2], ["a", "b", "c"], np.array(["a", "b", "c"]), np.array([b"a", b"b", b"c"]), 1j, np.array([1j, 2, 3]),
                [1, [2, 3]], {}, {1: 2}, np.array([None, 1, 2]), np.datetime64("2020-01-01"), 2 ** 70 if dt.kind != "f" else None, [1, 2, 2 ** 70] if dt.kind != "f" else None):
        for idx in (1, slice(None), (1,)):
            ok, e = attempt(lambda: one.__setitem__(idx, bad))
            rec.trans()
            if dt.kind == "f" and bad is None or isinstance(bad, list) and dt.kind == "f" and None in bad:
                if ok:
                    one[:] = np.array([1, 2, 3], dt)   # NumPy stores NaN
                continue
            if ok or not same(one[:], np.array([1, 2, 3], dt)):
                rec.violation("no number %s" % dt.name, "[%s] = %r: array is %s" % (idx, bad, one[:]))
    del one, two, pset, ds
    os.remove(path)


VALUES = DTYPES + ["f2", ">i4", ">f8", ">u2", "py", "list", "tuple", "b"]


def cases(tier):
    for dt in DTYPES:
        for src in VALUES:
            yield {"dtype": dt, "values": src}
    top = 3 if tier == "quick" else 5
    for n in range(0, top + 1):
        idx = list(range(-n - 2, n + 2)) + list(slices(n, [None, 1, 2, 3, -1, -2]))
        for dt in (DTYPES if n in (2, 3) else ["i4", "f8"]):
            for i in range(0, len(idx), 40):
                if dt not in ("i4", "u1", "f8") and i % 120:
                    continue
                yield {"shape": [n], "dtype": dt, "indices": idx[i:i + 40]}
    shapes = [[2, 2], [3, 2], [2, 3], [1, 3], [0, 2], [2, 1, 2], [2, 2, 3]]
    if tier == "thorough":
        shapes += [[4, 3], [3, 3, 2], [2, 2, 2, 2], [3, 2, 1, 2]]
    for shape in shapes:
        for dt in (["i4", "f8"] if tier == "quick" else ["i4", "f8", "u1", "i2"]):
            idx = [["t", []]]
            for k in range(1, len(shape) + 1):
                dims = [per_dim(n, tier) for n in shape[:k]]
                if k > 2:
                    dims = [d[::2] if i < k - 2 else d for i, d in enumerate(dims)]
                if k > 3:
                    dims = [d[::2] for d in dims]
                idx += [["t", list(x)] for x in itertools.product(*dims)]
            idx += per_dim(shape[0], tier)
            idx += [["t", [0] * (len(shape) + 1)], ["t", [["s", None, None, None]] * (len(shape) + 1)]]
            for i in range(0, len(idx), 60):
                yield {"shape": shape, "dtype": dt, "indices": idx[i:i + 60]}


def content(shape, dt):
    n = int(np.prod(shape))
    return (np.arange(n) + 1).astype(dt).reshape(shape)


def values_for(expected_shape, dt, size):
    """(name, value, must_work)"""
    n = int(np.prod(expected_shape))
    base = (np.arange(n) + 101).astype(dt).reshape(expected_shape)
    out = [("int", 77, True), ("float", 55.5, True), ("same", base, True)]
    out.append(("np.int8", np.int8(-3 if np.dtype(dt).kind != "u" else 3), True))
    out.append(("np.float32", np.float32(5.5), True))
    out.append(("i8", base.astype("i8"), True))
    out.append(("f8", base.astype("f8") + 0.5, True))
    if base.ndim >= 1:
        if n:
            out.append(("list", base.tolist(), True))
            out.append(("fractions", (base.astype("f8") + 0.25).tolist(), True))
    if base.ndim >= 1:
        out.append(("more", np.concatenate([base.ravel(), base.ravel()[:1], np.zeros(1, dt)]).astype(dt), False))
        if n > 1:
            out.append(("fewer", base.ravel()[:-1].copy(), False))
        if base.ndim >= 2 and base.shape[0] != base.shape[-1] and n:
            out.append(("strided", np.ascontiguousarray(base.T).T, True))
        if base.ndim == 1 and n:
            big = np.zeros(2 * n, dt)
            big[::2] = base
            out.append(("strided", big[::2], True))
    return out


def run(case, rec):
    if "values" in case:
        return run_values(case, rec)
    m = ldm()
    shape, dt = case["shape"], np.dtype(case["dtype"])
    path = fresh(rec)
    ds = m.create_dataset(path)
    pset = ds.add_phenomenon("p").add_property_set("s")
    value = pset.add_property("x", dt, tuple(shape[1:])).value.expand(shape[0])
    ref = content(shape, dt)
    value[:] = ref
    tag = "%s%s" % (dt.name, tuple(shape))
    if value.dtype != dt:
        rec.violation("dtype %s" % dt.name, "array of %s says its dtype is %s" % (dt, value.dtype))
    if tuple(value.shape) != tuple(shape):
        rec.violation("shape %s" % tag, "shape %s" % tuple(value.shape))

    def current():
        return np.asarray(value[:])

    if not same(current(), ref):
        rec.violation("write all " + tag, "wrote %s, read %s" % (ref.tolist(), current().tolist()))
        return
    for spec in case["indices"]:
        idx = index_from(spec)
        name = "%s[%s]" % (tag, show(spec))
        negative = has_negative_step(spec)
        ok_ref, want = attempt(lambda: ref[idx])
        ok, got = attempt(lambda: value[idx])
        rec.trans()
        if ok_ref:
            if ok:
                if not same(got, want):
                    rec.violation("read " + name, "read %r, expected %r" % (got, want))
                rec.outcome(("r", np.shape(want), negative))
            elif not negative:
                rec.violation("read " + name, "raised %r, expected %r" % (got, want))
            else:
                rec.outcome(("r", type(got).__name__))
        else:
            if ok:
                rec.violation("read " + name, "gave %r, NumPy raises %r" % (got, want))
            elif isinstance(want, IndexError) and not isinstance(got, IndexError):
                rec.violation("read " + name, "raised %r instead of IndexError" % (got,))
            rec.outcome(("r", "IndexError"))
        # ---- assignment
        wanted_shape = np.shape(want) if ok_ref else ()
        for vname, v, must in values_for(wanted_shape, dt, ref.size):
            r = ref.copy()
            ok_w, ew = attempt(lambda: r.__setitem__(idx, v))
            ok, e = attempt(lambda: value.__setitem__(idx, v))
            now = current()
            rec.trans()
            if ok_ref and ok_w:
                if ok:
                    if not same(now, r):
                        rec.violation("assign %s=%s" % (name, vname),
                                      "array is %s, expected %s" % (now.tolist(), r.tolist()))
                elif must and not negative:
                    rec.violation("assign %s=%s" % (name, vname), "raised %r" % (e,))
                elif not same(now, ref):
                    rec.violation("assign %s=%s" % (name, vname), "raised, and changed the array to %s" % now.tolist())
            elif not ok_ref:
                if ok:
                    rec.violation("assign %s=%s" % (name, vname), "accepted; NumPy raises %r" % (want,))
                if not same(now, ref):
                    rec.violation("assign %s=%s" % (name, vname), "index is invalid, array became %s" % now.tolist())
            else:
                # the number of values does not fit
                if ok:
                    rec.violation("assign %s=%s" % (name, vname), "accepted; NumPy raises %r" % (ew,))
                if not same(now, ref):
                    rec.violation("assign %s=%s" % (name, vname), "values do not fit, array became %s" % now.tolist())
            rec.outcome(("w", ok, int(np.sum(now != ref)) if now.shape == ref.shape else -1))
            if not same(now, ref):
                value[:] = ref
    # what was written last is what a new process would read
    final = (content(shape, dt) + 3).astype(dt)
    value[:] = final
    del value, pset, ds
    ds = m.open_dataset(path)
    phenomenon = ds.phenomena["p"]
    pset = phenomenon.property_sets["s"]
    prop = pset.properties["x"]
    again = prop.value
    if again.dtype != dt or not same(again[:], final):
        rec.violation("reopen " + tag, "read %r, expected %r" % (again[:], final))
    del again
    os.remove(path)


def has_negative_step(spec):
    if isinstance(spec, list):
        if spec[0] == "s":
            return spec[3] is not None and spec[3] < 0
        return any(has_negative_step(x) for x in spec[1])
    return False
