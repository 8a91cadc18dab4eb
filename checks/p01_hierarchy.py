"""P01: a dataset contains exactly what its history of additions says, now and after being reopened."""
import itertools, os
import numpy as np
import build as B
from ldmutil import *

PROPERTY = "P01"
LEVEL = "model_checking"
RULE = ("every sequence of additions (universes, phenomena, property sets, collection property sets, the six kinds of "
        "properties; new names and names already in use) and reopenings, up to the bound, is executed on a real "
        "dataset next to a nested-dictionary model; a state is the tree of names and kinds")
BOUND = {"quick": "five alphabets of 5 - 20 operations, depth 3 - 5, two names per collection; a compare of the whole "
                  "tree after every operation and after closing and reopening",
         "thorough": "as quick, one operation deeper, and names of unusual characters"}
ASSUMPTIONS = ["the items are added through one set of handles at a time"]
CHUNK = 100
CASE_TIMEOUT = 20


def build():
    B.lue(["lue_py"])


KINDS = ["ss", "sscs", "ssvs", "ds", "dscs", "dsvs"]


def add_prop(m, pset, name, kind, description):
    dt = np.dtype("i4")
    kw = {"description": description} if description else {}
    if kind == "ss":
        return pset.add_property(name, dt, (2,), **kw)
    if kind == "ss0":
        return pset.add_property(name, dt, **kw)
    if kind == "sscs":
        return pset.add_property(name, dt, (2,), m.ValueVariability.variable, **kw)
    if kind == "ssvs":
        return pset.add_property(name, dt, 2, m.ShapePerObject.same, m.ShapeVariability.variable, **kw)
    if kind == "ds":
        return pset.add_property(name, dt, 2, **kw)
    if kind == "dscs":
        return pset.add_property(name, dt, 2, m.ShapePerObject.different, m.ShapeVariability.constant, **kw)
    if kind == "dsvs":
        return pset.add_property(name, dt, 2, m.ShapePerObject.different, m.ShapeVariability.variable, **kw)


# ---- the model: {"u": {name: {"p": ...}}, "p": {name: {"d": descr, "s": {}, "c": {}}}}, a set: {prop: (kind, descr)}

def empty():
    return {"u": {}, "p": {}}


def locate(model, path):
    """path: e.g. ["u", "a", "p", "b", "s", "x"]"""
    x = model
    for k in path:
        x = x[k]
    return x


def apply(model, op):
    """Returns whether the operation must be accepted; updates the model."""
    what = op[0]
    if what == "reopen":
        return True
    path, name = op[1], op[2]
    c = locate(model, path)
    if what == "u":
        if name in c["u"]:
            return False
        c["u"][name] = {"p": {}}
    elif what == "p":
        if name in c["p"]:
            return False
        c["p"][name] = {"d": op[3], "s": {}, "c": {}}
    elif what in ("s", "c"):
        if name in c[what]:
            return False
        c[what][name] = {}
    elif what == "x":
        if name in c:
            return False
        c[name] = (op[3], op[4])
    return True


def clone(x):
    return {k: clone(v) for k, v in x.items()} if isinstance(x, dict) else x


def alphabet(model, names, kinds, what, reopen):
    ops = []
    if "u" in what:
        ops += [["u", [], n] for n in names]
    places = [[]] + [["u", n] for n in sorted(model["u"])]
    for pl in places:
        if "p" in what:
            ops += [["p", pl, n, "descr of " + n if n == names[0] else ""] for n in names]
        for ph in sorted(locate(model, pl)["p"]):
            pp = pl + ["p", ph]
            for kind in ("s", "c"):
                if kind in what:
                    ops += [[kind, pp, n] for n in names]
                for s in sorted(locate(model, pp)[kind]):
                    if "x" in what:
                        ops += [["x", pp + [kind, s], n, k, "about " + k if k in ("ss", "dscs") else ""]
                                for n in names for k in kinds]
    if reopen:
        ops.append(["reopen"])
    return ops


def sequences(base, depth, names, kinds, what, reopen):
    model = empty()
    for op in base:
        apply(model, op)

    def rec(prefix, model, left):
        if left == 0:
            yield prefix
            return
        for op in alphabet(model, names, kinds, what, reopen):
            if op[0] == "reopen" and prefix and prefix[-1][0] == "reopen":
                continue
            m2 = clone(model)
            apply(m2, op)
            yield from rec(prefix + [op], m2, left - 1)
    yield from rec([], model, depth)


P = ["p", [], "p", ""]
SET = ["s", ["p", "p"], "s"]
COL = ["c", ["p", "p"], "s"]
UP = [["u", [], "u"], ["p", ["u", "u"], "p", ""]]
ODD = ["", ".", "/", "a/b", "/a", "a/", "..", " ", "é€", "a.b", "lue", "lue_phenomena", "a b", "a\0b", "x" * 300]


def cases(tier):
    more = 0 if tier == "quick" else 1
    def emit(label, base, depth, names, kinds, what, reopen, nav):
        for seq in sequences(base, depth, names, kinds, what, reopen):
            for n in nav:
                yield {"base": base, "ops": seq, "nav": n, "label": label}
    yield from emit("top", [], 3, ["a", "b"], [], "up", True, [0, 1, 2])
    yield from emit("sets", [P], 3, ["a", "b"], [], "sc", True, [0, 1])
    yield from emit("props", [P, SET], 2, ["a", "b"], KINDS + ["ss0"], "x", False, [0, 1, 2])
    yield from emit("mixed", [P], 3, ["a"], ["ss", "dsvs"], "upscx", False, [0, 2])
    yield from emit("top", [], 4 + more, ["a", "b"], [], "up", True, [0])
    yield from emit("sets", [P, ["p", [], "q", ""]], 3 + more, ["a", "b"], [], "sc", True, [0])
    yield from emit("sets", UP, 3 + more, ["a", "b"], [], "sc", True, [1])
    yield from emit("props", [P, SET, COL], 2, ["a", "b"], KINDS, "x", True, [1])
    yield from emit("props", [P, SET], 3, ["a", "b"] if more else ["a"], KINDS, "x", True, [0])
    yield from emit("mixed", [], 4 + more, ["a"], ["ss", "dscs", "ssvs"], "upscx", True, [0])
    for what, base, path in (("u", [], []), ("p", [], []), ("s", [P], ["p", "p"]), ("c", [P], ["p", "p"]),
                             ("x", [P, SET], ["p", "p", "s", "s"])):
        tail = {"u": [], "p": [""], "s": [], "c": [], "x": ["ss", ""]}[what]
        for odd in ODD:
            for first in ([], [[what, path, "a"] + tail]):
                yield {"base": base + first, "ops": [[what, path, odd] + tail], "nav": 0, "odd": 1, "label": "odd"}


class Handles:
    """nav 0: handles obtained when an item is added are kept and used. 1: every access navigates collections from
    the dataset. 2: every access navigates attributes from the dataset."""

    def __init__(self, m, path, ds, nav):
        self.m, self.path, self.ds, self.nav = m, path, ds, nav
        self.kept = {}

    def get(self, path):
        key = tuple(path)
        if not key:
            return self.ds
        if self.nav == 0 and key in self.kept:
            return self.kept[key]
        x = self.ds
        for k, n in zip(path[::2], path[1::2]):
            shadowed = x is self.ds and k == "p" and n in x.universes.names
            if self.nav == 2 and k != "c" and not shadowed:
                x = getattr(x, n)
            else:
                x = {"u": lambda: x.universes, "p": lambda: x.phenomena, "s": lambda: x.property_sets,
                     "c": lambda: x.collection_property_sets}[k]()[n]
        return x

    def do(self, op):
        c = self.get(op[1])
        n = op[2]
        if op[0] == "u":
            r = c.add_universe(n)
        elif op[0] == "p":
            r = c.add_phenomenon(n, op[3]) if op[3] else c.add_phenomenon(n)
        elif op[0] == "s":
            r = c.add_property_set(n)
        elif op[0] == "c":
            r = c.add_collection_property_set(n)
        else:
            r = add_prop(self.m, c, n, op[3], op[4])
        self.kept[tuple(op[1]) + (op[0], n)] = r


VAR = {"ss": ("constant", "same", None), "ss0": ("constant", "same", None), "ds": ("constant", "different", None),
       "sscs": ("variable", "same", "constant"), "ssvs": ("variable", "same", "variable"),
       "dscs": ("variable", "different", "constant"), "dsvs": ("variable", "different", "variable")}


def compare(m, model, ds, absent, note):
    """Yields differences between the dataset and the model."""
    def coll(where, c, want):
        if sorted(c.names) != sorted(want) or len(c.names) != len(set(c.names)):
            note(where + ": names are %s, expected %s" % (sorted(c.names), sorted(want)))
            return False
        if hasattr(c, "__len__") and len(c) != len(want):
            note(where + ": size is %d, expected %d" % (len(c), len(want)))
        for n in want:
            if n not in c:
                note(where + ": %r is not found" % n)
        for n in absent:
            if n not in want and n in c:
                note(where + ": %r is found" % n)
            if n not in want:
                ok, r = attempt(lambda: c[n])
                if ok:
                    note(where + ": item %r can be obtained" % n)
        return True

    def phenomena(where, c, want):
        if not coll(where, c, want):
            return
        for n, w in want.items():
            ph = c[n]
            if ph.description != w["d"]:
                note(where + "/%s: description %r" % (n, ph.description))
            if ph.object_id.nr_objects if hasattr(ph.object_id, "nr_objects") else 0:
                note(where + "/%s: has objects" % n)
            for k, sets in (("s", ph.property_sets), ("c", ph.collection_property_sets)):
                if not coll(where + "/%s/%s" % (n, k), sets, w[k]):
                    continue
                for sn, props in w[k].items():
                    ps = sets[sn]
                    at = where + "/%s/%s/%s" % (n, k, sn)
                    if not coll(at, ps.properties, props):
                        continue
                    if ps.has_time_domain or ps.has_space_domain:
                        note(at + ": has a domain")
                    for pn, (kind, descr) in props.items():
                        vv, so, sv = VAR[kind]
                        pr = ps.properties
                        if pr.value_variability(pn) != getattr(m.ValueVariability, vv):
                            note(at + "/%s: value variability" % pn)
                        if pr.shape_per_object(pn) != getattr(m.ShapePerObject, so):
                            note(at + "/%s: shape per object" % pn)
                        if sv and pr.shape_variability(pn) != getattr(m.ShapeVariability, sv):
                            note(at + "/%s: shape variability" % pn)
                        p = pr[pn]
                        if p.description != descr:
                            note(at + "/%s: description %r" % (pn, p.description))
                        if p.value.dtype != np.dtype("i4"):
                            note(at + "/%s: dtype %s" % (pn, p.value.dtype))
    if coll("universes", ds.universes, model["u"]):
        for n, w in model["u"].items():
            phenomena("universes/" + n, ds.universes[n].phenomena, w["p"])
    phenomena("phenomena", ds.phenomena, model["p"])


def run(case, rec):
    m = ldm()
    path = fresh(rec)
    if os.path.exists(path):
        os.remove(path)
    model = empty()
    h = Handles(m, path, m.create_dataset(path), case["nav"])
    odd = case.get("odd")
    absent = ["a", "b", "zz"]
    label = case["label"]
    n = 0
    for op in case["base"] + case["ops"]:
        n += 1
        if op[0] == "reopen":
            del h
            h = Handles(m, path, m.open_dataset(path, "w"), case["nav"])
            rec.trans()
            if n > len(case["base"]):
                compare(m, model, h.ds, absent, lambda t: rec.violation("%s: reopened" % label, t))
            continue
        trial = clone(model)
        must = apply(trial, op)
        ok, r = attempt(h.do, op)
        rec.trans()
        what = "%s: add %s" % (label, op[0] if op[0] != "x" else op[3])
        if odd and n > len(case["base"]):
            what += " %r" % op[2][:12]
            if ok:
                model = trial
        else:
            if must and not ok:
                rec.violation(what + " rejected", "%s: %r" % (op, r))
            elif not must and ok:
                rec.violation(what + " duplicate accepted", "%s" % op)
            if must:
                model = trial
        rec.outcome((op[0], ok, must, type(r).__name__ if not ok else ""))
        if n >= len(case["base"]):
            compare(m, model, h.ds, absent, lambda t: rec.violation(what + " then compare", "%s: %s" % (op, t)))
        rec.state(sorted_repr(model))
    del h
    ok, ds = attempt(m.open_dataset, path, "r")
    if not ok:
        rec.violation("%s: reopen fails" % label, repr(ds))
        return
    compare(m, model, ds, absent, lambda t: rec.violation(
        "%s: after reopen%s" % (label, " %s %r" % (case["ops"][0][0], case["ops"][0][2][:12]) if odd else ""), t))
    del ds
    rec.trace()
    os.remove(path)


def sorted_repr(x):
    return repr(sorted((k, sorted_repr(v)) for k, v in x.items())) if isinstance(x, dict) else repr(x)
