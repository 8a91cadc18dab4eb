"""P22: the Python API and the C++ API tell the same story about a dataset."""
import itertools, os, subprocess
import numpy as np
import build as B
from ldmutil import *

PROPERTY = "P22"
LEVEL = "model_checking"
RULE = ("every way to add a property set (all overloads, positional and keyword arguments, item types, clocks, epochs, coordinate types, ranks, "
        "shared time domains and object trackers), every way to add a property (all overloads x types x shapes), every sequence of expansions and "
        "assignments of all kinds of values up to a depth, all pairs of links between properties, all layouts of the arrays passed when expanding, "
        "raster views and refused calls; each is executed with the Python API next to a model, and compared with what the Python API says about the "
        "live and the reopened dataset and with what a program using the C++ API reads from the file")
BOUND = {"quick": "17 operations on the six kinds of values to depth 2 after a prefix; 3 sets x 8 properties; links to depth 2",
         "thorough": "17 operations to depth 4; links to depth 3"}
ASSUMPTIONS = ["values of same-shape/variable-shape properties are written, not read, in Python: the binding has no way to read them"]
CHUNK = 16
DUMP = os.path.join(B.BUILD, "harness", "p22_dump")
TYPES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"]
UNITS = ["nanosecond", "microsecond", "millisecond", "second", "minute", "hour", "day", "week", "month", "year"]
EPOCHS = [None, [], ["formation_of_earth"], ["common_era"], ["common_era", "2024-02-29"], ["formation_of_earth", "ééé 1"],
          ["common_era", "1970-01-01T00:00:00+00:00", "gregorian"]]
DEFAULT_EPOCH = ["common_era", "1970-01-01T00:00:00+00:00", "gregorian"]
ITEMS = ["box", "cell", "point"]
SPACES = [(m, i) for m in ("mobile", "stationary") for i in ("box", "point")]


def build():
    B.lue(["lue_py"])
    B.harness("p22_dump", libs=["lue_data_model", "lue_hdf5"])


# ------------------------------------------------------------------ cases

def cases(tier):
    thorough = tier != "quick"
    # clocks
    for n, (item, unit, nr, epoch) in enumerate(itertools.product(ITEMS, UNITS, (1, 3, 2 ** 40), EPOCHS)):
        yield time_case(item, [unit, nr, epoch], "pos" if n % 2 else "kw", n)
    # spaces
    n = 0
    for (m, i), t, rank, style in itertools.product(SPACES, TYPES, (1, 2, 3, 4), ("pos", "kw")):
        n += 1
        yield space_case(m, i, t, rank, style, n)
    # properties
    for style, descr, t in itertools.product(("pos", "kw"), ("", "descr é"), TYPES):
        for shape in ((), (1,), (3,), (2, 3), (2, 1, 2)):
            yield {"ops": BASE + [["prop", "p/p:s", "x", "ss", t, shape, descr, style, 0], ["prop", "p/p:s", "y", "ssK", t, shape, descr, style, 0],
                                  ["prop", "p/p:s", "z", "sscs", t, shape, descr, style, 0], ["fill", "p/p:s", "x", 2], ["fill", "p/p:s", "y", 3],
                                  ["fill", "p/p:s", "z", 1], ["fill", "p/p:s", "z", 2]]}
        yield {"ops": BASE + [["prop", "p/p:s", "x", "ss0", t, (), descr, style, 0], ["fill", "p/p:s", "x", 2]]}
        for rank in (1, 2, 3, 4):
            s1, s2, s3 = (2,) * rank, (1,) + (2,) * (rank - 1), (3,) + (1,) * (rank - 1)
            yield {"ops": BASE + [["ids", "p", [4, 9, 2 ** 63]], ["track", "p/p:s", [0, 2], [4, 9, 4], []],
                                  ["prop", "p/p:s", "x", "ssvs", t, rank, descr, style, 0], ["fill", "p/p:s", "x", 0, 2, s1], ["fill", "p/p:s", "x", 1, 1, s2],
                                  ["prop", "p/p:s", "y", "ds", t, rank, descr, style, 0], ["fill", "p/p:s", "y", [4, 9], [s1, s2], "array"], ["fill", "p/p:s", "y", [2 ** 63], [s3], "array"],
                                  ["prop", "p/p:s", "z", "dscs", t, rank, descr, style, 0], ["fill", "p/p:s", "z", 4, s2, 2], ["fill", "p/p:s", "z", 9, s3, 1],
                                  ["prop", "p/p:s", "a", "dsvs", t, rank, descr, style, 0], ["fill", "p/p:s", "a", 0, 9, s1], ["fill", "p/p:s", "a", 1, 4, s3]]}
    # ways to write types
    for spelled in range(len(SPELLED)):
        for kind, shape in (("ss0", ()), ("ss", (2,)), ("ssK", (2,)), ("sscs", (2,)), ("ssvs", 1), ("ds", 1), ("dscs", 1), ("dsvs", 1)):
            for style in ("pos", "kw"):
                yield {"ops": BASE + [["prop", "p/p:s", "x", kind, SPELLED[spelled][0], shape, "d", style, spelled + 1]]}
        if SPELLED[spelled][0] != "U":
            yield {"ops": BASE + [["set", "p/p:t", None, None, ["mobile", "box", SPELLED[spelled][0], 2], "pos", spelled + 1], ["space", "p/p:t", 2]]}
    # names, and where they lead
    for n in NAMES:
        yield {"ops": [["phen", n, n], ["univ", "u"], ["univ", n], ["phen", "u!" + n, "d"], ["phen", n + "!p", n], ["set", n + "/p:" + n, ["own", "box", ["day", 1, None]], None, None, "kw", 0],
                       ["set", n + "/c:" + n, ["share", n + "/p:" + n], None, None, "kw", 0], ["set", "u!" + n + "/p:" + n, None, None, ["mobile", "point", "f8", 2], "pos", 0],
                       ["prop", n + "/p:" + n, n, "ss", "i4", (2,), n, "kw", 0], ["prop", n + "/c:" + n, n, "ds", "i4", 2, n, "kw", 0], ["prop", "u!" + n + "/p:" + n, n, "dsvs", "f4", 2, n, "pos", 0],
                       ["ids", n, [3]], ["fill", n + "/c:" + n, n, [3], [(2, 1)], "array"], ["fill", n + "/p:" + n, n, 2]]}
    # histories
    for depth in (1, 2, 3, 4)[:4 if thorough else 2]:
        for ops in itertools.product(sorted(HISTORY), repeat=depth):
            yield {"h": list(ops)}
    # links
    for depth in (1, 2, 3)[:3 if thorough else 2]:
        for ops in itertools.product(LINKS, repeat=depth):
            yield {"ops": LINKED + [list(o) for o in ops]}
    # layouts
    for rank in (1, 2, 3):
        for n in (1, 2, 3):
            for layout in LAYOUTS:
                ids = [7, 3, 12][:n]
                shapes = [tuple(1 + (i + j) % 3 for j in range(rank)) for i in range(n)]
                yield {"ops": BASE + [["ids", "p", [7, 3, 12, 99]], ["prop", "p/p:s", "x", "ds", "i4", rank, "", "pos", 0], ["fill", "p/p:s", "x", [99], [(2,) * rank], "array"],
                                      ["fill", "p/p:s", "x", ids, shapes, layout]]}
    for kind in ("constant", "variable"):
        for shape in itertools.product((1, 2, 3), repeat=2):
            for box in ([0.0, 1.0, 2.0, 3.5], [-1e9, 0.25, 1e9, 1e308]):
                for layers in (["i4"], ["f8", "u1"], ["i8", "f4", "u2"]):
                    for steps in (1, 3):
                        yield {"raster": [kind, list(shape), box, layers, steps]}
    for k in range(24):
        yield {"refuse": k}
    for t in ("w", "r"):
        yield {"missing": t}


NAMES = ["n", "add_phenomenon x", "é", "a.b", "x" * 200, "phenomena", "id", "names", "1"]
BASE = [["phen", "p", ""], ["set", "p/p:s", None, None, None, "pos", 0]]
SPELLED = [("i4", lambda: np.int32), ("f8", lambda: float), ("i8", lambda: int), ("u1", lambda: "u1"), ("f4", lambda: "float32"), ("u8", lambda: "uint64"),
           ("i2", lambda: np.dtype("=i2")), ("u2", lambda: np.uint16), ("f8", lambda: "double"), ("i1", lambda: np.array([1], "i1").dtype), ("U", lambda: str),
           ("U", lambda: np.dtype("U")), ("i4", lambda: np.intc), ("u4", lambda: "<u4")]
LAYOUTS = ["array", "list", "tuple", "int64", "int32", "uint32", "strided", "reversed", "fortran", "columns", "rows", "broadcast"]


def time_case(item, clock, style, n):
    ops = [["phen", "p", "d%d" % n], ["phen", "q", ""], ["set", "p/p:a", ["own", item, clock], None, None, style, 0]]
    ops += [["set", "p/p:b", ["share", "p/p:a"], None, None, style, 0],
            ["set", "p/p:c", ["own", item, clock], "p/p:a", None, style, 0],
            ["set", "q/p:d", ["share", "p/p:a"], "p/p:b", None, style, 0],
            ["set", "q/c:e", ["share", "p/p:c"], None, None, style, 0],
            ["set", "q/c:f", None, None, None, style, 0],
            ["times", "p/p:a", 2], ["times", "q/p:d", 1], ["times", "q/c:e", 3],
            ["track", "p/p:b", [0, 2], [5, 6, 5], [1, 0, 2]], ["track", "p/p:c", [0], [2 ** 64 - 1], [0]]]
    return {"ops": ops}


def space_case(m, i, t, rank, style, n):
    sp = [m, i, t, rank]
    item = ITEMS[n % 3]
    clock = [UNITS[n % 10], 1 + n % 5, EPOCHS[n % 7]]
    ops = [["phen", "p", "d%d" % n], ["set", "p/p:a", None, None, sp, style, 0],
           ["set", "p/p:b", ["own", item, clock], None, sp, style, 0],
           ["set", "p/p:c", ["share", "p/p:b"], None, sp, style, 0],
           ["set", "p/p:d", ["share", "p/p:b"], "p/p:c", sp, style, 0],
           ["space", "p/p:a", 2], ["space", "p/p:b", 1], ["space", "p/p:c", 3], ["space", "p/p:d", 1], ["space", "p/p:a", 1],
           ["times", "p/p:c", 2], ["track", "p/p:d", [0], [1, 2], [0, 0]]]
    return {"ops": ops}


HISTORY_BASE = [["phen", "p", ""], ["set", "p/p:s", ["own", "cell", ["hour", 2, None]], None, ["mobile", "box", "f4", 2], "kw", 0], ["set", "p/c:s", ["share", "p/p:s"], None, None, "kw", 0],
                ["ids", "p", [5, 2, 8]],
                ["prop", "p/p:s", "ss", "ss", "i4", (2,), "", "pos", 0], ["prop", "p/c:s", "ss", "ss", "f8", (2, 2), "", "kw", 0], ["prop", "p/p:s", "sscs", "sscs", "u2", (3,), "", "pos", 0],
                ["prop", "p/p:s", "ssvs", "ssvs", "i8", 1, "", "pos", 0], ["prop", "p/p:s", "ds", "ds", "u1", 2, "", "pos", 0], ["prop", "p/p:s", "dscs", "dscs", "f4", 1, "", "kw", 0],
                ["prop", "p/p:s", "dsvs", "dsvs", "i2", 1, "", "pos", 0]]
HISTORY = {"ss": ["fill", "p/p:s", "ss", 1], "ss2": ["fill", "p/c:s", "ss", 2], "sscs": ["fill", "p/p:s", "sscs", 2], "ssvs": ["fill", "p/p:s", "ssvs", -1, 2, (2,)],
           "ssvs2": ["fill", "p/p:s", "ssvs", -1, 1, (3,)], "ds": ["fill", "p/p:s", "ds", -2, None, "array"], "dscs": ["fill", "p/p:s", "dscs", -1, (2,), 2],
           "dscs2": ["fill", "p/p:s", "dscs", -2, (1,), 1], "dsvs": ["fill", "p/p:s", "dsvs", -1, -1, (3,)], "dsvs2": ["fill", "p/p:s", "dsvs", -1, -2, (1,)],
           "t": ["times", "p/p:s", 2], "t2": ["times", "p/c:s", 1], "x": ["space", "p/p:s", 1], "i": ["ids", "p", [11]], "k": ["track", "p/p:s", None, [5, 8], [0, 0]],
           "R": ["R"], "w": ["overwrite", "p/p:s"]}
LINKED = [["phen", "p", ""], ["phen", "q", ""], ["set", "p/p:s", ["own", "point", ["day", 1, None]], None, ["stationary", "point", "f8", 2], "pos", 0],
          ["set", "q/p:s", None, None, ["mobile", "box", "f4", 1], "pos", 0], ["set", "p/c:t", None, None, None, "pos", 0],
          ["prop", "p/p:s", "a", "ss", "i4", (2,), "", "pos", 0], ["prop", "p/p:s", "b", "dscs", "i4", 2, "", "pos", 0],
          ["prop", "q/p:s", "a", "sscs", "f4", (2,), "", "pos", 0], ["prop", "p/c:t", "a", "ds", "u8", 1, "", "pos", 0], ["prop", "p/c:t", "c", "dsvs", "u8", 1, "", "pos", 0],
          ["prop", "q/p:s", "d", "ssvs", "u8", 1, "", "pos", 0]]
PROPS = [("p/p:s", "a"), ("p/p:s", "b"), ("q/p:s", "a"), ("p/c:t", "a"), ("p/c:t", "c"), ("q/p:s", "d")]
LINKS = [["link", w, s, x, s2, x2] for w in ("time", "space") for (s, x), (s2, x2) in itertools.product(PROPS[:4] + PROPS[5:], [PROPS[1], PROPS[2], PROPS[4], PROPS[5]]) if (s, x) != (s2, x2)]
LINKS += [["presence", s, s2, x2] for s in ("p/p:s", "q/p:s") for s2, x2 in PROPS] + [["R"]]


# ------------------------------------------------------------------ the model

class Tracker:
    def __init__(self):
        self.set_index, self.ids, self.index = [], [], []


class Time:
    def __init__(self, item, clock):
        self.item, self.clock = item, clock
        self.values, self.counts = [], []


class Set:
    def __init__(self):
        self.tracker, self.time, self.space, self.coords, self.presence, self.props = Tracker(), None, None, None, None, {}


class Prop:
    def __init__(self, kind, dtype, shape, description):
        self.kind, self.dtype, self.shape, self.description = kind, dtype, shape, description
        self.values = np.zeros((0,) + tuple(shape), dtype) if kind in ("ss", "sscs") and dtype != "U" else [] if kind == "ssvs" else {} if kind in ("ds", "dscs") else []
        self.links = {}


class Model:
    def __init__(self):
        self.description = ""
        self.universes, self.phen, self.sets = [], {}, {}

    def dump(self):
        d = {"description": quoted(self.description)}
        d["universes"] = " ".join(quoted(u) for u in order(self.universes))
        for u in self.universes:
            d["universe " + u] = " ".join(quoted(x) for x in order([p[len(u) + 1:] for p in self.phen if p.startswith(u + "!")]))
        d["phenomena"] = " ".join(quoted(p) for p in order([p for p in self.phen if "!" not in p]))
        seen_t, seen_d = {}, {}
        in_order = order([p for p in self.phen if "!" not in p])
        for u in order(self.universes):
            in_order += order([p for p in self.phen if p.startswith(u + "!")])
        for p in in_order:
            d[p + " description"] = quoted(self.phen[p][0])
            d[p + " ids"] = arr(np.array(self.phen[p][1], "u8"))
            for c in "pc":
                pk = p + "/" + c + ":"
                names = order([k[len(pk):] for k in self.sets if k.startswith(pk)])
                d[pk] = " ".join(quoted(n) for n in names)
                for n in names:
                    self.dump_set(d, pk + n, seen_t, seen_d)
        return d

    def dump_set(self, d, key, seen_t, seen_d):
        s = self.sets[key]
        k = key + " "
        d[k + "tracker"] = seen_t.setdefault(id(s.tracker), key)
        d[k + "set index"] = arr(np.array(s.tracker.set_index, "u8"))
        d[k + "object id"] = arr(np.array(s.tracker.ids, "u8"))
        d[k + "object index"] = arr(np.array(s.tracker.index, "u8"))
        if s.time:
            t = s.time
            d[k + "time domain"] = seen_d.setdefault(id(t), key)
            unit, nr, e = t.clock
            e = DEFAULT_EPOCH if not e else e
            e = e + [None] * (3 - len(e))
            d[k + "clock"] = "%s %d %s %s %s" % (unit, nr, e[0], quoted(e[1]) if e[1] is not None else "-", e[2] or "-")
            d[k + "time items"] = t.item
            width = 1 if t.item == "point" else 2
            d[k + "times"] = arr(np.array(t.values, "u8").reshape(len(t.values) // width, width))
            if t.item == "cell":
                d[k + "counts"] = arr(np.array(t.counts, "u8"))
        if s.space:
            m, i, t, rank = s.space
            d[k + "space domain"] = m + " " + i
            d[k + "space"] = arr(s.coords)
        if s.presence:
            d[k + "presence"] = s.presence
        for n, x in s.props.items():
            kk = k + n + " "
            d[kk + "kind"], d[kk + "description"] = x.kind, quoted(x.description)
            for w, target in x.links.items():
                d[kk + w + " discretization"] = target
            if x.kind in ("ss", "sscs"):
                d[kk + "values"] = arr(x.values) if x.dtype != "U" else "U %s 0" % show_shape((0,) + x.shape)
                d[kk + "shape"] = show_shape(x.shape)
                continue
            d[kk + "type"] = x.dtype
            d[kk + "rank"] = str(x.shape)
            if x.kind == "ssvs":
                d[kk + "locations"] = str(len(x.values))
                for i, v in enumerate(x.values):
                    d[kk + "values %d" % i] = arr(v)
            elif x.kind in ("ds", "dscs"):
                d[kk + "objects"] = str(len(x.values))
                for i, v in x.values.items():
                    d[kk + "values %d" % i] = arr(v)
            else:
                d[kk + "locations"] = str(len(x.values))
                for i, v in enumerate(x.values):
                    d[kk + "objects %d" % i] = str(len(v))
                    for j, a in v.items():
                        d[kk + "values %d %d" % (i, j)] = arr(a)


def order(names):
    return sorted(names, key=lambda s: s.encode())


def quoted(s):
    return "'" + s.encode().hex() + "'"


def show_shape(s):
    return "x".join(str(x) for x in s) or "-"


def arr(a):
    a = np.asarray(a)
    t = "U" if a.dtype.kind in "UO" else a.dtype.str[1:]
    return "%s %s %s" % (t, show_shape(a.shape), a.size if t == "U" else np.ascontiguousarray(a).tobytes().hex())


_count = [0]


def data(dtype, shape):
    n = int(np.prod(shape)) if len(shape) else 1
    _count[0] += 7
    a = (np.arange(n) + _count[0]) % 100 + 1
    a = a.astype(dtype) if np.dtype(dtype).kind != "f" else (a + 0.25).astype(dtype)
    if np.dtype(dtype).itemsize == 8 and np.dtype(dtype).kind in "iu":
        a = a << 40
    return a.reshape(shape)


# ------------------------------------------------------------------ the real thing

def phen_of(ds, p):
    if "!" in p:
        u, n = p.split("!", 1)
        return ds.universes[u].phenomena[n]
    return ds.phenomena[p]


def set_of(ds, key):
    p, s = key.split("/", 1)
    ph = phen_of(ds, p)
    return (ph.property_sets if s[0] == "p" else ph.collection_property_sets)[s[2:]]


class World:
    def __init__(self, rec, m, keep):
        self.rec, self.m, self.keep = rec, m, keep
        self.path = fresh(rec)
        self.ds = m.create_dataset(self.path)
        self.model = Model()
        self.handles = {}
        _count[0] = 0

    def set(self, key):
        if self.keep:
            if key not in self.handles:
                self.handles[key] = set_of(self.ds, key)
            return self.handles[key]
        return set_of(self.ds, key)

    def clock(self, c):
        m = self.m
        unit, nr, e = c
        if e is None:
            return m.Clock(getattr(m.Unit, unit), nr)
        args = [getattr(m.Epoch.Kind, e[0])] if e else []
        args += e[1:2]
        args += [getattr(m.Calendar, e[2])] if len(e) > 2 else []
        return m.Clock(m.Epoch(*args), getattr(m.Unit, unit), nr)

    def do(self, op):
        getattr(self, "do_" + op[0])(*op[1:])
        self.rec.trans()

    def do_phen(self, p, description):
        self.model.phen[p] = [description, []]
        where, n = (self.ds, p) if "!" not in p else (self.ds.universes[p.split("!")[0]], p.split("!")[1])
        x = where.add_phenomenon(n, description) if len(p) % 2 else where.add_phenomenon(name=n, description=description) if description else where.add_phenomenon(n)
        if type(x) is not self.m.Phenomenon:
            self.rec.violation("type of phenomenon", repr(x))

    def do_univ(self, u):
        self.model.universes.append(u)
        self.ds.add_universe(u) if len(u) % 2 else self.ds.add_universe(name=u)

    def do_set(self, key, time, tracker, space, style, spelled):
        m, mm = self.m, self.model
        s = mm.sets[key] = Set()
        p, n = key.split("/", 1)
        args = [("name", n[2:])]
        if time and time[0] == "own":
            s.time = Time(time[1], time[2])
            args += [("time_configuration", m.TimeConfiguration(getattr(m.TimeDomainItemType, time[1]))), ("clock", self.clock(time[2]))]
        elif time:
            s.time = mm.sets[time[1]].time
            args.append(("time_domain", self.set(time[1]).time_domain))
        if tracker:
            s.tracker = mm.sets[tracker].tracker
            args.append(("object_tracker", self.set(tracker).object_tracker))
        if space:
            s.space = space
            mob, i, t, rank = space
            s.coords = np.zeros((0, rank * (2 if i == "box" else 1)), t if t != "U" else "i4")
            dt = SPELLED[spelled - 1][1]() if spelled else np.dtype(t)
            args += [("space_configuration", m.SpaceConfiguration(getattr(m.Mobility, mob), getattr(m.SpaceDomainItemType, i))), ("space_coordinate_dtype", dt), ("rank", rank)]
        ph = phen_of(self.ds, p)
        f = ph.add_property_set if n[0] == "p" else ph.add_collection_property_set
        x = f(*[a for _, a in args]) if style == "pos" else f(**dict(args[::-1]))
        if type(x) is not m.PropertySet:
            self.rec.violation("type of property set", repr(x))
        if self.keep:
            self.handles[key] = x

    def do_ids(self, p, ids):
        v = phen_of(self.ds, p).object_id
        old = len(self.model.phen[p][1])
        self.model.phen[p][1] += ids
        v.expand(len(ids))[old:] = np.array(ids, "u8")

    def do_track(self, key, set_index, ids, index):
        t, mt = self.set(key).object_tracker, self.model.sets[key].tracker
        if set_index is None:
            set_index = [len(mt.ids)]
        for name, mine, new in (("active_set_index", mt.set_index, set_index), ("active_object_id", mt.ids, ids), ("active_object_index", mt.index, index)):
            if new:
                v = getattr(t, name)
                old = len(mine)
                mine += new
                v.expand(len(new))
                v[old:] = np.array(new, "u8")
                if v.nr_arrays != len(mine):
                    self.rec.violation("nr_arrays of " + name, "%d" % v.nr_arrays)

    def do_times(self, key, n):
        d, mt = self.set(key).time_domain, self.model.sets[key].time
        width = 1 if mt.item == "point" else 2
        new = data("u8", (n, width))
        old = len(mt.values) // width
        mt.values += [int(x) for x in new.reshape(-1)]
        v = d.value
        v.expand(n)[old:] = new
        if mt.item == "cell":
            c = data("u8", (n,))
            v.count.expand(n)[len(mt.counts):] = c
            mt.counts += [int(x) for x in c]
            if v.nr_counts != len(mt.counts):
                self.rec.violation("nr_counts", "%d" % v.nr_counts)
        if mt.item in ("cell", "box") and v.nr_boxes != len(mt.values) // 2:
            self.rec.violation("nr_boxes", "%d" % v.nr_boxes)

    def do_space(self, key, n):
        d, ms = self.set(key).space_domain, self.model.sets[key]
        new = data(ms.coords.dtype, (n,) + ms.coords.shape[1:])
        d.value.expand(n)[len(ms.coords):] = new
        ms.coords = np.concatenate([ms.coords, new])

    def do_prop(self, key, n, kind, t, shape, descr, style, spelled):
        m = self.m
        s = self.set(key)
        real = {"ss0": "ss", "ssK": "ss"}.get(kind, kind)
        self.model.sets[key].props[n] = Prop(real, t, tuple(shape) if real in ("ss", "sscs") else shape, descr)
        dt = SPELLED[spelled - 1][1]() if spelled else np.dtype(t)
        args = [("name", n), ("dtype", dt)]
        if kind in ("ss", "ssK", "sscs"):
            args.append(("shape", tuple(shape)))
        if kind == "ssK":
            args.append(("value_variability", m.ValueVariability.constant))
        if kind == "sscs":
            args.append(("value_variability", m.ValueVariability.variable))
        if kind in ("ssvs", "ds", "dscs", "dsvs"):
            args.append(("rank", shape))
        if kind == "ssvs":
            args += [("shape_per_object", m.ShapePerObject.same), ("shape_variability", m.ShapeVariability.variable)]
        if kind == "dscs":
            args += [("shape_per_object", m.ShapePerObject.different), ("shape_variability", m.ShapeVariability.constant)]
        if kind == "dsvs":
            args += [("shape_per_object", m.ShapePerObject.different), ("shape_variability", m.ShapeVariability.variable)]
        if descr:
            args.append(("description", descr))
        x = s.add_property(*[a for _, a in args]) if style == "pos" else s.add_property(**dict(args[::-1]))
        if type(x) is not cls(m, real):
            self.rec.violation("type of property " + kind, repr(x))
        if x.description != descr or x.id.name != n:
            self.rec.violation("new property", "%r %r" % (x.description, x.id.name))

    def do_fill(self, key, n, *a):
        s, mx = self.set(key), self.model.sets[key].props[n]
        ms = self.model.sets[key]
        v = s.properties[n].value
        known = self.model.phen[key.split("/")[0]][1]
        if mx.kind in ("ss", "sscs"):
            k, = a
            old = len(mx.values)
            new = data(mx.dtype, (k,) + mx.shape)
            mx.values = np.concatenate([mx.values, new])
            r = v.expand(k)
            r[old:] = new
            if r.nr_arrays != old + k or v.nr_arrays != old + k or tuple(v.array_shape) != mx.shape:
                self.rec.violation("nr_arrays " + mx.kind, "%d %d %r" % (r.nr_arrays, v.nr_arrays, v.array_shape))
        elif mx.kind == "ssvs":
            idx, k, shape = a
            idx = len(mx.values) if idx == -1 else idx
            new = data(mx.dtype, (k,) + tuple(shape))
            mx.values.append(new)
            r = v.expand(idx, k, tuple(shape))
            r[:] = new
            if not same(r[:], new):
                self.rec.violation("read after write ssvs", "%r" % r[:])
        elif mx.kind == "ds":
            ids, shapes, layout = a
            if ids == -2:
                ids = [i for i in known if i not in mx.values][:2]
                shapes = [(2, 1), (1, 3)][:len(ids)]
            if not ids:
                return
            i, sh, shapes = laid_out(ids, [tuple(x) for x in shapes], layout)
            r = v.expand(i, sh)
            if len(r) != len(mx.values) + len(ids) or len(v) != len(r):
                self.rec.violation("len ds", "%d" % len(r))
            for i, shape in zip(ids, shapes):
                mx.values[i] = data(mx.dtype, shape)
                v[i][:] = mx.values[i]
        elif mx.kind == "dscs":
            i, shape, k = a
            if i < 0:
                free = [j for j in known if j not in mx.values]
                if not free:
                    return
                i = free[0] if i == -1 else free[-1]
            new = data(mx.dtype, (k,) + tuple(shape))
            mx.values[i] = new
            r = v.expand(i, tuple(shape), k)
            r[:] = new
            if r.nr_arrays != k or tuple(r.array_shape) != tuple(shape) or r.rank != len(shape) or len(v) != len(mx.values):
                self.rec.violation("new dscs", "%d %r %d %d" % (r.nr_arrays, r.array_shape, r.rank, len(v)))
        else:
            idx, i, shape = a
            if idx == -1:
                idx = max(0, len(mx.values) - 1)
                if i == -2:
                    idx = len(mx.values)
                i = 8 if i == -1 else 5
                active = len(ms.tracker.set_index)
                if idx >= active or (idx < len(mx.values) and i in mx.values[idx]):
                    return
            new = data(mx.dtype, tuple(shape))
            while len(mx.values) <= idx:
                mx.values.append({})
            mx.values[idx][i] = new
            r = v.expand(idx, i, tuple(shape))
            r[i][:] = new
            if len(r) != len(mx.values[idx]):
                self.rec.violation("len dsvs", "%d" % len(r))

    def do_overwrite(self, key):
        s, ms = self.set(key), self.model.sets[key]
        for n, x in ms.props.items():
            if x.kind in ("ss", "sscs") and len(x.values):
                x.values[-1] = data(x.dtype, x.shape)
                s.properties[n].value[-1] = x.values[-1]
            if x.kind in ("ds", "dscs"):
                for i in x.values:
                    x.values[i] = data(x.dtype, x.values[i].shape)
                    getattr(s, n).value[i][:] = x.values[i]
            if x.kind == "dsvs":
                for k, d in enumerate(x.values):
                    for i in d:
                        d[i] = data(x.dtype, d[i].shape)
                        s.properties[n].value[k][i][:] = d[i]
        if len(ms.coords):
            ms.coords[0] = data(ms.coords.dtype, ms.coords.shape[1:])
            s.space_domain.value[0] = ms.coords[0]

    def do_link(self, what, key, n, key2, n2):
        x, y = self.set(key).properties[n], self.set(key2).properties[n2]
        mx = self.model.sets[key].props[n]
        m = self.m
        f, arg = (x.set_time_discretization, m.TimeDiscretization.regular_grid) if what == "time" else (x.set_space_discretization, m.SpaceDiscretization.regular_grid)
        ok, e = attempt(f, arg, y) if len(n2 + key) % 2 else attempt(f, type=arg, property=y)
        must = what not in mx.links
        if ok != must:
            self.rec.violation("%s discretization %s" % (what, "refused" if must else "set twice"), repr(e))
        if must:
            mx.links[what] = key2 + " " + n2

    def do_presence(self, key, key2, n2):
        ms = self.model.sets[key]
        ok, e = attempt(self.set(key).space_domain.set_presence_discretization, self.set(key2).properties[n2])
        must = ms.presence is None
        if ok != must:
            self.rec.violation("presence %s" % ("refused" if must else "set twice"), repr(e))
        if must:
            ms.presence = key2 + " " + n2

    def do_R(self):
        self.handles.clear()
        self.ds = None
        self.ds = self.m.open_dataset(self.path, "w")

    def compare(self, what, got, want):
        if "exception" in got:
            self.rec.violation("%s: exception" % what, got["exception"])
            return
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k):
                kind = k.split(" ", 1)[-1] if "/" in k else k
                self.rec.violation("%s: %s" % (what, kind[:30]), "%s: %r instead of %r" % (k, str(got.get(k))[:300], str(want.get(k))[:300]))
                return

    def finish(self):
        want = self.model.dump()
        inpy = {k: v for k, v in want.items() if not hidden(k, want)}
        # __call__ here and there while the dataset is being written
        self.compare("Python, live", walk(self.m, self.ds, self.rec, inpy), inpy)
        self.handles.clear()
        self.ds = None
        got = dump(self.path)
        got.pop("lue_version", None)
        self.compare("C++", got, want)
        ds = self.m.open_dataset(self.path)
        self.compare("Python, reopened", walk(self.m, ds, self.rec, inpy), inpy)
        del ds
        self.rec.trace()
        self.rec.state(tuple(sorted(want.items())))
        self.rec.outcome(tuple(sorted((k, v[:12]) for k, v in want.items())))
        os.remove(self.path)


def laid_out(ids, shapes, layout):
    n, rank = len(ids), len(shapes[0])
    i, s = np.array(ids, "u8"), np.array(shapes, "u8").reshape(n, rank)
    if layout == "list":
        return list(ids), [list(x) for x in shapes], shapes
    if layout == "tuple":
        return tuple(ids), tuple(shapes), shapes
    if layout in ("int64", "int32", "uint32"):
        return i.astype(layout), s.astype(layout), shapes
    if layout == "strided":
        i2, s2 = np.full(2 * n, 55, "u8"), np.full((2 * n, 3 * rank), 9, "u8")
        i2[::2], s2[::2, ::3] = i, s
        return i2[::2], s2[::2, ::3], shapes
    if layout == "reversed":
        return i[::-1].copy()[::-1], s[::-1].copy()[::-1], shapes
    if layout == "fortran":
        return i, np.asfortranarray(s), shapes
    if layout == "columns":
        t = np.zeros((n, rank + 1), "u8")
        t[:, 0], t[:, 1:] = i, s
        return t[:, 0], t[:, 1:], shapes
    if layout == "rows":
        t = np.zeros((rank + 1, n), "u8")
        t[0], t[1:] = i, s.T
        return t[0], t[1:].T, shapes
    if layout == "broadcast":
        return i, np.broadcast_to(s[0], (n, rank)), [shapes[0]] * n
    return i, s, shapes


def hidden(k, want):
    """What cannot be seen with the Python API"""
    if "/" not in k:
        return False
    last = k.split(" ")[-1]
    if last in ("tracker",) or k.endswith("time domain") or k.endswith("time discretization"):
        return True
    if last == "rank" or last == "locations":
        return True
    key = k.split(" values ")[0]
    return " values " in k and want.get(key + " kind") == "ssvs"


def cls(m, kind):
    return {"ss": m.same_shape.Property, "sscs": m.same_shape.constant_shape.Property, "ssvs": m.same_shape.variable_shape.Property,
            "ds": m.different_shape.Property, "dscs": m.different_shape.constant_shape.Property, "dsvs": m.different_shape.variable_shape.Property}[kind]


_dump = {}


def dump(path):
    pid = os.getpid()
    if pid not in _dump:
        _dump.clear()
        _dump[pid] = subprocess.Popen([DUMP], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, close_fds=True)
    p = _dump[pid]
    try:
        p.stdin.write(path.encode() + b"\n")
        p.stdin.flush()
    except OSError:
        pass
    d = {}
    while True:
        line = p.stdout.readline()
        if not line:
            _dump.clear()
            d["exception"] = "the program using the C++ API ended"
            break
        line = line.decode().rstrip("\n")
        if line == "END":
            break
        k, v = line.split("\t", 1)
        d[k] = v
    return d


def walk(m, ds, rec, want):
    """What the Python API says. Objects for which values must be there are looked for."""
    d = {}

    def check(ok, key, message):
        if not ok:
            rec.violation(key, message)

    def collection(c, what):
        names = order(list(c.names))
        check(len(c) == len(names), "len of " + what, "%d, names %r" % (len(c), names))
        for n in names:
            check(n in c, "in " + what, n)
            check(c[n].id.name == n, "name in " + what, "%r %r" % (n, c[n].id.name))
        check("no such name" not in c, "in " + what, "no such name")
        return names

    d["description"] = quoted(ds.description) if hasattr(type(ds), "description") else quoted("")
    us = collection(ds.universes, "universes")
    d["universes"] = " ".join(quoted(u) for u in us)
    ps = collection(ds.phenomena, "phenomena")
    d["phenomena"] = " ".join(quoted(p) for p in ps)
    everything = [(p, ds.phenomena[p]) for p in ps]
    reserved = set(dir(type(ds))) | {"__len__"}
    for p in ps:
        if p not in reserved and p not in us:
            check(getattr(ds, p).id.pathname == ds.phenomena[p].id.pathname, "attribute phenomenon", p)
    for u in us:
        x = ds.universes[u]
        if u not in reserved:
            check(getattr(ds, u).id.pathname == x.id.pathname, "attribute universe", u)
        names = collection(x.phenomena, "phenomena of universe")
        d["universe " + u] = " ".join(quoted(p) for p in names)
        everything += [(u + "!" + p, x.phenomena[p]) for p in names]
    for p, ph in everything:
        d[p + " description"] = quoted(ph.description)
        d[p + " ids"] = arr(ph.object_id[:])
        ids = [int(i) for i in ph.object_id[:]]
        for c, sets in (("p", ph.property_sets), ("c", ph.collection_property_sets)):
            pk = p + "/" + c + ":"
            names = collection(sets, "property sets")
            d[pk] = " ".join(quoted(n) for n in names)
            for n in names:
                s = sets[n]
                if n not in dir(type(ph)):
                    other = ph.property_sets[n] if n in ph.property_sets else s
                    check(getattr(ph, n).id.pathname == other.id.pathname, "attribute set", n)
                walk_set(m, s, pk + n + " ", d, ids, check, want)
    return d


def walk_set(m, s, k, d, ids, check, want):
    t = s.object_tracker
    d[k + "set index"], d[k + "object id"], d[k + "object index"] = arr(t.active_set_index[:]), arr(t.active_object_id[:]), arr(t.active_object_index[:])
    check(t.active_set_index.nr_indices == len(t.active_set_index[:]) and t.active_object_id.nr_ids == len(t.active_object_id[:]) and t.active_object_index.nr_indices == len(t.active_object_index[:]),
          "numbers of tracker", k)
    if s.has_time_domain:
        td = s.time_domain
        c, e = td.clock, td.clock.epoch
        d[k + "clock"] = "%s %d %s %s %s" % (c.unit.name, c.nr_units, e.kind.name, quoted(e.origin) if e.origin is not None else "-", e.calendar.name if e.calendar is not None else "-")
        for text in (repr(c), str(c)):
            check(c.unit.name in text and str(c.nr_units) in text and e.kind.name in text and (e.origin is None or e.origin in text) and (e.calendar is None or e.calendar.name in text), "text of clock", text)
        d[k + "time items"] = td.configuration.item_type.name
        v = td.value
        check(type(v) is {"box": m.TimeBox, "cell": m.TimeCell, "point": m.TimePoint}[td.configuration.item_type.name], "type of times", repr(v))
        d[k + "times"] = arr(v[:])
        if td.configuration.item_type.name == "cell":
            d[k + "counts"] = arr(v.count[:])
    else:
        check(not attempt(lambda: s.time_domain)[0], "time domain", "no time domain, but it can be had")
    if s.has_space_domain:
        sd = s.space_domain
        mob, item = sd.configuration.mobility.name, sd.configuration.item_type.name
        d[k + "space domain"] = mob + " " + item
        v = sd.value
        check(type(v).__name__ == mob.capitalize() + "Space" + item.capitalize(), "type of space", repr(v))
        d[k + "space"] = arr(v[:])
        check(v.dtype == v[:].dtype and tuple(v.array_shape) == v[:].shape[1:], "space", "%r %r" % (v.dtype, v.array_shape))
        if sd.presence_is_discretized:
            d[k + "presence"] = where(sd.discretized_presence_property)
    else:
        check(not attempt(lambda: s.space_domain)[0], "space domain", "no space domain, but it can be had")
    for n in s.properties.names:
        x = s.properties[n]
        kk = k + n + " "
        check(n in s.properties and x.id.name == n, "name of property", n)
        if n not in dir(type(s)):
            check(getattr(s, n).id.pathname == x.id.pathname and type(getattr(s, n)) is type(x), "attribute property", n)
        kind = [q for q in ("ss", "sscs", "ssvs", "ds", "dscs", "dsvs") if type(x) is cls(m, q)][0]
        d[kk + "kind"] = kind
        check(s.properties.shape_per_object(n).name == ("same" if kind[0] == "s" else "different"), "shape per object", n)
        check(s.properties.value_variability(n).name == ("constant" if len(kind) == 2 else "variable"), "value variability", n)
        if len(kind) > 2:
            check(s.properties.shape_variability(n).name == ("constant" if kind[2] == "c" else "variable"), "shape variability", n)
        d[kk + "description"] = quoted(x.description)
        if x.space_is_discretized:
            y = x.space_discretization_property()
            d[kk + "space discretization"] = where(y)
            check(isinstance(y, m.PropertyGroup) and type(y) is not m.PropertyGroup and hasattr(y, "value"), "type of discretization property", repr(y))
        v = x.value
        if kind in ("ss", "sscs"):
            dt = "U" if v.dtype.kind == "U" else v.dtype.str[1:]
            if dt == "U":
                d[kk + "values"] = "U %s 0" % show_shape(v.shape)
            else:
                a = v[:]
                d[kk + "values"] = arr(a)
                check(a.dtype == v.dtype and tuple(v.shape) == a.shape and v.nr_arrays == len(a), "array", "%r %r" % (v.dtype, v.shape))
            d[kk + "shape"] = show_shape(v.array_shape)
            continue
        d[kk + "type"] = "U" if v.dtype.kind == "U" else v.dtype.str[1:]
        if kind in ("ds", "dscs"):
            d[kk + "objects"] = str(len(v))
            for i in ids:
                if kk + "values %d" % i in want:
                    d[kk + "values %d" % i] = arr(v[i][:])
        if kind == "dsvs":
            first, active = s.object_tracker.active_set_index[:], s.object_tracker.active_object_id[:]
            for t in range(len(first)):
                ok, vt = attempt(lambda: v[t])
                if not ok:
                    break
                d[kk + "objects %d" % t] = str(len(vt))
                for i in active[int(first[t]):int(first[t + 1]) if t + 1 < len(first) else None]:
                    if kk + "values %d %d" % (t, i) in want:
                        d[kk + "values %d %d" % (t, i)] = arr(vt[int(i)][:])


def where(x):
    parts = x.id.pathname.split("/")
    # /lue_phenomena/<p>/lue_(collection_)property_sets/<s>/.../<name>
    return "%s/%s:%s %s" % (parts[2], "c" if "collection" in parts[3] else "p", parts[4], parts[-1])


# ------------------------------------------------------------------ runs

def raster(case, rec, m):
    kind, shape, box, layers, steps = case["raster"]
    w = World(rec, m, False)
    mm = w.model
    ds = w.ds
    if kind == "constant":
        v = m.hl.create_raster_view(ds, "area", "planet", tuple(shape), box)
        cl = m.hl.constant.RasterView
    else:
        v = m.hl.create_raster_view(ds, "area", "planet", m.Clock(m.Unit.day, 3), steps, [10, 20], tuple(shape), box)
        cl = m.hl.variable.RasterView
    if type(v) is not cl:
        rec.violation("type of raster view", repr(v))
    for i, t in enumerate(layers):
        v.add_layer("l%d" % i, np.dtype(t) if i % 2 else t)
    s = ds.phenomena["area"].property_sets["planet"]
    want = {}
    for i, t in enumerate(layers):
        x = s.properties["l%d" % i]
        if kind == "constant":
            val = x.value[ds.phenomena["area"].object_id[0]]
            want[i] = data(t, shape)
        else:
            val = x.value[ds.phenomena["area"].object_id[0]]
            want[i] = data(t, [1, steps] + list(shape))
        if val.dtype != np.dtype(t) or list(val.shape) != list(want[i].shape):
            rec.violation("layer of %s view" % kind, "%r: %r %r" % (case, val.dtype, val.shape))
            return
        val[:] = want[i]
        if not x.space_is_discretized:
            rec.violation("layer not discretized", repr(case))
    if not same(s.space_domain.value[:], np.array([box])) or s.space_domain.configuration.item_type.name != "box":
        rec.violation("space box of raster view", "%r %r" % (case, s.space_domain.value[:]))
    if kind == "variable":
        td = s.time_domain
        if td.configuration.item_type.name != "box" or td.clock.unit.name != "day" or td.clock.nr_units != 3 or list(td.value[:].reshape(-1)) != [10, 20] or list(s.properties["time_grid_shape"].value[:].reshape(-1)) != [steps]:
            rec.violation("time of raster view", "%r" % td.value[:])
        del td
    bad = attempt(lambda: v.add_layer("l0", "i4"))[0]
    if bad:
        rec.violation("layer added twice", repr(case))
    del s, x, val, v, ds
    w.ds = None
    got = dump(w.path)
    for i, t in enumerate(layers):
        vals = [a for k, a in got.items() if k.startswith("area/p:planet l%d values" % i)]
        if vals != [arr(want[i])]:
            rec.violation("C++ view of layer, %s" % kind, "%r: %r instead of %r" % (case, vals, arr(want[i])))
        if not got.get("area/p:planet l%d space discretization" % i) or (kind == "variable") != ("area/p:planet l%d time discretization" % i in got):
            rec.violation("C++ view of discretization, %s" % kind, repr(got)[:500])
    rec.trans(len(layers)), rec.state(repr(case)), rec.outcome(repr(case)), rec.trace()
    if not m.assert_is_valid(w.path, fail_on_warning=False) is None:
        rec.violation("validity", "")
    os.remove(w.path)


def refuse(case, rec, m):
    """Calls that cannot be honoured raise and change nothing"""
    for mode in ("w", "r"):
        w = World(rec, m, False)
        for op in LINKED + [["ids", "p", [1, 2]], ["fill", "p/p:s", "a", 2], ["univ", "u"], ["phen", "u!x", ""]]:
            w.do(op)
        want = w.model.dump()
        w.ds = None
        w.ds = ds = m.open_dataset(w.path, mode)
        p = ds.phenomena["p"]
        s = p.property_sets["s"]
        tc, clock = m.TimeConfiguration(m.TimeDomainItemType.box), m.Clock(m.Unit.day, 1)
        sc = m.SpaceConfiguration(m.Mobility.mobile, m.SpaceDomainItemType.box)
        same_, var = m.ShapePerObject.same, m.ShapeVariability.variable
        calls = [lambda: ds.add_phenomenon("p"), lambda: ds.add_universe("u"), lambda: ds.universes["u"].add_phenomenon("x"), lambda: p.add_property_set("s"), lambda: p.add_collection_property_set("t"),
                 lambda: p.add_property_set("s", tc, clock), lambda: p.add_property_set("s", sc, np.dtype("f8"), 2), lambda: p.add_property_set("s", s.time_domain, s.object_tracker),
                 lambda: p.add_collection_property_set("t", s.time_domain), lambda: p.add_property_set("s", tc, clock, sc, np.dtype("f8"), 2),
                 lambda: s.add_property("a", np.dtype("i4")), lambda: s.add_property("b", np.dtype("i4"), (2,)), lambda: s.add_property("a", np.dtype("f4"), 2),
                 lambda: s.add_property("b", "i4", 2, same_, var), lambda: s.add_property("new", "i4", 2, same_, m.ShapeVariability.constant),
                 lambda: s.add_property("new", "no such type"), lambda: s.add_property("new", np.dtype("c16"), (2,)), lambda: s.add_property("new", np.dtype("M8[s]")), lambda: s.add_property("new", "i4", ["a"]),
                 lambda: p.add_property_set("new", tc), lambda: p.add_property_set("new", sc, "f8"), lambda: p.add_property_set("new", None), lambda: p.add_property_set("new", sc, "no such type", 2),
                 lambda: s.properties["b"].value.expand([3, 4], [[1, 2]])]
        f = calls[case["refuse"]]
        ok, e = attempt(f)
        if ok or not isinstance(e, (RuntimeError, TypeError, ValueError)):
            rec.violation("accepted: call %d" % case["refuse"], "%s %r" % (mode, e))
        del f, calls, s, p, ds
        inpy = {k: v for k, v in want.items() if not hidden(k, want)}
        w.compare("changed by refused call %d" % case["refuse"], walk(m, w.ds, rec, inpy), inpy)
        if mode == "r":
            ds = w.ds
            s = ds.phenomena["p"].property_sets["s"]
            for i, f in enumerate((lambda: ds.add_phenomenon("n"), lambda: ds.add_universe("n"), lambda: ds.phenomena["p"].add_property_set("n"), lambda: s.add_property("n", "i4"),
                      lambda: s.properties["a"].value.expand(1), lambda: s.properties["a"].value.__setitem__(0, 5), lambda: s.time_domain.value.expand(1), lambda: s.space_domain.value.expand(1),
                      lambda: ds.phenomena["p"].object_id.expand(1), lambda: s.object_tracker.active_set_index.expand(1), lambda: s.properties["a"].set_time_discretization(m.TimeDiscretization.regular_grid, s.properties["b"]),
                      lambda: s.space_domain.set_presence_discretization(s.properties["a"]), lambda: s.properties["b"].value.expand(1, (2, 2), 1))):
                if attempt(f)[0]:
                    rec.violation("read-only dataset changed %d" % i, "")
                rec.trans()
            f = None
            del s, ds
        w.ds = None
        got = dump(w.path)
        got.pop("lue_version", None)
        w.compare("changed by refused call %d" % case["refuse"], got, want)
        rec.trans(), rec.state((mode, case["refuse"])), rec.outcome((mode, case["refuse"]))
        os.remove(w.path)


def missing(case, rec, m):
    w = World(rec, m, False)
    for op in LINKED:
        w.do(op)
    w.ds = None
    ds = m.open_dataset(w.path, case["missing"])
    p = ds.phenomena["p"]
    s = p.property_sets["s"]
    t = p.collection_property_sets["t"]
    for i, f in enumerate((lambda: ds.phenomena["x"], lambda: ds.universes["x"], lambda: ds.x, lambda: p.property_sets["t"], lambda: p.collection_property_sets["s"], lambda: p.x, lambda: s.properties["x"], lambda: s.x,
              lambda: t.time_domain, lambda: t.space_domain, lambda: t.c_, lambda: s.properties.value_variability("x"), lambda: s.properties.shape_per_object("x"), lambda: m.open_dataset(w.path + "x"),
              lambda: m.open_dataset(w.path, "q"), lambda: s.properties["a"].value[0], lambda: s.properties["a"].value["a"])):
        ok, e = attempt(f)
        if ok or not isinstance(e, (RuntimeError, KeyError, ValueError, TypeError, IndexError)):
            rec.violation("missing item found %d" % i, repr(e))
        rec.trans()
    rec.state(case["missing"]), rec.outcome(case["missing"])


def run(case, rec):
    m = ldm()
    if "raster" in case:
        return raster(case, rec, m)
    if "refuse" in case:
        return refuse(case, rec, m)
    if "missing" in case:
        return missing(case, rec, m)
    ops = case["ops"] if "ops" in case else HISTORY_BASE + [HISTORY[k] for k in case["h"]]
    w = World(rec, m, len(repr(case)) % 2)
    for op in ops:
        try:
            w.do(op)
        except Exception as e:
            rec.violation("%s fails" % " ".join(str(x) for x in op[:1]), "%r: %r" % (op, e))
            return
    w.finish()
