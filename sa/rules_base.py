"""Rules on effects: who writes what, who shares what, which calls fail."""
from .tour import *
from .check import fn_node
from .interp import children

UNITS = [(k, p) for k in KINDS for p in ALLPARTS]


def units(tier):
    return UNITS


def type_units(tier):
    """Also with whole number elevations and real or boolean stream arrays."""
    us = [(k, p, "float", "int") for k in KINDS for p in ALLPARTS]
    us += [(k, p, "int", "int") for k in KINDS for p in ("cond", "flow")]
    us += [(k, p, "float", "float") for k in KINDS for p in ("cond",) + STREAMS]
    if tier == "thorough":
        us += [(k, p, "int", "bool") for k in KINDS for p in ALLPARTS]
    return us


def opname(s):
    return (s.history[0] + "." if s.history and s.history[0] in STREAMS else "") + s.name


def halted(prog, r, rule, s, ob):
    """A valid request that always ends in an error has no result at all."""
    if s is None or s.out.returns:
        return False
    known = [x for x in s.out.raises if x[2] and x[2] > 0]
    if known:
        r.bad(prog, rule, known[0][2], f"{s.name} always ends in an error ({known[0][1]})", hist(s))
    else:
        r.unknown(ob, "does not return")
    return True


# ------------------------------------------------------------------ C01 C02
def owner_writes(prog, unit, tier, r, pred, rule, what):
    kind, part = unit[:2]
    dk, sk = unit[2:] if len(unit) > 2 else ("float", "int")
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), dem=dict(kind=dk, nan=dk == "float"), strmkind=sk)
    S = t.S
    hit = set()
    for nid, ctx, d, kw in S.events("write"):
        if d[0] is None:
            continue
        if pred(d, kw):
            r.bad(prog, rule, nid, what(d), S.I.callpath(ctx))
            hit.add(nid)
    r.count("write_sites", len({(n, c) for n, c, d, k in S.events("write")}))
    r.count("functions", len(S.I.visited_funcs))
    r.count("operations", len(t.steps))
    return t


def c01(prog, unit, tier, r):
    t = owner_writes(prog, unit, tier, r, lambda d, kw: str(d[0]).startswith("in:"),
                     "an operation may only write memory it allocated itself",
                     lambda d: f"writes into the caller's '{d[0][3:]}' ({d[1]})")
    for s in t.steps:
        r.good("no write to an argument: " + opname(s))


def c02(prog, unit, tier, r):
    kind, part = unit
    shared = []

    def gridwrite(d, kw):
        if d[0] == "grid:neighbors":
            return True
        if d[0] != "grid":
            return False
        return not (d[1] == "attr" and d[2] in ("top", "_top"))
    t = owner_writes(prog, unit, tier, r, gridwrite, "the grid is read only, except that stream objects set its top",
                     lambda d: f"modifies the model grid ({'neighbor lists' if 'neigh' in d[0] else d[2]})")
    S = t.S
    for nid, ctx, d, kw in S.events("write"):
        if d[0] == "grid" and d[1] == "attr" and d[2] in ("top", "_top"):
            path = S.I.callpath(ctx)
            entry = path[0] if path else ""
            if not entry.startswith(STREAMS):
                r.bad(prog, "only building a stream object sets the grid top", nid, "sets the grid top outside the construction of a stream object", path)
    # the top must be a private copy of the dem
    if part in STREAMS:
        t = Tour(prog, kind)
        S = t.S
        f = t.ready_fd()
        if f is None:
            return
        before = S.st.copy()
        s = t.make_streams(part)
        if s is None:
            return
        top = S.field(t.grid, "top")
        nid = fn_node(prog, part, "__init__")
        mem = mutable(S, S.I.reachable(S.st, top.refs))
        others = set()
        for root in (f, t.dem, s):
            others |= mutable(S, reach_without(S, root.refs, t.grid.refs))
        # the stream object and fd legitimately refer to the grid itself
        if mem & others:
            r.bad(prog, "the grid top is a private copy", nid, "the grid top shares memory with the flow direction object or the DEM", ["%s(grid, fd)" % part])
        else:
            r.good("top is private: " + part)
        x = S.elem(top)
        extra = {l for l in S.deps(top) if l not in ("dem",)}
        if "dem" not in S.deps(top):
            r.bad(prog, "the grid top becomes the DEM", nid, "the grid top does not come from the DEM", ["%s(grid, fd)" % part])
        else:
            r.good("top is the dem: " + part)
        if x.shape is not None and list(x.shape) != list(S.shape) and all(p is not None for p in x.shape):
            r.bad(prog, "the grid top keeps the layer shape", nid, "the grid top has shape (%s)" % ", ".join(map(poly_str, x.shape)), ["%s(grid, fd)" % part])
    for s in t.steps:
        r.good("grid unchanged: " + opname(s))


def reach_without(S, roots, stop):
    """Everything reachable other than by way of `stop`."""
    seen, todo = set(stop), list(roots)
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        o = S.st.heap.get(l)
        if o is not None:
            todo.extend(children(o))
    return seen - set(stop)


MUT = ("list", "set", "deque")


def mutable(S, locs):
    """Locations that hold data someone could overwrite."""
    out = set()
    for l in locs:
        o = S.st.heap.get(l)
        if isinstance(o, Buf):
            out.add(l)
        elif isinstance(o, Seq) and o.kind in MUT:
            out.add(l)
        elif isinstance(o, Dct):
            out.add(l)
        elif isinstance(o, Obj):
            out.add(l)
    return out


# ------------------------------------------------------------------ C03
def c03(prog, unit, tier, r):
    kind, part, dk, sk = unit

    def on_step(t, s):
        S = t.S
        if not s.out.returns:
            return
        val = s.out.value
        st = S.st
        # arguments are not kept by the object
        state = set()
        objs = [v for n, v in st.frames["root"].items() if any(isinstance(st.heap.get(l), Obj) for l in v.refs)]
        cls = s.op[0] in STREAMS or s.op[0] == "FlowDirections"
        arg_mem = set()
        for n, v in t.i.made.items():
            for l in v.refs:
                if l in st.heap:
                    arg_mem |= mutable(S, S.I.reachable(st, v.refs))
        for v in objs:
            if v.refs & val.refs and not cls:
                continue
            state |= S.I.reachable(st, v.refs)
        kept = mutable(S, state) & arg_mem
        nid = method_nid(prog, s)
        if kept:
            r.bad(prog, "an object keeps copies of its arguments", nid,
                  f"after {s.name} the object still refers to the memory of an argument: {loc_names(kept)}", hist(s), extra=s.op[1])
        else:
            r.good("no argument memory kept: " + opname(s))
        if cls:
            return
        # the result shares nothing
        names = [n for n, v in st.frames["root"].items() if n not in ("result", "result2") and v is not val and not (v.refs & val.refs and n in ("fdir", "facc", "strm", "fdir2"))]
        others = S.I.reachable(st, [l for n in names for l in st.frames["root"][n].refs])
        mine = mutable(S, S.I.reachable(st, val.refs))
        sh = mine & mutable(S, others)
        if sh:
            who = []
            for n in names:
                if mutable(S, S.I.reachable(st, st.frames["root"][n].refs)) & sh:
                    who.append(n)
            r.bad(prog, "a result is memory of its own", nid,
                  f"the result of {s.name} shares memory with {', '.join(who)}", hist(s), extra=s.op[1])
        else:
            r.good("result is private: " + opname(s))
        r.count("results")
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), on_step=on_step, dem=dict(kind=dk, nan=dk == "float"), strmkind=sk)
    r.count("operations", len(t.steps))
    r.count("functions", len(t.S.I.visited_funcs))


def hist(s):
    return list(s.history) + [s.name]


def loc_names(locs):
    return ", ".join(sorted({str(l[1]) for l in locs if isinstance(l, tuple) and len(l) > 1})[:3])


def method_nid(prog, s):
    if s.op[0] in STREAMS or s.op[0] == "FlowDirections":
        return fn_node(prog, s.op[0], "__init__")
    cls = s.history[0] if s.history and s.history[0] in STREAMS else "FlowDirections"
    m = prog.find_method(cls, s.op[1])
    if m is not None:
        return m._nid
    return fn_node(prog, None, s.op[1])


# ------------------------------------------------------------------ C04
def c04_units(tier):
    return [(k, p, c) for k in KINDS for p in ALLPARTS for c in ("rook", None)]


def c04(prog, unit, tier, r):
    kind, part, cache = unit
    seen = []

    def neigh(I, st, node, fr, meth, reset, rel):
        seen.append(node._nid)
        if rel == "queen":
            r.good(f"queen neighbours in {prog.where(node._nid)[1]}")
        elif rel in ("rook", "any"):
            why = "asks the grid for shared-edge neighbours" if meth not in ("queen",) else \
                "reuses whatever neighbours the grid has cached (no reset)"
            r.bad(prog, "neighbours are the cells sharing a vertex, whatever the grid has cached", node._nid, why, I.callpath(fr.ctx))
        else:
            r.unknown(f"neighbours in {prog.where(node._nid)[1]}", "method or reset not a constant")
    t = full_tour(prog, kind, tier == "thorough", cache=cache, parts=(part,), hooks=[("neighbors", neigh)])
    S = t.S
    for s in t.steps:
        if not s.out.returns:
            continue
        d = deps_at(S, s)
        if any(x in d for x in ("neigh:rook", "neigh:any")):
            r.bad(prog, "results use the cells sharing a vertex, whatever the grid has cached", method_nid(prog, s),
                  f"the result of {s.name} depends on neighbours the grid had cached", hist(s), extra=s.op[1])
        elif "neigh:?" in d:
            r.unknown("neighbours behind " + opname(s), "unresolved")
        elif s.op[1] in ("fill_sinks", "fill_nan_values", "flow_directions", "threshold_from_control_points"):
            if "neigh:queen" in d:
                r.good("vertex neighbours decide " + opname(s))
            else:
                r.unknown("neighbours behind " + opname(s), "the relation is not taken from the grid")
    r.count("neighbour_queries", len(seen))
    r.count("operations", len(t.steps))


def deps_at(S, s):
    if s.out.value is None:
        return frozenset()
    return S.I.deepdeps(s.out.state, s.out.value)


# ------------------------------------------------------------------ C07
def c07(prog, unit, tier, r):
    kind, part = unit
    t = full_tour(prog, kind, tier == "thorough", parts=(part,))
    S = t.S
    for nid, ctx, d, kw in S.events("recursion"):
        r.bad(prog, "no call chain re-enters a function", nid, "calls itself again: " + " -> ".join(kw["cycle"]), S.I.callpath(ctx))
    for f in S.I.visited_funcs:
        r.good("not re-entered: " + str(getattr(prog.nodes[f], "_qual", prog.where(f)[1])))
    r.count("operations", len(t.steps))
    r.count("call_contexts", len(S.I.ctxdesc))


# ------------------------------------------------------------------ C12
def c12_units(tier):
    us = [(k, p, "int", "int") for k in KINDS for p in ALLPARTS]
    us += [(k, p, "float", sk) for k in KINDS for p in STREAMS for sk in ("bool", "float")]
    return us


def c12(prog, unit, tier, r):
    kind, part, dk, sk = unit
    dem = dict(kind=dk, nan=dk == "float")
    stores = set()
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), dem=dem, strmkind=sk,
                  hooks=[("store", lambda I, st, node, fr, b, bo, *a: stores.add((node._nid, bo.dt)) if node is not None else None)])
    S = t.S
    bad = set()
    for nid, ctx, d, kw in S.events("narrow"):
        bad.add(nid)
        r.bad(prog, "storage must hold every value stored into it", nid,
              f"stores a {'fraction' if d[1] == 'float' else 'number'} into {'whole number' if d[0] == 'int' else 'true/false'} storage "
              f"({'whole number' if dk == 'int' else 'real'} elevations, {sk} stream arrays)", S.I.callpath(ctx))
    for nid, dt in stores:
        if nid not in bad:
            r.good(f"{prog.where(nid)[1]}: {prog.text(nid, 40)} ({dt or 'unknown type'})")
    # real valued results are real
    for s in t.steps:
        if s.out.returns and s.op[1] in ("slope", "aspect", "hru_len", "area", "flow_accumulation", "threshold_from_control_points") and s.name != "flow_accumulation:cells":
            x = S.models.ai(S.I, s.out.state, s.out.value)
            if x.elem.kinds and x.elem.kinds <= frozenset({"int", "bool"}):
                r.bad(prog, "real valued results keep their fractions", method_nid(prog, s), f"{s.name} returns whole numbers", hist(s), extra=s.op[1])
            else:
                r.good("real result: " + opname(s))
        cols = {"reach_data": ("rchlen", "slope"), "packagedata": ("rlen", "rgrd")}.get(s.op[1], ()) if s.out.returns else ()
        for c in cols + (("strtop" if s.op[1] == "reach_data" else "rtp",) if cols and dk == "float" else ()):
            st = s.out.state
            fb = [b for l in s.out.value.refs if isinstance(st.heap.get(l), Arr) for b0 in bufs_of(st.heap[l])
                  for n, b in getattr(st.heap.get(b0), "fields", None) or () if n == c]
            if len(fb) != 1 or st.heap.get(fb[0]) is None:
                r.unknown(f"{opname(s)}: {c}", "not found in the table")
            elif st.heap[fb[0]].elem.kinds and st.heap[fb[0]].elem.kinds <= frozenset({"int", "bool"}):
                r.bad(prog, "real valued results keep their fractions", method_nid(prog, s), f"{s.name} gives whole numbers as {c}", hist(s), extra=c)
            else:
                r.good(f"real column {c}: " + opname(s))


# ------------------------------------------------------------------ C13
def c13(prog, unit, tier, r):
    kind, part = unit

    def on_step(t, s):
        S = t.S
        for st, name, nid, explicit in s.out.raises:
            if explicit:
                continue
            d = [dd for n, c, dd, kw in S.events("deferr") if n == nid]
            r.bad(prog, "operations work on every grid type", nid,
                  f"{s.name} fails on a {kind} grid: {name}: {d[0][0] if d else ''}", hist(s))
        if not s.out.returns:
            where = sorted({prog.where(n)[1] for _, _, n, _ in s.out.raises if n > 0})
            r.bad(prog, "operations work on every grid type", s.out.raises[0][2] if s.out.raises else method_nid(prog, s),
                  f"{s.name} cannot complete on a {kind} grid (fails in {', '.join(where) or 'a library call'})", hist(s))
        else:
            r.good(f"{opname(s)} on {kind}")
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), on_step=on_step)
    r.count("operations", len(t.steps))
    r.count("functions", len(t.S.I.visited_funcs))


# ------------------------------------------------------------------ C14
LAYER = ("fill_sinks", "fill_nan_values", "flow_directions", "flow_accumulation", "get_watershed_boundary", "get_subbasins",
         "dem", "flow_direction_array", "flow_accumulation_array", "slope", "aspect", "stream_array", "delineate_streams",
         "threshold_from_control_points", "irunbnd")
FLAT = ("area", "hru_len", "get_nidp")


def shape_verdict(shape, want):
    """True / False / None when undecided."""
    if shape is None:
        return None
    if len(shape) != len(want):
        return False
    for p, q in zip(shape, want):
        if p is None:
            return None
        if p != q:
            from .models import differ
            if differ(p, q) or not any("?" in m0 for m, _ in p for m0 in m):
                return False
            return None
    return True


def c14(prog, unit, tier, r):
    kind, part = unit

    def on_step(t, s):
        S = t.S
        if not s.out.returns:
            return
        op = s.op[1]
        if op in LAYER or op in FLAT:
            want = tuple(S.shape) if op in LAYER else (S.ncell,)
            if s.out.value.is_none:
                r.bad(prog, "per-cell results have the shape of a grid layer", method_nid(prog, s), f"{s.name} returns nothing", hist(s), extra=op)
                return
            x = S.elem(s.out.value)
            v = shape_verdict(x.shape, want)
            tx = lambda sh: "(" + ", ".join(map(poly_str, sh)) + ")"
            if v is False:
                r.bad(prog, "per-cell results have the shape of a grid layer", method_nid(prog, s),
                      f"{s.name} has shape {tx(x.shape)} instead of {tx(want)} on a {kind} grid", hist(s), extra=op)
            elif v is None:
                r.unknown("shape of " + opname(s), "not resolved")
            else:
                r.good(f"shape of {opname(s)} on {kind}")
        elif op == "vectors":
            it = seq_items(S, s.out.value)
            if it is not None and len(it) == 2:
                for c in it:
                    v = shape_verdict(S.elem(c).shape, (S.ncell,))
                    if v is False:
                        r.bad(prog, "per-cell results have the shape of a grid layer", method_nid(prog, s), "vector components do not have one entry per cell", hist(s), extra=op)
                    elif v:
                        r.good(f"shape of vectors on {kind}")
        elif op == "get_cascades":
            it = seq_items(S, s.out.value)
            if it is not None and len(it) != 4:
                r.bad(prog, "cascades come as four columns", method_nid(prog, s), f"{s.name} returns {len(it)} columns", hist(s), extra=op)
            elif it is not None:
                r.good(f"columns of {opname(s)}")
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), on_step=on_step)
    r.count("operations", len(t.steps))


def seq_items(S, v, st=None):
    """Items of a sequence of known length, else None."""
    st = st or S.st
    if len(v.refs) != 1:
        return None
    o = st.heap.get(next(iter(v.refs)))
    if isinstance(o, Seq) and o.rest is None:
        return list(o.items)
    if isinstance(o, Arr) and o.cols is not None and o.axis == 0:
        return list(o.cols)
    return None


# ------------------------------------------------------------------ C21
def c21_units(tier):
    return UNITS + [(k, "pair") for k in KINDS]


def c21(prog, unit, tier, r):
    kind, part = unit
    if part != "pair":
        t = full_tour(prog, kind, tier == "thorough", parts=(part,))
        for s in t.steps:
            if not s.out.returns:
                continue
            nd = sorted(x for x in deps_at(t.S, s) if x.startswith("nondet:"))
            if nd:
                r.bad(prog, "results are determined by the inputs", method_nid(prog, s), f"the result of {s.name} depends on {', '.join(n[7:] for n in nd)}", hist(s), extra=s.op[1])
            else:
                r.good("determined: " + opname(s))
        r.count("operations", len(t.steps))
        return
    # a second, unrelated set of objects must not see the first
    S = Session(prog, kind)
    one = Series(S, S.grid("grid1"), "1")
    two = Series(S, S.grid("grid2"), "2")
    first = set(one.i.made) | one.i.nums
    for s in two.steps:
        if not s.out.returns:
            continue
        leak = sorted(x for x in deps_at(S, s) if x in first or x.startswith("grid1:"))
        if leak:
            r.bad(prog, "objects share no hidden state", method_nid(prog, s),
                  f"the result of {s.name} on a fresh object depends on {', '.join(x.replace('grid1:', 'the grid ') if ':' in x else x[:-1] for x in leak)} given to another object before", hist(s), extra=s.op[1])
        else:
            r.good("independent of earlier objects: " + opname(s))
    r.count("operations", len(two.steps))


class Series(Tour):
    """One pass over the public operations with inputs of its own."""

    def __init__(self, S, grid, suffix):
        self.S, self.kind = S, S.kind
        self.i = Inputs(S, suffix=suffix)
        self.steps = []
        self.grid = grid
        self.dem = self.i.dem()
        for op in cond_ops():
            self.do(None, op, as_="r" + suffix)
        f = self.make_fd(label="fd" + suffix)
        if f is None:
            return
        self.do(f, fdir_ops(self.kind)[2], as_="r" + suffix)
        self.do(f, facc_ops()[0], as_="r" + suffix)
        for p in FD_PROPS:
            self.prop(f, p, as_="r" + suffix)
        for q in fd_query_ops():
            self.do(f, q, as_="r" + suffix)
        for cls in STREAMS:
            s = self.make_streams(cls, cls + suffix)
            if s is None:
                continue
            self.do(s, arr_ops(cls)[1], (cls,), as_="r" + suffix)
            for op in strm_ops(cls, self.kind):
                self.do(s, op, (cls,), as_="r" + suffix)
