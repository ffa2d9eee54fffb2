"""Rules on information flow: which inputs decide which results, which state
supersedes which, and which requests are refused."""
from .tour import *
from .rules_base import UNITS, units, opname, hist, method_nid, deps_at, mutable, fn_node

BASE = frozenset({"xstrm", "setstrm", "contrib", "contribarr", "boundary"})


# ------------------------------------------------------------------ C05
def c05_units(tier):
    return [(k, p) for k in KINDS for p in ("flow",) + STREAMS]


def relabel(op, suffix):
    """The same operation with inputs of its own."""
    name, meth, mk_ = op

    def build(i):
        j = Inputs(i.S, i.strmkind, suffix)
        j.made = i.made
        return mk_(j)
    return (name + "'", meth, build)


def c05(prog, unit, tier, r):
    kind, part = unit
    thorough = tier == "thorough"
    t = Tour(prog, kind)
    S = t.S
    rule = "a newer computation replaces everything derived from the older one"

    def look(s, old, first):
        if not s.out.returns:
            return
        d = deps_at(S, s)
        left = sorted(x for x in d if x in old)
        if left:
            r.bad(prog, rule, method_nid(prog, s), f"the result of {s.name} still depends on {', '.join(left)} of an earlier, superseded {first}", hist(s), extra=s.op[1])
        else:
            r.good(f"after {first} and again: {opname(s)}")

    if part == "flow":
        f = t.make_fd()
        if f is None:
            return
        fops = fdir_ops(kind)
        start = t.save()
        for op in fops[1:]:
            t.restore(start)
            before = set(t.i.made) | {"burn"}
            s1 = t.do(f, op, as_="r1")
            if not s1.out.returns:
                continue
            t.do(f, facc_ops()[0], (op[0],), as_="r2")
            for q in fd_query_ops():
                t.do(f, q, (op[0],), as_="q" + q[0])
            for p in FD_PROPS:
                t.prop(f, p, (op[0],), as_="p" + p)
            old = {"terminal", "terminalrc", "terminalrc.item", "burn"}
            h = (op[0], "queries")
            warm = t.save()
            for op2 in (fops if thorough else fops[:1] + [op]):
                t.restore(warm)
                s2 = t.do(f, relabel(op2, "2"), h, as_="fdir2")
                look(s2, old, op[0])
                if not s2.out.returns:
                    continue
                fresh = t.save()
                for q in fd_query_ops():
                    t.restore(fresh)
                    look(t.do(f, q, h + (s2.name,)), old, op[0])
                for p in FD_PROPS:
                    if p == "flow_accumulation_array":
                        continue
                    t.restore(fresh)
                    look(t.prop(f, p, h + (s2.name,)), old, op[0])
                for aop in facc_ops():
                    t.restore(fresh)
                    s3 = t.do(f, aop, h + (s2.name,), as_="facc2")
                    look(s3, old, op[0])
                    if not s3.out.returns:
                        continue
                    again = t.save()
                    for q in fd_query_ops():
                        t.restore(again)
                        look(t.do(f, q, h + (s2.name, aop[0])), old, op[0])
                    for p in FD_PROPS:
                        t.restore(again)
                        look(t.prop(f, p, h + (s2.name, aop[0])), old, op[0])
                    # stream objects built now
                    for cls in STREAMS if aop is facc_ops()[0] or thorough else ():
                        t.restore(again)
                        st = t.make_streams(cls)
                        if st is None:
                            continue
                        t.do(st, arr_ops(cls)[0], (cls,), as_="strm")
                        look(t.steps[-1], old, op[0])
        r.count("operations", len(t.steps))
        return

    t.ready_fd()
    if t.fd is None:
        return
    s = t.make_streams(part)
    if s is None:
        return
    made = t.save()
    ops = strm_ops(part, kind)
    aops = arr_ops(part)
    warmers = [o for o in ops if o[0] in ("get_stream_connectivity", "get_stream_connectivity:single", "reach_data", "packagedata", "get_cascades:m2o",
                                          "create_stream_vectors", "connectiondata", "segment_data", "irunbnd") or thorough]
    old = set(BASE)
    for n, a1 in enumerate(aops):
        if n in (0, 2) and not thorough:
            continue
        t.restore(made)
        if not t.do(s, a1, (part,), as_="strm1").out.returns:
            continue
        first = t.save()
        for wop in [None] + warmers:
            t.restore(first)
            h = (part, a1[0])
            if wop is not None:
                if not t.do(s, wop, h, as_="warm").out.returns:
                    continue
                h += (wop[0],)
            warm = t.save()
            for a2 in (aops if thorough else (aops[0], aops[3])):
                t.restore(warm)
                s2 = t.do(s, relabel(a2, "2"), h, as_="strm2")
                look(s2, old, a1[0])
                if not s2.out.returns:
                    continue
                second = t.save()
                t.restore(second)
                look(t.prop(s, "stream_array", h + (s2.name,)), old, a1[0])
                for op in ops:
                    if ":x" in op[0] or ":graph" in op[0] or ":tables" in op[0] or "threshold" in op[0]:
                        continue
                    if ":boundary" in op[0] or op[0] in ("builder:m2o", "builder:m2m"):
                        op = relabel(op, "2")
                    t.restore(second)
                    look(t.do(s, op, h + (s2.name,)), old, a1[0])
    r.count("operations", len(t.steps))


# ------------------------------------------------------------------ C06
def c06_units(tier):
    return [(k, p) for k in KINDS for p in STREAMS]


STORED = {"contrib", "contribarr", "setstrm", "boundary1"}


def c06(prog, unit, tier, r):
    kind, part = unit
    seen = set()

    def want(name):
        w = set()
        if name.endswith(":x"):
            w.add("xstrm")
        if name == "connectiondata:graph":
            w.add("xgraph")
        if name == "builder:tables":
            w |= {"reachtab.node", "segtab.nseg", "xirunbnd"}
        return w

    def on_step(t, s):
        S = t.S
        if not s.out.returns:
            return
        nid = method_nid(prog, s)
        d = deps_at(S, s)
        w = want(s.name)
        if s.name == "irunbnd:graph":
            w = {"xstrm"}
        if w:
            miss = sorted(x for x in w if x not in d)
            if miss:
                r.bad(prog, "an input given explicitly is the one used", nid, f"the result of {s.name} does not depend on the {', '.join(miss)} given to it", hist(s), extra=s.op[1])
            stored = set(STORED)
            if s.name in ("connectiondata:graph", "builder:tables"):
                stored |= {"xstrm"}
            left = sorted(x for x in d if x in stored)
            if left:
                r.bad(prog, "an input given explicitly is the one used", nid, f"the result of {s.name} depends on the stored {', '.join(left)} besides its own input", hist(s), extra=s.op[1])
            if not miss and not left:
                r.good("explicit input used: " + opname(s))
        elif len(s.history) >= 2 and s.op[1] not in ("threshold_from_control_points",):
            # results come from one stream array, never from a mixture
            both = sorted(x for x in d if x in ("contrib", "contribarr", "setstrm", "xstrm"))
            if len(both) > 1:
                r.bad(prog, "one result comes from one stream array", nid, f"the result of {s.name} mixes the stream arrays {', '.join(both)}", hist(s), extra=s.op[1])
            else:
                r.good("one stream array behind " + opname(s))
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), on_step=on_step)
    r.count("operations", len(t.steps))
    if part == "Sfr2005" and kind == "structured":
        partly(prog, r)


GIVEN = {"reach_data": ("reachtab.", lambda i: i.table("reachtab", "reach")),
         "segment_data": ("segtab.", lambda i: i.table("segtab", "segment")),
         "irunbnd": ("xirunbnd", lambda i: i.strm("xirunbnd"))}


def partly(prog, r):
    """The builder with some of its tables given: each one given is the one used."""
    rule = "an input given explicitly is the one used"
    t = Tour(prog, "structured")
    S = t.S
    t.ready_fd()
    o = t.make_streams("Sfr2005")
    t.do(o, arr_ops("Sfr2005")[0])
    base = t.save()
    names = sorted(GIVEN)
    for given in [(n,) for n in names] + [tuple(n for n in names if n != m) for m in names]:
        for defaults in (False, True):
            t.restore(base)
            op = ("builder with " + " and ".join(given) + ("" if defaults else ", no defaults"), "get_pygsflow_builder_object",
                  lambda i: dict(apply_defaults=cst(defaults), **{n: GIVEN[n][1](i) for n in given}))
            s = t.do(o, op, ("delineate_streams",))
            if not s.out.returns:
                r.unknown(op[0], "does not return")
                continue
            for n in given:
                v = S.field(s.out.value, n, s.out.state)
                if v is None:
                    r.unknown(f"{op[0]}: {n}", "not found on the builder")
                    continue
                d = S.deps(v, s.out.state)
                if not any(x.startswith(GIVEN[n][0]) for x in d):
                    r.bad(prog, rule, method_nid(prog, s), f"the builder's {n} does not come from the {n} given to it when {' and '.join(given)} {'is' if len(given) == 1 else 'are'} given", hist(s), extra=n)
                    continue
                left = sorted(x for x in d if x in STORED)
                if left and not defaults:
                    r.bad(prog, rule, method_nid(prog, s), f"the builder's {n} depends on the stored {', '.join(left)} besides the {n} given to it", hist(s), extra=n)
                    continue
                r.good(f"{op[0]}: {n} is the one given")


# ------------------------------------------------------------------ C27
# labels each result must react to and must not react to
XY = {"grid:xcenters", "grid:ycenters"}
CONTRACT = {
    # result: (must, must not)
    "fill_sinks:priority": ({"dem", "eps", "grid:verts", "neigh:queen"}, XY),
    "fill_sinks:complete": ({"dem", "grid:verts", "neigh:queen"}, {"eps"} | XY),
    "fill_sinks:drain": ({"dem", "eps", "grid:verts", "neigh:queen"}, XY),
    "fill_sinks:priority:streams": ({"dem", "eps", "mask", "neigh:queen"}, XY),
    "fill_sinks:complete:streams": ({"dem", "mask", "neigh:queen"}, {"eps"} | XY),
    "fill_sinks:drain:streams": ({"dem", "eps", "mask", "neigh:queen"}, XY),
    "fill_nan_values:mean": ({"dem", "neigh:queen"}, XY | {"grid:verts"}),
    "fill_nan_values:median": ({"dem", "neigh:queen"}, XY | {"grid:verts"}),
    "fill_nan_values:min": ({"dem", "neigh:queen"}, XY | {"grid:verts"}),
    "fill_nan_values:max": ({"dem", "neigh:queen"}, XY | {"grid:verts"}),
    "flow_directions": ({"dem", "neigh:queen"} | XY, {"grid:verts", "grid:top"}),
    "flow_directions:burn": ({"dem", "burn", "neigh:queen"} | XY, {"grid:verts", "grid:top"}),
    "flow_directions:terminal": ({"dem", "terminal", "neigh:queen"} | XY, {"grid:verts", "grid:top"}),
    "flow_directions:terminalrc": ({"dem", "terminalrc", "neigh:queen"} | XY, {"grid:verts", "grid:top"}),
    "flow_accumulation": ({"dem", "grid:verts"}, {"grid:top"}),
    "flow_accumulation:cells": ({"dem"}, {"grid:verts", "grid:top"}),
    "get_nidp": ({"dem"}, {"grid:verts", "grid:top"}),
    "area": ({"grid:verts"}, {"dem", "grid:top", "neigh:queen", "burn", "terminal"}),
    "dem": ({"dem"}, {"grid:verts", "grid:top", "neigh:queen", "burn", "terminal"} | XY),
    "flow_direction_array": ({"dem", "neigh:queen"} | XY, {"grid:verts", "grid:top"}),
    "hru_len": ({"dem", "grid:verts"} | XY, {"grid:top"}),
    "slope": ({"dem"} | XY, {"grid:verts", "grid:top"}),
    "aspect": ({"dem"} | XY, {"grid:verts", "grid:top"}),
    "vectors": ({"dem"} | XY, {"grid:verts", "grid:top"}),
    "get_watershed_boundary:geo": ({"dem", "pointgeo"}, {"grid:top"}),
    "get_watershed_boundary:list": ({"dem", "point"}, {"grid:top"}),
    "get_subbasins:geo": ({"dem", "points"}, {"grid:top"}),
    "get_subbasins:list": ({"dem", "pointlist.item"}, {"grid:top"}),
    "delineate_streams": ({"dem", "contrib"}, {"boundary"}),
    "delineate_streams:boundary": ({"dem", "contrib", "boundary"}, set()),
    "delineate_streams:array": ({"dem", "contribarr", "boundary"}, {"contrib"}),
    "threshold_from_control_points": ({"dem", "points", "threshold"}, {"contrib", "boundary", "setstrm"}),
    "threshold_from_control_points:list": ({"dem", "pointlist.item"}, {"contrib", "boundary", "setstrm"}),
}


def c27_units(tier):
    return UNITS + [(k, "opts") for k in KINDS]


def c27(prog, unit, tier, r):
    kind, part = unit
    rule = "a result reacts to the inputs and options documented for it, and to no others"

    def judge(t, s, must, mustnot):
        d = deps_at(t.S, s)
        nid = method_nid(prog, s)
        miss = sorted(x for x in must if x not in d)
        extra = sorted(x for x in mustnot if x in d)
        tx = lambda x: x.replace("grid:verts", "the cell outlines").replace("neigh:queen", "the neighbours").replace("grid:", "the grid's ")
        if miss:
            r.bad(prog, rule, nid, f"the result of {s.name} cannot depend on {', '.join(map(tx, miss))}", hist(s), extra=s.name)
        if extra:
            r.bad(prog, rule, nid, f"the result of {s.name} depends on {', '.join(map(tx, extra))}", hist(s), extra=s.name)
        if not miss and not extra:
            r.good("reacts as documented: " + opname(s))

    if part == "opts":
        return options(prog, kind, tier, r, judge)

    def on_step(t, s):
        if not s.out.returns:
            return
        c = CONTRACT.get(s.name)
        if c is not None:
            must, mustnot = c
            if s.name in ("flow_accumulation",) and "flow_accumulation:cells" in s.history:
                return
            judge(t, s, must, mustnot)
        elif s.history and s.history[0] in STREAMS and len(s.history) >= 2 and ":x" not in s.name and s.op[1] not in ("set_stream_array",) \
                and not s.name.endswith(("graph", "tables")):
            src = s.history[1]
            want = {"delineate_streams": {"contrib"}, "delineate_streams:boundary": {"contrib", "boundary"},
                    "delineate_streams:array": {"contribarr", "boundary"}, "set_stream_array": {"setstrm"}}[src]
            if any(":x" in h or ":graph" in h or ":tables" in h for h in s.history[2:]):
                return
            judge(t, s, set(want), set())
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), on_step=on_step)
    r.count("operations", len(t.steps))


def options(prog, kind, tier, r, judge):
    """Options given as unknown flags must be able to change the result."""
    t = Tour(prog, kind)
    S = t.S
    i = t.i
    b = lambda n: (lambda i: {n: i.S.boolean("opt")})
    for nm, build, must in (
            ("fill_sinks", lambda i: dict(method=i.S.string("opt")), {"opt"}),
            ("fill_nan_values", lambda i: dict(method=i.S.string("opt")), {"opt"})):
        st = t.save()
        s = t.do(None, (nm + ":method", nm, build))
        if s.out.returns:
            judge(t, s, must, set())
        t.restore(st)
    f = t.make_fd()
    if f is None:
        return
    t.do(f, fdir_ops(kind)[0], as_="fdir")
    st = t.save()
    s = t.do(f, ("flow_accumulation:as_cells", "flow_accumulation", b("as_cells")))
    if s.out.returns:
        judge(t, s, {"opt"}, set())
    t.restore(st)
    t.do(f, facc_ops()[0], as_="facc")
    base = t.save()
    for cls in STREAMS:
        t.restore(base)
        s = t.make_streams(cls)
        if s is None:
            continue
        t.do(s, arr_ops(cls)[1], (cls,), as_="strm")
        st = t.save()
        jobs = [("create_stream_vectors", "group_segments")]
        if cls != "Sfr6":
            jobs.append(("get_stream_connectivity", "group_segments"))
        if cls == "Sfr6":
            jobs.append(("packagedata", "detuple"))
        if cls == "Sfr2005":
            jobs += [("segment_data", "group_segments"), ("irunbnd", "group_segments")]
            if kind == "structured":
                jobs += [("reach_data", "group_segments"), ("get_pygsflow_builder_object", "group_segments"), ("get_pygsflow_builder_object", "apply_defaults")]
        if cls == "PrmsStreams":
            jobs += [("get_cascades", "many2many"), ("get_cascades", "group_segments"), ("get_pygsflow_builder_object", "many2many"),
                     ("get_pygsflow_builder_object", "group_segments")]
        for meth, opt in jobs:
            t.restore(st)
            x = t.do(s, (f"{meth}:{opt}", meth, b(opt)), (cls, "delineate_streams"))
            if x.out.returns:
                judge(t, x, {"opt"}, set())
            else:
                r.unknown(f"{cls}.{meth} {opt}", "did not complete with an unknown flag")
        if cls == "Sfr2005" and kind == "structured":
            # the flag has to reach whatever is not given
            names = sorted(GIVEN)
            for given in [(n,) for n in names] + [tuple(n for n in names if n != m) for m in names]:
                t.restore(st)
                x = t.do(s, (f"get_pygsflow_builder_object:group_segments, {' and '.join(given)} given", "get_pygsflow_builder_object",
                             lambda i, g=given: dict(group_segments=i.S.boolean("opt"), **{n: GIVEN[n][1](i) for n in g})), (cls, "delineate_streams"))
                if x.out.returns:
                    judge(t, x, {"opt"}, set())
                else:
                    r.unknown(f"{cls} builder with {' and '.join(given)} given", "did not complete with an unknown flag")
    r.count("operations", len(t.steps))


# ------------------------------------------------------------------ C15
def c15_units(tier):
    return [(k, p) for k in KINDS for p in ("flow",) + STREAMS]


def changed(S, a, b, roots):
    """Names of what differs between two states, seen from the roots."""
    out = set()
    for n, v in roots.items():
        seen, todo = set(), list(v.refs)
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            x, y = a.heap.get(l), b.heap.get(l)
            if x is None:
                continue
            if type(x) is not type(y):
                out.add(f"{n}")
                continue
            if isinstance(x, (Obj, Grid)):
                dx, dy = dict(x.fields), dict(y.fields)
                for k in set(dx) | set(dy):
                    if dx.get(k) != dy.get(k):
                        out.add(f"{n}.{k.lstrip('_')}" if not k.startswith("_") else f"{n} ({k})")
                if isinstance(x, Grid) and x.ncache != y.ncache:
                    out.add(n + " (neighbours)")
            elif x != y:
                out.add(n)
            from .interp import children
            todo.extend(children(x))
    return out


def ties(prog, r, rule, I, out, nid):
    """Which numbers of lowest cells are refused: the conditions of the
    refusals, read for elevations with one, two and three lowest cells."""
    from .rules_fix import Fixed, DEM, ROWS, COLS, NCELL, ERR
    sizes = {"R": ROWS, "C": COLS, "N": NCELL, "L": 1, "": NCELL}
    one = [x if i != 11 else 2.25 for i, x in enumerate(DEM)]
    high = [x if x != 2.0 else 3.25 for x in one]
    for what, dem, want in (("one lowest cell", one, False), ("two lowest cells", DEM, True), ("three lowest cells", [x if i != 13 else 2.0 for i, x in enumerate(DEM)], True),
                            ("one lowest cell and two equal ones above it", [x if i != 3 else 2.25 for i, x in enumerate(one)], False),
                            ("two lowest cells below zero", [x - 50.0 for x in DEM], True), ("two lowest cells at the end", [x if i not in (18, 19) else -3.5 for i, x in enumerate(high)], True)):
        got, near = None, None
        for st, name, n, explicit in out.raises:
            try:
                W = Fixed(I, st, {"dem": dem + [1e10]}, sizes, None, None)
                if W.holds([a for a in st.facts - out.entry.facts if a[0] != "rng"]):
                    got = n
            except ERR:
                near = n
        if want and got is None and near is None and out.raises:
            r.bad(prog, rule, out.raises[0][2], f"elevations with {what} are accepted", ["FlowDirections(grid, dem)"], extra="ties")
        elif not want and got is not None:
            r.bad(prog, rule, got, f"elevations with {what} are refused", ["FlowDirections(grid, dem)"], extra="ties")
        elif near is not None and (want or got is None):
            r.unknown(f"elevations with {what}", "the condition is not understood")
        else:
            r.good(f"{'refused' if want else 'accepted'}: {what}")


def c15(prog, unit, tier, r):
    kind, part = unit
    t = Tour(prog, kind)
    S = t.S
    rule = "a bad request is refused and changes nothing"

    def refuse(label, s, target=None, optional=False):
        nid = method_nid(prog, s)
        entry = s.out.entry
        roots = {n: v for n, v in entry.frames["root"].items()}
        if s.out.returns:
            if s.out.raises or optional:
                r.unknown(f"{label}", "the refusal could not be decided")
            else:
                r.bad(prog, rule, nid, f"{label} is accepted", hist(s), extra=label)
                return
        ok = True
        for st, name, n, explicit in s.out.raises:
            ch = changed(S, entry, st, roots)
            ch = {c for c in ch if not c.endswith("(neighbours)") and "(_neighbors)" not in c}
            if ch:
                ok = False
                r.bad(prog, rule, n if n > 0 else nid, f"{label} is refused ({name}) after changing {', '.join(sorted(ch)[:3])}", hist(s), extra=label)
        if ok and not s.out.returns:
            r.good(f"refused: {label} on {kind}")
        r.count("requests")

    def accept(label, s):
        if not s.out.returns and s.out.raises and all(x[3] for x in s.out.raises):
            r.bad(prog, rule, next((x[2] for x in s.out.raises if x[2] and x[2] > 0), method_nid(prog, s)), f"{label} is refused", hist(s), extra=label)
        elif s.out.returns:
            r.good(f"accepted: {label} on {kind}")

    def bad_size(label, delta, **k):
        sh = poly_add(S.ncell, poly_const(delta))
        return lambda i: i.get(label, lambda lb: S.array(lb, shape=(sh,), **k))

    def vec(n):
        def build(i):
            d = frozenset({"badpoint"})
            return i.get(f"badpoint{n}", lambda lb: S.seq(lb, "tuple", tuple(num("float", deps=d) for _ in range(n))))
        return build

    def vecs(n):
        def build(i):
            p = vec(n)(i)
            return i.get(f"badpoints{n}", lambda lb: S.seq(lb, "list", (p,)))
        return build

    if part == "flow":
        st0 = t.save()
        if part == "flow":
            # duplicate minima: refused when checked, accepted otherwise
            a = S.call(("cls", "FlowDirections"), t.grid, t.dem, check_elevations=cst(True))
            ra = [x for x in a.raises if x[3]]
            t.restore(st0)
            d = S.call(("cls", "FlowDirections"), t.grid, t.dem)
            rd = [x for x in d.raises if x[3]]
            t.restore(st0)
            b = S.call(("cls", "FlowDirections"), t.grid, t.dem, check_elevations=cst(False))
            rb = [x for x in b.raises if x[3]]
            nid = fn_node(prog, "FlowDirections", "__init__")
            for what, x in (("by default", rd), ("when the check is requested", ra)):
                if not x:
                    r.bad(prog, rule, nid, f"a DEM with several lowest cells is never refused {what}", ["FlowDirections(grid, dem)"], extra="minima " + what)
                else:
                    r.good(f"refused: several lowest cells {what}")
            ties(prog, r, rule, S.I, d, nid)
            if rb:
                r.bad(prog, rule, nid, "a DEM can be refused although the elevation check is switched off", ["FlowDirections(grid, dem, check_elevations=False)"], extra="minima off")
            else:
                r.good("accepted: several lowest cells without the check")
        t.restore(st0)
        f = t.make_fd()
        if f is None:
            return
        if kind != "structured":
            made = t.save()
            refuse("row/column terminal cells on a grid without rows", t.do(f, ("flow_directions:terminalrc", "flow_directions", lambda i: dict(terminal_cells=i.rowcols(), burn_threshold=i.num("burn", lo=0.0)))))
            t.restore(made)
        t.do(f, fdir_ops(kind)[0], as_="fdir")
        t.do(f, facc_ops()[0], as_="facc")
        made = t.save()
        if kind != "structured":
            refuse("row/column terminal cells on a grid without rows (again)", t.do(f, ("flow_directions:terminalrc", "flow_directions", lambda i: dict(terminal_cells=i.rowcols(), burn_threshold=i.num("burn", lo=0.0)))))
            t.restore(made)
        for n in (1, 3):
            refuse(f"a pour point with {n} coordinates", t.do(f, (f"get_watershed_boundary:{n}", "get_watershed_boundary", lambda i, n=n: dict(point=vec(n)(i)))))
            t.restore(made)
            refuse(f"a subbasin point with {n} coordinates", t.do(f, (f"get_subbasins:{n}", "get_subbasins", lambda i, n=n: dict(points=vecs(n)(i)))))
            t.restore(made)
        accept("a pour point with two coordinates", t.do(f, ("get_watershed_boundary:2", "get_watershed_boundary", lambda i: dict(point=vec(2)(i)))))
        t.restore(made)
        accept("a subbasin point with two coordinates", t.do(f, ("get_subbasins:2", "get_subbasins", lambda i: dict(points=vecs(2)(i)))))
        t.restore(made)
        r.count("operations", len(t.steps))
        return
    t.ready_fd()
    if t.fd is None:
        return
    s = t.make_streams(part)
    if s is None:
        return
    made = t.save()
    # before anything is delineated
    for op in strm_ops(part, kind):
        if ":x" in op[0] or ":graph" in op[0] or ":tables" in op[0] or op[1] == "threshold_from_control_points":
            continue
        t.restore(made)
        refuse(f"{part}: {op[0]} before any stream is known", t.do(s, op, (part,)))
    t.restore(made)
    refuse(f"{part}: stream_array before any stream is known", t.prop(s, "stream_array", (part,)))
    hists = [None, "delineate_streams:boundary", "get_stream_connectivity"]
    for h in hists:
        t.restore(made)
        hh = (part,)
        if h:
            t.do(s, arr_ops(part)[1], hh, as_="strm")
            hh += ("delineate_streams:boundary",)
            if h == "get_stream_connectivity":
                t.do(s, ("get_stream_connectivity", "get_stream_connectivity", lambda i: {}), hh, as_="conn")
                hh += (h,)
        cur = t.save()
        for d in (1, -1):
            w = "too long" if d > 0 else "too short"
            refuse(f"{part}: a stream array that is {w}", t.do(s, ("set_stream_array", "set_stream_array", lambda i, d=d: dict(stream_array=bad_size(f"badstrm{d}", d, kind="int", lo=0)(i))), hh))
            t.restore(cur)
            refuse(f"{part}: a threshold array that is {w}", t.do(s, ("delineate_streams", "delineate_streams", lambda i, d=d: dict(contrib_area=bad_size(f"badthr{d}", d)(i))), hh))
            t.restore(cur)
        refuse(f"{part}: a control point with 3 coordinates", t.do(s, ("threshold_from_control_points", "threshold_from_control_points", lambda i: dict(points=vecs(3)(i))), hh))
        t.restore(cur)
        accept(f"{part}: a control point with two coordinates", t.do(s, ("threshold_from_control_points", "threshold_from_control_points", lambda i: dict(points=vecs(2)(i))), hh))
        t.restore(cur)
        if part == "Sfr2005" and h:
            refuse("builder: an unknown keyword", t.do(s, ("builder", "get_pygsflow_builder_object", lambda i: dict(notanoption=i.S.number("x"))), hh))
            t.restore(cur)
            refuse("builder: an unknown keyword, no defaults", t.do(s, ("builder", "get_pygsflow_builder_object", lambda i: dict(notanoption=i.S.number("x"), apply_defaults=cst(False))), hh))
            t.restore(cur)
            refuse("builder: an unknown keyword, tables given", t.do(s, ("builder", "get_pygsflow_builder_object", lambda i: dict(
                notanoption=i.S.number("x"), reach_data=i.table("reachtab", "reach"), segment_data=i.table("segtab", "segment"), irunbnd=i.strm("xirunbnd"))), hh))
            t.restore(cur)
    r.count("operations", len(t.steps))
