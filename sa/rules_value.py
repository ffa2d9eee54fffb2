"""Rules on values: markers, guards, ranges, what is stored where."""
from .tour import *
from .av import T, TT
from .rules_base import UNITS, units, opname, hist, method_nid, deps_at, mutable, fn_node, seq_items


def leaves(I, st, v, depth=3, seen=None):
    """Every scalar value held by a value, through arrays and sequences."""
    seen = set() if seen is None else seen
    if v.kinds & NUMK or not v.refs:
        yield v
    for l in v.refs:
        if l in seen:
            continue
        seen.add(l)
        o = st.heap.get(l)
        if isinstance(o, Arr):
            if o.cols is not None:
                for c in o.cols:
                    yield from leaves(I, st, c, depth - 1, seen)
            for b in bufs_of(o):
                bb = st.heap.get(b)
                if isinstance(bb, Buf):
                    if bb.fields:
                        for _, q in bb.fields:
                            qq = st.heap.get(q)
                            if isinstance(qq, Buf):
                                yield qq.elem
                    else:
                        yield bb.elem
        elif isinstance(o, Seq) and depth:
            for x in o.items + ((o.rest,) if o.rest is not None else ()):
                yield from leaves(I, st, x, depth - 1, seen)
        elif isinstance(o, Dct) and depth:
            for _, x in o.known:
                yield from leaves(I, st, x, depth - 1, seen)
            for x in (o.key, o.val):
                if x is not None:
                    yield from leaves(I, st, x, depth - 1, seen)
        elif isinstance(o, Obj) and depth:
            for _, x in o.fields:
                yield from leaves(I, st, x, depth - 1, seen)


def idx_leaves(I, st, ix):
    for z in ix:
        if isinstance(z, AV):
            yield from leaves(I, st, z, 2)
        else:
            for y in z[1:]:
                yield y


# ------------------------------------------------------------------ C09
def c09_units(tier):
    return [(k, p) for k in KINDS for p in ("flow",) + STREAMS]


def c09(prog, unit, tier, r):
    kind, part = unit
    sites = set()

    def index(I, st, node, fr, l, h, ix, isstore):
        sites.add(node._nid)
        for v in idx_leaves(I, st, ix):
            m = sorted({x[1] for x in v.marks if x[1] is not None and x[1] < 0})
            if m:
                r.bad(prog, "a marker for 'no downstream cell' is not a cell number", node._nid,
                      f"the marker {', '.join(map(str, m))} can be used as an index", I.callpath(fr.ctx))
                break

    def entry(I, st, node, fr, l, h, i):
        index(I, st, node, fr, l, h, (i,), False)

    def on_step(t, s):
        S = t.S
        if not s.out.returns or s.op[1] in ("flow_directions", "flow_direction_array", "FlowDirections") + STREAMS:
            return
        bad = set()
        for v in leaves(S.I, s.out.state, s.out.value):
            bad |= {x[1] for x in v.marks if x[1] is not None and x[1] < 0}
        if bad:
            r.bad(prog, "a marker for 'no downstream cell' is not a cell number", method_nid(prog, s),
                  f"the marker {', '.join(map(str, sorted(bad)))} can show up in the result of {s.name}", hist(s), extra=s.op[1])
        else:
            r.good("no marker in " + opname(s))
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), hooks=[("index", index), ("seqread", entry)], on_step=on_step)
    for n in sites:
        r.good("index without markers in " + prog.where(n)[1])
    r.count("index_sites", len(sites))
    r.count("operations", len(t.steps))


# ------------------------------------------------------------------ named parts of results
def named(I, st, v, path="", depth=4):
    """(path, value) of every scalar a result holds: [0] tuple position,
    .field table column or attribute, {} key and {v} value of a dictionary,
    [] element of a list."""
    if v.kinds & NUMK or not v.refs:
        yield path, v
    if depth == 0:
        return
    for l in sorted(v.refs, key=str):
        o = st.heap.get(l)
        if isinstance(o, Arr):
            fields = False
            for b in bufs_of(o):
                bb = st.heap.get(b)
                if isinstance(bb, Buf) and bb.fields:
                    fields = True
                    for n, q in bb.fields:
                        qq = st.heap.get(q)
                        if isinstance(qq, Buf):
                            if qq.elem.refs and not qq.elem.kinds & NUMK:
                                yield from named(I, st, qq.elem, path + "." + n, depth - 1)
                            else:
                                yield path + "." + n, qq.elem
            if fields:
                continue
            if o.cols is not None and o.axis == 0:
                for i, c in enumerate(o.cols):
                    yield f"{path}[{i}]", c
                continue
            for b in bufs_of(o):
                bb = st.heap.get(b)
                if isinstance(bb, Buf):
                    yield path, bb.elem
        elif isinstance(o, Seq):
            if o.kind == "list":
                for x in o.items + ((o.rest,) if o.rest is not None else ()):
                    yield from named(I, st, x, path + "[]", depth - 1)
            else:
                for i, x in enumerate(o.items):
                    yield from named(I, st, x, f"{path}[{i}]", depth - 1)
                if o.rest is not None:
                    yield from named(I, st, o.rest, f"{path}[*]", depth - 1)
        elif isinstance(o, Dct):
            for k, x in o.known:
                yield path + "{}", cst(k[2]) if k[0] == "c" else unk()
                yield from named(I, st, x, path + "{v}", depth - 1)
            if o.key is not None:
                yield path + "{}", o.key
                yield from named(I, st, o.val, path + "{v}", depth - 1)
        elif isinstance(o, Obj):
            for n, x in o.fields:
                yield from named(I, st, x, path + "." + n, depth - 1)


STREAM_TABLE = "packagedata", "segment_data", "reach_data"
# (operation pattern, path pattern, lowest, highest, may be NaN)
RANGES = [
    (r"^(get_)?aspect$", r"^$", 0.0, 360.0, False),
    (r"^vectors$", r"^\[[01*]\]$", -1.0, 1.0, False),
    (r"^slope$", r"^$", -INF, INF, False),
    (r"^area$", r"^$", 0.0, INF, False),
    (r"^hru_len$", r"^$", 0.0, INF, True),
    (r"^flow_accumulation$|^flow_accumulation:|^flow_accumulation_array$", r"^$", 0.0, INF, True),
    (r"^get_nidp$", r"^$", 0.0, INF, False),
    (r"^get_watershed_boundary", r"^$", 0.0, 1.0, False),
    (r"^get_subbasins", r"^$", 0.0, INF, False),
    (r"^flow_directions|^flow_direction_array$", r"^$", -2.0, INF, False),
    (r"^delineate_streams", r"^$", 0.0, 1.0, False),
    (r"^packagedata", r"^\.rlen$", 0.0, INF, True),
    (r"^reach_data", r"^\.rchlen$", 0.0, INF, True),
    (r"^get_cascades:m2o", r"^\[2\]$", 1.0, 1.0, False),
    (r"^get_cascades:m2m", r"^\[2\]$", 0.0, INF, True),
    (r"^irunbnd", r"^$", 0.0, INF, False),
    (r"^builder:m2[om]", r"^\.hru_aspect$", 0.0, 360.0, False),
    (r"^builder:m2[om]", r"^\.hru_slope$", -INF, INF, False),
    (r"^builder:m2[om]", r"^\.hru_area$", 0.0, INF, False),
    (r"^builder:m2o", r"^\.hru_pct_up$", 1.0, 1.0, False),
    (r"^builder:m2m", r"^\.hru_pct_up$", 0.0, INF, True),
]


def understood(v):
    """The value's kinds are known, so its interval says something."""
    return bool(v.kinds) and "unk" not in v.kinds


ARITH = ("+", "-", "*", "/", "//", "%", "**", "neg")


def loose(t, depth=0):
    """The bounds of arithmetic on operands that have something in common
    (x + 360 * (x < 0)) are wider than the values: they prove nothing."""
    if t is None or depth > 12:
        return False
    n = TT.node[t]
    ops = [x for x in n[1:] if type(x) is T]
    if n[0] not in ARITH:
        return False
    seen = set()
    for o in ops:
        mine = subterms(o)
        if mine & seen:
            return True
        seen |= mine
    return any(loose(o, depth + 1) for o in ops)


def subterms(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        n = TT.node[x]
        if x in out or n[0] == "c":
            continue
        out.add(x)
        todo += [c for c in n[1:] if type(c) is T]
    return out


def c24_units(tier):
    return [(k, p) for k in KINDS for p in ("flow",) + STREAMS]


def c24(prog, unit, tier, r):
    import re
    kind, part = unit
    spec = [(re.compile(a), re.compile(b), lo, hi, nan) for a, b, lo, hi, nan in RANGES]

    def on_step(t, s):
        if not s.out.returns:
            return
        rows = [x for x in spec if x[0].search(s.name)]
        if s.name == "stream_array" and s.history and "delineate" in s.history[-1]:
            rows = [(None, re.compile("^$"), 0.0, 1.0, False)]
        if not rows:
            return
        for path, v in named(t.S.I, s.out.state, s.out.value):
            for _, pp, lo, hi, nan in rows:
                if not pp.search(path):
                    continue
                if s.name == "flow_accumulation:cells" or s.name == "flow_accumulation_array" and s.history and s.history[-1].endswith(":cells"):
                    lo = 1.0
                ob = f"range of {opname(s)}{path}"
                if not understood(v):
                    r.unknown(ob, "values not resolved")
                    continue
                why = None
                if v.lo < lo:
                    why = f"can be as low as {v.lo:g}, below {lo:g}" if v.lo > -INF else f"is not bounded below by {lo:g}"
                elif v.hi > hi:
                    why = f"can be as high as {v.hi:g}, above {hi:g}" if v.hi < INF else f"is not bounded above by {hi:g}"
                elif v.nan and not nan:
                    why = "can be NaN"
                if why is None:
                    r.good(ob)
                elif loose(v.term):
                    r.unknown(ob, "the operands of the arithmetic are related")
                else:
                    r.bad(prog, "results stay within their published range", method_nid(prog, s), f"the result of {s.name} ({path or 'array'}) {why}", hist(s), extra=s.op[1] + path)
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), on_step=on_step)
    r.count("operations", len(t.steps))


# ------------------------------------------------------------------ C20
# (operation, class or None, path, lowest identifier)
IDS = [
    (r"^get_stream_connectivity", r"^\{\}$", 1), (r"^get_stream_connectivity", r"^\{\}\{v\}$", 0),
    (r"^create_stream_vectors", r"^\{\}$", 1),
    (r"^connectiondata", r"^\[\]\[0\]$", 0),
    (r"^packagedata", r"^\.ifno$", 0), (r"^packagedata", r"^\.cellid\[(\d|\*)\]$|^\.(k|i|j|node)$", 0),
    (r"^segment_data", r"^\.nseg$", 1), (r"^segment_data", r"^\.outseg$", 0),
    (r"^reach_data", r"^\.(node|k|i|j)$", 0), (r"^reach_data", r"^\.(iseg|ireach|reachID)$", 1),
    (r"^irunbnd", r"^$", 0),
    (r"^get_cascades", r"^\[[01]\]$", 1), (r"^get_cascades", r"^\[3\]$", 0),
    (r"^builder:m2[om]", r"^\.hru_(up|down)_id$", 1), (r"^builder:m2[om]", r"^\.hru_strmseg_down_id$", 0),
    (r"^builder(:nodefaults|:opts)?$", r"^\.reach_data\.(node|k|i|j)$", 0),
    (r"^builder(:nodefaults|:opts)?$", r"^\.reach_data\.(iseg|ireach|reachID)$", 1),
    (r"^builder(:nodefaults|:opts)?$", r"^\.segment_data\.nseg$", 1), (r"^builder(:nodefaults|:opts)?$", r"^\.segment_data\.outseg$", 0),
    (r"^builder(:nodefaults|:opts)?$", r"^\.irunbnd$", 0),
    (r"^get_subbasins", r"^$", 0), (r"^get_watershed_boundary", r"^$", 0),
]
CELLTAG = ("node", "row", "col", "lay")
TAGOF = {"i": "row", "j": "col", "k": "lay", "node": "node"}


def c20_units(tier):
    return [(k, p) for k in KINDS for p in ("flow",) + STREAMS]


def c20(prog, unit, tier, r):
    import re
    kind, part = unit
    spec = [(re.compile(a), re.compile(b), lo) for a, b, lo in IDS]
    rule = "identifiers count from their documented base"

    def on_step(t, s):
        if not s.out.returns:
            return
        rows = [x for x in spec if x[0].search(s.name)]
        for path, v in named(t.S.I, s.out.state, s.out.value) if rows else ():
            for _, pp, lo in rows:
                if not pp.search(path):
                    continue
                ob = f"base of {opname(s)}{path}"
                if not understood(v):
                    r.unknown(ob, "values not resolved")
                    continue
                what = None
                off = {x[1] for x in v.tags if x[0] in CELLTAG and len(x) > 1}
                want = TAGOF.get(path.rsplit(".", 1)[-1])
                tags = {x[0] for x in v.tags if x[0] in CELLTAG}
                if off and off != {lo}:
                    what = f"are {'/'.join(sorted(tags))} numbers counted from {'/'.join(map(str, sorted(off)))}, not from {lo}"
                elif want and tags and want not in tags:
                    what = f"are {'/'.join(sorted(tags))} numbers"
                elif (v.lo == lo - 1 or lo < v.lo < INF) and not loose(v.term):
                    what = f"start at {v.lo:g}, not at {lo}"
                if what:
                    r.bad(prog, rule, method_nid(prog, s), f"the identifiers in {path or 'the array'} of {s.name} {what}", hist(s), extra=s.op[1] + path)
                elif v.lo == lo:
                    r.good(ob)
                else:
                    r.unknown(ob, "no lower bound")
    t = full_tour(prog, kind, tier == "thorough", parts=(part,), on_step=on_step)
    r.count("operations", len(t.steps))
