"""The public operations of the package, as abstract client calls.

An operation is (name, method, argument builder).  `Tour` runs operations from
a given client state and restores that state afterwards, so that any history
of public calls can be analysed.
"""
from .session import *

KINDS = ("structured", "vertex", "unstructured")
STREAMS = ("Sfr6", "Sfr2005", "PrmsStreams")
T_, F_ = True, False


class Step:
    __slots__ = ("name", "op", "out", "history", "obj", "node")

    def __init__(self, name, op, out, history, obj, node):
        self.name, self.op, self.out, self.history, self.obj, self.node = name, op, out, history, obj, node


class Inputs:
    """Symbolic arguments, made on demand and kept by the client."""

    def __init__(self, S, strmkind="int", suffix=""):
        self.S = S
        self.made = {}
        self.nums = set()
        self.suffix = suffix
        self.strmkind = strmkind

    def get(self, label, make):
        label = label + self.suffix
        if label not in self.made:
            self.made[label] = make(label)
        v = self.made[label]
        # inputs survive state restoration
        for l in v.refs:
            if l not in self.S.st.heap:
                self.made[label] = v = make(label)
                break
        return v

    def dem(self, label="dem", **k):
        k.setdefault("nan", True)
        return self.get(label, lambda label: self.S.array(label, **k))

    def strm(self, label="xstrm", **k):
        k.setdefault("kind", self.strmkind)
        if k["kind"] == "bool":
            k["hi"] = 1.0
        if k["kind"] == "float":
            k["tags"] = frozenset({("whole", 0)})
            k.setdefault("nan", True)
        return self.get(label, lambda label: self.S.array(label, lo=0, **k))

    def bound(self, label="boundary"):
        return self.get(label, lambda label: self.S.array(label, kind="int", lo=0))

    def thr(self, label="contrib"):
        return self.num(label)

    def num(self, label, **k):
        self.nums.add(label + self.suffix)
        return self.S.number(label + self.suffix, **k)

    def thrarr(self, label="contribarr"):
        return self.get(label, lambda label: self.S.array(label))

    def geo(self, label="points"):
        return self.get(label, lambda label: self.S.geo(label))

    def point(self, label="point"):
        def mk_(label):
            d = frozenset({label})
            return self.S.seq(label, "tuple", (num("float", deps=d), num("float", deps=d)))
        return self.get(label, mk_)

    def points(self, label="pointlist"):
        def mk_(label):
            d = frozenset({label})
            p = self.S.seq(label + ".item", "tuple", (num("float", deps=d), num("float", deps=d)), bind=False, owner="in:" + label)
            return self.S.seq(label, "list", (), p)
        return self.get(label, mk_)

    def cells(self, label="terminal"):
        def mk_(label):
            return self.S.seq(label, "list", (num("int", 0.0, deps=frozenset({label}), term=None)
                                              .w(tags=frozenset({("node", 0)})),),
                              num("int", 0.0, deps=frozenset({label})).w(tags=frozenset({("node", 0)})))
        return self.get(label, mk_)

    def rowcols(self, label="terminalrc"):
        def mk_(label):
            d = frozenset({label})
            it = (num("int", 0.0, deps=d).w(tags=frozenset({("row", 0)})), num("int", 0.0, deps=d).w(tags=frozenset({("col", 0)})))
            p = self.S.seq(label + ".item", "tuple", it, bind=False, owner="in:" + label)
            return self.S.seq(label, "list", (p,), p)
        return self.get(label, mk_)

    def graph(self, label="xgraph"):
        def mk_(label):
            d = frozenset({label})
            return self.S.dct(label, num("int", 1.0, deps=d), num("int", 0.0, deps=d))
        return self.get(label, mk_)

    def table(self, label, which):
        return self.get(label, lambda label: self.S.table(label, which))


def cond_ops(mode="all"):
    ops = []
    for m in ("priority", "complete", "drain"):
        ops.append((f"fill_sinks:{m}", "fill_sinks", lambda i, m=m: dict(eps=i.num("eps", lo=0.0), method=cst(m))))
        ops.append((f"fill_sinks:{m}:streams", "fill_sinks", lambda i, m=m: dict(eps=i.num("eps", lo=0.0), method=cst(m), stream_mask=i.strm("mask"))))
    ops.append(("fill_sinks:default", "fill_sinks", lambda i: {}))
    ops.append(("fill_sinks:any", "fill_sinks", lambda i: dict(eps=i.num("eps", lo=0.0), method=i.S.string("method"), stream_mask=i.strm("mask"))))
    for m in ("mean", "median", "min", "max"):
        ops.append((f"fill_nan_values:{m}", "fill_nan_values", lambda i, m=m: dict(method=cst(m))))
    ops.append(("fill_nan_values:default", "fill_nan_values", lambda i: {}))
    return ops


def fdir_ops(kind):
    ops = [("flow_directions", "flow_directions", lambda i: {}),
           ("flow_directions:burn", "flow_directions", lambda i: dict(burn_threshold=i.num("burn", lo=0.0))),
           ("flow_directions:terminal", "flow_directions", lambda i: dict(terminal_cells=i.cells()))]
    if kind == "structured":
        ops.append(("flow_directions:terminalrc", "flow_directions", lambda i: dict(terminal_cells=i.rowcols())))
    return ops


def facc_ops():
    return [("flow_accumulation", "flow_accumulation", lambda i: {}),
            ("flow_accumulation:cells", "flow_accumulation", lambda i: dict(as_cells=cst(True)))]


def fd_query_ops():
    return [("get_nidp", "get_nidp", lambda i: {}),
            ("get_watershed_boundary:geo", "get_watershed_boundary", lambda i: dict(point=i.geo("pointgeo"))),
            ("get_watershed_boundary:list", "get_watershed_boundary", lambda i: dict(point=i.point())),
            ("get_subbasins:geo", "get_subbasins", lambda i: dict(points=i.geo())),
            ("get_subbasins:list", "get_subbasins", lambda i: dict(points=i.points()))]


FD_PROPS = ("area", "dem", "flow_direction_array", "flow_accumulation_array", "hru_len", "slope", "aspect", "vectors")


def arr_ops(cls):
    """Operations that define the stream array."""
    return [("delineate_streams", "delineate_streams", lambda i: dict(contrib_area=i.thr())),
            ("delineate_streams:boundary", "delineate_streams", lambda i: dict(contrib_area=i.thr(), basin_boundary=i.bound())),
            ("delineate_streams:array", "delineate_streams", lambda i: dict(contrib_area=i.thrarr(), basin_boundary=i.bound())),
            ("set_stream_array", "set_stream_array", lambda i: dict(stream_array=i.strm("setstrm")))]


def strm_ops(cls, kind):
    """Operations that use the stream array; ':x' takes an explicit array."""
    x = lambda i: i.strm("xstrm")
    ops = [("create_stream_vectors", "create_stream_vectors", lambda i: {}),
           ("create_stream_vectors:single", "create_stream_vectors", lambda i: dict(group_segments=cst(False))),
           ("create_stream_vectors:x", "create_stream_vectors", lambda i: dict(stream_array=x(i))),
           ("threshold_from_control_points", "threshold_from_control_points", lambda i: dict(points=i.geo(), threshold=i.num("threshold"))),
           ("threshold_from_control_points:list", "threshold_from_control_points", lambda i: dict(points=i.points())),
           ("get_stream_connectivity", "get_stream_connectivity", lambda i: {}),
           ("get_stream_connectivity:x", "get_stream_connectivity", lambda i: dict(stream_array=x(i)))]
    if cls != "Sfr6":
        for b in (True, False):
            ops.append((f"get_stream_connectivity:{'grouped' if b else 'single'}", "get_stream_connectivity", lambda i, b=b: dict(group_segments=cst(b))))
            ops.append((f"get_stream_connectivity:{'grouped' if b else 'single'}:x", "get_stream_connectivity", lambda i, b=b: dict(group_segments=cst(b), stream_array=x(i))))
    if cls == "Sfr6":
        ops += [("connectiondata", "connectiondata", lambda i: {}),
                ("connectiondata:graph", "connectiondata", lambda i: dict(graph=i.graph())),
                ("packagedata", "packagedata", lambda i: {}),
                ("packagedata:x", "packagedata", lambda i: dict(stream_array=x(i))),
                ("packagedata:detuple", "packagedata", lambda i: dict(detuple=cst(True)))]
    if cls == "Sfr2005":
        ops += [("segment_data", "segment_data", lambda i: {}),
                ("segment_data:x", "segment_data", lambda i: dict(stream_array=x(i))),
                ("segment_data:single", "segment_data", lambda i: dict(group_segments=cst(False))),
                ("irunbnd", "irunbnd", lambda i: {}),
                ("irunbnd:x", "irunbnd", lambda i: dict(stream_array=x(i))),
                ("irunbnd:graph", "irunbnd", lambda i: dict(stream_array=x(i), segment_graph=i.graph()))]
        if kind == "structured":
            ops += [("reach_data", "reach_data", lambda i: {}),
                    ("reach_data:x", "reach_data", lambda i: dict(stream_array=x(i))),
                    ("reach_data:single", "reach_data", lambda i: dict(group_segments=cst(False))),
                    ("builder", "get_pygsflow_builder_object", lambda i: {}),
                    ("builder:nodefaults", "get_pygsflow_builder_object", lambda i: dict(apply_defaults=cst(False))),
                    ("builder:opts", "get_pygsflow_builder_object", lambda i: dict(
                        min_slope=i.num("minslope"), max_slope=i.num("maxslope"), default_slope=i.num("defslope"),
                        **{k: i.num(k) for k in ("strhc1", "strthick", "etsw", "flow", "icalc", "iprior", "pptsw", "roughch",
                                                 "runoff", "width1", "width2")}))]
        ops.append(("builder:tables", "get_pygsflow_builder_object", lambda i: dict(
            reach_data=i.table("reachtab", "reach"), segment_data=i.table("segtab", "segment"), irunbnd=i.strm("xirunbnd"))))
    if cls == "PrmsStreams":
        for m in (False, True):
            t = "m2m" if m else "m2o"
            ops += [(f"get_cascades:{t}", "get_cascades", lambda i, m=m: dict(many2many=cst(m))),
                    (f"get_cascades:{t}:boundary", "get_cascades", lambda i, m=m: dict(many2many=cst(m), basin_boundary=i.bound())),
                    (f"get_cascades:{t}:x", "get_cascades", lambda i, m=m: dict(many2many=cst(m), stream_array=x(i), basin_boundary=i.bound())),
                    (f"builder:{t}", "get_pygsflow_builder_object", lambda i, m=m: dict(many2many=cst(m), basin_boundary=i.bound())),
                    (f"builder:{t}:x", "get_pygsflow_builder_object", lambda i, m=m: dict(many2many=cst(m), stream_array=x(i), group_segments=cst(False)))]
    return ops


class Tour:
    cache = None
    def __init__(self, prog, kind, cache=None, dem=None, strmkind="int"):
        self.S = Session(prog, kind)
        self.kind = kind
        self.i = Inputs(self.S, strmkind)
        self.steps = []
        self.grid = self.S.grid(cache=cache)
        self.dem = self.i.dem(**(dem or {}))
        self.fd = None
        self.cache = cache

    # -- plumbing
    def elsewhere(self):
        """Other users of the grid ask it for neighbours of another kind between any two operations."""
        if self.cache is not None:
            for l in self.grid.refs:
                self.S.st.heap[l] = self.S.st.heap[l]._replace(ncache=self.cache)

    def save(self):
        return self.S.st.copy()

    def restore(self, st):
        self.S.st = st.copy()

    def do(self, obj, op, history=(), as_=None, extra=None):
        """Run one operation in the current state and record it."""
        name, meth, mk_ = op
        kw = mk_(self.i)
        if extra:
            kw.update(extra)
        self.elsewhere()
        if obj is None:
            out = self.S.call(("fn", meth), self.grid, self.dem, as_=as_ or "result", **kw)
        else:
            out = self.S.call((obj, meth), as_=as_ or "result", **kw)
        s = Step(name, op, out, tuple(history), obj, -self.S.ncalls)
        self.steps.append(s)
        return s

    def prop(self, obj, name, history=(), as_=None):
        self.elsewhere()
        out = self.S.get(obj, name, as_ or "result")
        s = Step(name, (name, name, None), out, tuple(history), obj, -self.S.ncalls)
        self.steps.append(s)
        return s

    def make_fd(self, check=None, label="fd"):
        kw = {} if check is None else {"check_elevations": check}
        self.elsewhere()
        out = self.S.call(("cls", "FlowDirections"), self.grid, self.dem, as_=label, **kw)
        self.steps.append(Step("FlowDirections", ("FlowDirections",) * 3, out, (), None, -self.S.ncalls))
        if out.returns:
            self.fd = out.value
        return out.value

    def ready_fd(self):
        """A flow direction object with directions and accumulation."""
        f = self.make_fd()
        self.do(f, fdir_ops(self.kind)[0])
        self.do(f, facc_ops()[0])
        return f

    def make_streams(self, cls, label=None):
        self.elsewhere()
        out = self.S.call(("cls", cls), self.grid, self.fd, as_=label or cls)
        self.steps.append(Step(cls, (cls,) * 3, out, (), None, -self.S.ncalls))
        return out.value


ALLPARTS = ("cond", "flow") + STREAMS


def full_tour(prog, kind, thorough=False, cache=None, on_step=None, hooks=(), parts=ALLPARTS, dem=None, strmkind="int"):
    """Every public operation after every kind of history (bounded)."""
    t = Tour(prog, kind, cache, dem, strmkind)
    streams = [c for c in STREAMS if c in parts]
    S = t.S
    for k, fn in hooks:
        S.hook(k, fn)

    def emit(s, h=()):
        if on_step is not None:
            on_step(t, s)
        return s

    if "cond" in parts:
        st0 = t.save()
        for op in cond_ops():
            emit(t.do(None, op))
            t.restore(st0)
    if "flow" in parts or streams:
        f = t.make_fd()
        emit(t.steps[-1])
        if f is None:
            return t
    if "flow" in parts:
        base = t.save()
        fops = fdir_ops(kind)
        for op in fops:
            t.restore(base)
            emit(t.do(f, op, as_="fdir"))
            if not t.steps[-1].out.returns:
                continue
            a = t.save()
            for aop in facc_ops():
                t.restore(a)
                emit(t.do(f, aop, (op[0],), as_="facc"))
                if op is not fops[0] and not thorough:
                    break
                b = t.save()
                for q in fd_query_ops():
                    t.restore(b)
                    emit(t.do(f, q, (op[0], aop[0])))
                    if thorough:
                        c = t.save()
                        for q2 in fd_query_ops():
                            t.restore(c)
                            emit(t.do(f, q2, (op[0], aop[0], q[0]), as_="result2"))
                for p in FD_PROPS:
                    t.restore(b)
                    emit(t.prop(f, p, (op[0], aop[0])))
            if op is fops[0] or thorough:
                # a second computation
                for op2 in fops:
                    t.restore(a)
                    emit(t.do(f, op2, (op[0],), as_="fdir2"))
        t.restore(base)
    if streams:
        t.do(f, fdir_ops(kind)[0], as_="fdir")
        t.do(f, facc_ops()[0], as_="facc")
        if not t.steps[-1].out.returns:
            return t
        base = t.save()
        for cls in streams:
            t.restore(base)
            s = t.make_streams(cls)
            emit(t.steps[-1])
            if s is None:
                continue
            made = t.save()
            ops = strm_ops(cls, kind)
            aops = arr_ops(cls)
            for n, aop in enumerate(aops):
                t.restore(made)
                emit(t.do(s, aop, (cls,), as_="strm"))
                if not t.steps[-1].out.returns:
                    continue
                pr = t.save()
                emit(t.prop(s, "stream_array", (cls, aop[0])))
                t.restore(pr)
                if n not in (1, 3) and not thorough:
                    continue
                for op in ops:
                    t.restore(pr)
                    emit(t.do(s, op, (cls, aop[0])))
                    if (n == 1 or thorough) and t.steps[-1].out.returns and op[1] in (
                            ("get_stream_connectivity",) if not thorough else ("get_stream_connectivity", "create_stream_vectors", "reach_data", "packagedata", "get_cascades")):
                        nx = t.save()
                        emit(t.prop(s, "stream_array", (cls, aop[0], op[0]), as_="result2"))
                        for op2 in ops:
                            if op2[0].startswith("threshold"):
                                continue
                            t.restore(nx)
                            emit(t.do(s, op2, (cls, aop[0], op[0]), as_="result2"))
            # explicit arrays before anything is delineated
            for op in ops:
                if op[0].endswith(":x") or "graph" in op[0]:
                    t.restore(made)
                    emit(t.do(s, op, (cls,)))
        t.restore(base)
    return t
