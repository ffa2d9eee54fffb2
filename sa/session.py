"""Abstract client sessions: the package's public operations are analysed on
symbolic inputs (arbitrary grid size, arbitrary array contents)."""
from .av import *
from .av import E, TT, T
from .interp import Interp, State, Frame, Dead, avs_of, children, bufs_of
from .models import Models
from .prog import AnalysisError

R, C, L, N = poly_sym("R"), poly_sym("C"), poly_sym("L"), poly_sym("N")


class Outcome:
    """Result of one analysed call."""
    __slots__ = ("value", "state", "raises", "entry", "node")

    def __init__(self, value, state, raises, entry):
        self.value, self.state, self.raises, self.entry = value, state, raises, entry

    @property
    def returns(self):
        return self.value is not None


class Client:
    """Synthetic syntax node standing for a call made by the user."""
    _n = 0

    def __init__(self, nid):
        self._nid = nid


class Session:
    def __init__(self, prog, kind):
        TT.__init__()
        self.prog, self.kind = prog, kind
        self.models = Models()
        self.I = Interp(prog, self.models)
        self.ncalls = 0
        if kind == "structured":
            self.shape, self.ncell = (R, C), poly_mul(R, C)
            self.gshape = (L, R, C)
            self.models.rowcol = (R, C)
        else:
            self.shape, self.ncell = (N,), N
            self.gshape = (L, N) if kind == "vertex" else (N,)
        self.models.ncell = self.ncell
        self.st = State()
        self.st.frames["root"] = {}
        self.fr = Frame("root", None, 0, next(iter(prog.modules.values())))
        self.names = 0
        self.keep = {}

    def hook(self, kind, fn):
        self.models.hooks.setdefault(kind, []).append(fn)

    # ------------------------------------------------------------ inputs
    def bind(self, name, av):
        """Keep a value reachable from the client."""
        self.st.frames["root"][name] = av
        return av

    def array(self, label, shape=None, kind="float", lo=-INF, hi=INF, nan=False, owner=None, tags=E, elem=None, bind=True):
        """An input array with arbitrary content."""
        shape = self.shape if shape is None else shape
        k = ("in", label)
        e = elem if elem is not None else AV(frozenset({kind}), None, lo, hi, nan, E, frozenset({label}), E, E, None, tags | {("of", label)})
        if e.term is None:
            e = e.w(term=mk("input", label))
            if e.kinds & NUMK:
                TT.leafinfo(e.term, e.lo, e.hi, e.nan)
        self.st.heap[k + ("b",)] = Buf(e, owner if owner is not None else "in:" + label, 0, dt=dtof(e.kinds))
        self.st.heap[k] = Arr(k + ("b",), shape, E)
        r = ref(k, frozenset({label}), term=mk("loc", k))
        return self.bind(label, r) if bind else r

    def number(self, label, kind="float", lo=-INF, hi=INF, nan=False, tags=E):
        t = mk("input", label)
        TT.leafinfo(t, lo, hi, nan)
        return AV(frozenset({kind}), None, lo, hi, nan, E, frozenset({label}), E, E, t, tags)

    def boolean(self, label):
        return AV(KBOOL, None, 0.0, 1.0, False, E, frozenset({label}), E, E, mk("input", label))

    def string(self, label):
        return AV(KSTR, deps=frozenset({label}), term=mk("input", label))

    def seq(self, label, kind="list", items=(), rest=None, lenpoly=None, owner=None, bind=True):
        k = ("in", label)
        self.st.heap[k] = Seq(kind, tuple(items), rest, frozenset({label}), owner if owner is not None else "in:" + label, 0, False, lenpoly)
        r = ref(k, frozenset({label}), term=mk("loc", k))
        return self.bind(label, r) if bind else r

    def dct(self, label, key, val):
        k = ("in", label)
        self.st.heap[k] = Dct((), key, val, frozenset({label}), "in:" + label)
        return self.bind(label, ref(k, frozenset({label}), term=mk("loc", k)))

    def geo(self, label):
        k = ("in", label)
        pt = ("in", label, "pt")
        self.st.heap[pt] = Seq("tuple", (num("float", deps=frozenset({label})),) * 2, owner="in:" + label)
        self.st.heap[k] = Ext("geo", (ref(pt, frozenset({label})),), owner="in:" + label)
        return self.bind(label, ref(k, frozenset({label})))

    def table(self, label, which):
        """A user supplied reach or segment table."""
        from .models import REACH_DTYPE, SEG_DTYPE, REACH_INT, SEG_INT
        k = ("in", label)
        fields = []
        for f in (REACH_DTYPE if which == "reach" else SEG_DTYPE):
            isint = f in (REACH_INT if which == "reach" else SEG_INT)
            lo = 0.0 if isint else -INF
            self.st.heap[k + (f,)] = Buf(num("int" if isint else "float", lo, deps=frozenset({label, label + "." + f})), "in:" + label, 0)
            fields.append((f, k + (f,)))
        self.st.heap[k + ("b",)] = Buf(unk(), "in:" + label, 0, tuple(fields))
        self.st.heap[k] = Arr(k + ("b",), (None,), frozenset({label}))
        return self.bind(label, ref(k, frozenset({label}), term=mk("loc", k)))

    def grid(self, label="grid", cache=None):
        k = (label,)
        h = self.st.heap
        own = "grid"

        def arr(name, shape, kind="float", lo=-INF, nan=False):
            d = frozenset({label + ":" + name})
            e = AV(frozenset({kind}), None, lo, INF, nan, E, d, E, E, mk("grid", label, name), frozenset({("of", label + ":" + name)}))
            h[k + (name, "b")] = Buf(e, own, 0)
            h[k + (name,)] = Arr(k + (name, "b"), shape, E)
            return ref(k + (name,), term=mk("loc", k + (name,)))
        f = {}
        f["grid_type"] = cst(self.kind)
        items = tuple(polyav(p) for p in self.gshape)
        h[k + ("shape",)] = Seq("tuple", items, None, E, own)
        f["shape"] = ref(k + ("shape",), term=mk("loc", k + ("shape",)))
        top = arr("top", self.shape)
        f["top"] = top
        f["botm"] = arr("botm", None)
        f["xcellcenters"] = arr("xcenters", self.shape)
        f["ycellcenters"] = arr("ycenters", self.shape)
        if self.kind == "structured":
            f["delr"] = arr("delr", (C,), lo=0.0)
            f["delc"] = arr("delc", (R,), lo=0.0)
            f["nrow"], f["ncol"], f["nlay"] = polyav(R), polyav(C), polyav(L)
            f["ncpl"] = polyav(poly_mul(R, C))
            f["nnodes"] = polyav(poly_mul(L, poly_mul(R, C)))
        elif self.kind == "vertex":
            f["nlay"] = polyav(L)
            f["ncpl"] = polyav(N)
            f["nnodes"] = polyav(poly_mul(L, N))
        else:
            f["nlay"] = polyav(L)
            f["ncpl"] = arr("ncpl", (L,), "int", 0.0)
            f["nnodes"] = polyav(N)
        vd = frozenset({label + ":verts"})
        h[k + ("iv",)] = Seq("list", (), AV(KINT, None, 0.0, INF, False, E, vd, E, E, None, frozenset({("vert", 0)})), vd, own, 0, True)
        h[k + ("iverts",)] = Seq("list", (), ref(k + ("iv",), vd), E, own, 0, False, self.ncell)
        f["iverts"] = ref(k + ("iverts",), term=mk("loc", k + ("iverts",)))
        f["verts"] = arr("verts", (poly_sym("?V"), poly_const(2)))
        h[k] = Grid(self.kind, tuple(sorted(f.items())), own, cache)
        return self.bind(label, ref(k, term=mk("loc", k)))

    # ------------------------------------------------------------ calls
    def node(self):
        self.ncalls += 1
        return Client(-self.ncalls)

    def run(self, fn):
        """Run an analysis step, collecting raised states."""
        entry = self.st.copy()
        sink = []
        self.I.raise_sinks.append(sink)
        val = None
        self.I.inv.clear()
        try:
            val = fn()
            state = self.st
        except Dead:
            state = None
        finally:
            self.I.raise_sinks.pop()
        out = Outcome(val, state, sink, entry)
        if val is None:
            self.st = entry
        else:
            self.st.facts = self.st.facts
        return out

    def call(self, target, *args, **kwargs):
        """Analyse target(*args, **kwargs) from the current client state.

        target: ("fn", name), ("cls", name) or (object AV, method name).
        """
        nd = self.node()
        name = kwargs.pop("as_", None)
        self.I.clients[nd._nid] = self.describe(target, args, kwargs)

        def go():
            if target[0] == "fn":
                pub = self.prog.public.get(target[1])
                if pub is None or pub[0] != "fn":
                    raise AnalysisError(f"public function {target[1]} is missing")
                f = fnav("repo", pub[1], pub[2])
            elif target[0] == "cls":
                if target[1] not in self.prog.classes:
                    raise AnalysisError(f"public class {target[1]} is missing")
                f = fnav("cls", target[1])
            elif target[0] == "static":
                m = self.prog.find_method(target[1], target[2])
                if m is None:
                    raise AnalysisError(f"method {target[1]}.{target[2]} is missing")
                f = fnav("repofn", m._nid, None)
            else:
                self.require(target[0], target[1])
                f = self.I.getattr(self.st, target[0], target[1], nd, self.fr)
            return self.I.call(f, list(args), dict(kwargs), self.st, nd, self.fr)
        out = self.run(go)
        if out.returns and name:
            self.bind(name, out.value)
        return out

    def argtext(self, v):
        c = v.cval()
        if c[0]:
            return repr(c[1])
        for n, x in self.st.frames["root"].items():
            if x.refs and x.refs == v.refs:
                return n
        return next(iter(v.deps), "..") if v.deps else ".."

    def describe(self, target, args, kwargs):
        if target[0] in ("fn", "cls"):
            n = target[1]
        elif target[0] == "static":
            n = f"{target[1]}.{target[2]}"
        else:
            n = f"{self.argtext(target[0])}.{target[1]}"
        return n + "(" + ", ".join([self.argtext(a) for a in args] + [f"{k}={self.argtext(v)}" for k, v in kwargs.items()]) + ")"

    def get(self, obj, attr, as_=None):
        nd = self.node()
        self.I.clients[nd._nid] = f"{self.argtext(obj)}.{attr}"
        self.require(obj, attr)
        out = self.run(lambda: self.I.getattr(self.st, obj, attr, nd, self.fr))
        if out.returns and as_:
            self.bind(as_, out.value)
        return out

    def require(self, obj, attr):
        for l in obj.refs:
            o = self.st.heap.get(l)
            if isinstance(o, Obj) and self.prog.find_method(o.cls, attr) is None and o.get(attr) is None:
                raise AnalysisError(f"{o.cls}.{attr} is missing")

    # ------------------------------------------------------------ queries
    def elem(self, v, state=None):
        st = state or self.st
        return self.models.ai(self.I, st, v)

    def field(self, v, name, state=None):
        st = state or self.st
        for l in v.refs:
            o = st.heap.get(l)
            if isinstance(o, (Obj, Grid)):
                return o.get(name)
        return None

    def deps(self, v, state=None):
        return self.I.deepdeps(state or self.st, v)

    def events(self, kind):
        for k, kw in self.I.events.items():
            if k[0] == kind:
                yield k[1], k[2], k[3:], kw
