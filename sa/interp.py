"""Whole-program abstract interpreter over the syntax tree of the package.

Every public entry point is analysed from an abstract client session; calls
into the package are analysed in the calling context, loops to a fixpoint,
branches joined.  No solver and no concrete execution is involved.
"""
import ast
import operator
from .av import *
from .av import E, TT, T
from .prog import AnalysisError


class Dead(Exception):
    """The current abstract state has no continuation."""


class State:
    __slots__ = ("frames", "heap", "facts", "cd", "ghost")

    def __init__(self):
        self.frames, self.heap = {}, {}
        self.facts, self.cd = E, E
        self.ghost = frozenset({E})

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.facts, s.cd, s.ghost = self.facts, self.cd, self.ghost
        return s

    def become(self, o):
        self.frames, self.heap = o.frames, o.heap
        self.facts, self.cd, self.ghost = o.facts, o.cd, o.ghost


class Frame:
    __slots__ = ("fid", "func", "ctx", "returns", "module", "cls", "yields", "parent", "loops", "globals_")

    def __init__(self, fid, func, ctx, module, cls=None, parent=None):
        self.fid, self.func, self.ctx, self.module, self.cls = fid, func, ctx, module, cls
        self.returns, self.yields, self.parent, self.loops = [], None, parent, []
        self.globals_ = set()


GHOST_MAX = 48
NEG = {"lt": "nlt", "le": "nle", "eq": "ne", "ne": "eq"}


def x_last_star(e):
    return sum(isinstance(x, ast.Starred) for x in e.elts) == 1 and isinstance(e.elts[-1], ast.Starred)


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} if n is not None else set()


def stored(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def exposed(stmts):
    """(names that may be read before they are assigned, names surely assigned)."""
    ue, df = set(), set()
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            u = loads(s.value) | set().union(*[loads(t) for t in ts])
            d = set().union(*[stored(t) for t in ts]) if s.value is not None else set()
        elif isinstance(s, ast.AugAssign):
            u, d = loads(s.value) | loads(s.target) | stored(s.target), set()
        elif isinstance(s, ast.If):
            (ub, db), (uo, do) = exposed(s.body), exposed(s.orelse)
            u, d = loads(s.test) | ub | uo, db & do
            for b, o in ((s.body, do), (s.orelse, db)):
                if b and isinstance(b[-1], (ast.Continue, ast.Return, ast.Raise, ast.Break)):
                    d = o
        elif isinstance(s, (ast.For, ast.While)):
            ub, _ = exposed(s.body)
            u = (loads(s.iter) | (ub - stored(s.target)) if isinstance(s, ast.For) else loads(s.test) | ub) | exposed(s.orelse)[0]
            d = set()
        elif isinstance(s, ast.With):
            ub, db = exposed(s.body)
            u, d = set().union(*[loads(i.context_expr) for i in s.items]) | ub, db
        else:
            u, d = loads(s) | (stored(s) if not isinstance(s, (ast.Expr, ast.Return)) else set()), set()
        ue |= u - df
        df |= d
    return ue, df


def live_after(block, s, end):
    """Names that may be read after a statement somewhere in a block, given
    those read after the block; None if the statement is not there."""
    for i, c in enumerate(block):
        ue, df = exposed(block[i + 1:])
        out = ue | (end - df)
        if c is s:
            return out
        inner = out
        if isinstance(c, (ast.For, ast.While)):
            ub, _ = exposed(c.body)
            inner = out | (ub - stored(c.target) if isinstance(c, ast.For) else ub | loads(c.test)) | exposed(c.orelse)[0]
        elif isinstance(c, ast.Try):
            inner = out | loads(c)
        for sub in [getattr(c, f, None) for f in ("body", "orelse", "finalbody")] + [h.body for h in getattr(c, "handlers", ())]:
            r = live_after(sub, s, inner) if isinstance(sub, list) else None
            if r is not None:
                return r
    return None


class Interp:
    def __init__(self, prog, models):
        self.prog = prog
        self.events = {}
        self.raise_sinks = []
        self.active = []
        self.inv = {}
        self.gate = None
        self.phidef = {}      # phi at the join of an if -> (test, value if true, value if false)
        self.escapes = 0
        self.rets = 0
        self.fcache = {}
        self.ctxs = {}
        self.ctxdesc = []
        self.visited_funcs = set()
        self.visited_nodes = set()
        self.unknowns = {}
        self.loopinfo = {}
        self.steps = 0
        self.maxsteps = 4_000_000
        self.models = models
        self.globals_frame = {}
        self.root = State()
        self.root.frames["root"] = {}
        self.modstate_done = set()
        self.curnode = None
        self.clients = {}
        self.membinfo = {}
        self.compinfo = {}
        self.deadnames = {}
        self.colinfo = {}     # version of a column taken from an array -> (array, its version, view, column)
        self.colsrc = {}      # array -> list of rows it was made from
        self.recv = {}        # attribute expression -> term of the object it is taken from
        self.elts = {}        # sequence -> {where an element came from: (facts, value)}, None if unknown
        self.slinfo = {}
        self.slfrom = {}
        self.nzinfo = {}
        self.iterof = {}
        self.exits = {}        # loop -> {(break or return, context): state}      # term of an iteration -> what is iterated over
        self.seqof = {}       # list -> (version, what it was made from)
        self.arrof = {}       # array -> (version, sequence it was made from)
        self.itempair = {}    # (key, value) tuple -> dictionary
        self.dputs = {}      # dictionary -> {site: (how, facts, key term, value term)} of what is put there
        self.dreads = {}     # term of a value looked up -> where
        self.dpair = set()    # terms of a key and its value, as iterated
        self.gathinfo = {}    # version of rows taken from an array -> (array, its version, view, which)

    # ------------------------------------------------------------ utilities
    def ctx(self, parent, nid):
        k = (parent, nid)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxdesc) + 1
            self.ctxdesc.append(k)
        return c

    def callpath(self, ctx):
        out = []
        while isinstance(ctx, int) and ctx:
            p, n = self.ctxdesc[ctx - 1]
            if isinstance(n, int) and n < 0:
                out.append(self.clients.get(n, "client"))
            elif isinstance(n, int):
                f, q, l = self.prog.where(n)
                out.append(f"{f}:{l}({q})")
            ctx = p
        return list(reversed(out))

    def event(self, kind, node, fr, *data, **kw):
        nid = node._nid if node is not None else 0
        ctx = fr.ctx if fr is not None else 0
        self.events[(kind, nid, ctx) + tuple(data)] = kw

    def unknown(self, what, node):
        k = (what, node._nid if node is not None else 0)
        self.unknowns[k] = self.unknowns.get(k, 0) + 1

    def gev(self, st, tag):
        if st.ghost is not None:
            g = frozenset(h | {tag} for h in st.ghost)
            st.ghost = g if len(g) <= GHOST_MAX else None

    # ------------------------------------------------------------ facts
    def facts_of(self, facts, t):
        idx = self.fcache.get(facts)
        if idx is None:
            idx = {}
            for a in facts:
                idx.setdefault(a[1], []).append(a)
                if a[0] in ("lt", "le", "nlt", "nle", "eq", "ne") and a[2] != a[1]:
                    idx.setdefault(a[2], []).append(a)
            if len(self.fcache) > 20000:
                self.fcache.clear()
            self.fcache[facts] = idx
        return idx.get(t, ())

    def addfact(self, st, *atom):
        if atom not in st.facts:
            st.facts = st.facts | {atom}

    def assume(self, st, term, truth):
        """Add what the truth of a boolean term implies."""
        if term is None:
            return
        n = TT.node[term]
        op = n[0]
        if op == "not":
            self.assume(st, n[1], not truth)
        elif op == "and":
            if truth:
                self.assume(st, n[1], True)
                self.assume(st, n[2], True)
        elif op == "or":
            if not truth:
                self.assume(st, n[1], False)
                self.assume(st, n[2], False)
        elif op in ("lt", "le", "eq", "ne"):
            o = op if truth else NEG[op]
            self.addfact(st, o, n[1], n[2])
        elif op == "isnone":
            self.addfact(st, "none" if truth else "notnone", n[1])
        elif op == "isnan":
            self.addfact(st, "nan" if truth else "nn", n[1])
        elif op == "inset":
            self.addfact(st, "in" if truth else "nin", n[1], n[2])
        elif op == "isa":
            self.addfact(st, "isa" if truth else "nota", n[1], n[2])
        elif op == "truthy":
            self.addfact(st, "t" if truth else "f", n[1])
        elif op == "memb" and truth and term in self.membinfo:
            self.addfact(st, "rng", n[1], term)
        self.addfact(st, "t" if truth else "f", term)

    def base_iv(self, t, facts, depth=0):
        """Interval of a term from its construction and the current facts."""
        n = TT.node[t]
        op = n[0]
        if op == "c":
            if n[1] in ("int", "float", "bool") and n[2] != "nan":
                return float(n[2]), float(n[2])
            return -INF, INF
        if op == "p":
            a = polyav(n[1])
            return a.lo, a.hi
        lo, hi = -INF, INF
        if t in TT.base:
            lo, hi, _ = TT.base[t]
        if depth < 6:
            if op in ("+", "-", "*", "neg", "abs", "max", "min") and all(type(c) is T for c in n[1:]):
                cs = [self.base_iv(c, facts, depth + 1) for c in n[1:]]
                l2, h2 = iv_op(op, cs)
                lo, hi = max(lo, l2), min(hi, h2)
            elif op == "ite" and len(n) == 4:
                c2 = [self.base_iv(c, facts, depth + 1) for c in n[2:]]
                lo, hi = max(lo, min(c2[0][0], c2[1][0])), min(hi, max(c2[0][1], c2[1][1]))
        for a in self.facts_of(facts, t):
            k = a[0]
            if k in ("lt", "le", "nlt", "nle", "eq"):
                l, r = a[1], a[2]
                if k == "nlt":
                    l, r = r, l
                elif k == "nle":
                    l, r = r, l
                oth = r if l == t else l
                if oth == t or depth >= 4:
                    continue
                on = TT.node[oth]
                if on[0] == "c":
                    ol, oh = self.base_iv(oth, facts, 9)
                else:
                    ol, oh = self.base_iv(oth, facts, depth + 3)
                if l == t or k == "eq":
                    hi = min(hi, oh)
                if l != t or k == "eq":
                    lo = max(lo, ol)
                isint = op in ("it",) or False
        return lo, hi

    def narrow(self, av, st):
        t = av.term
        if t is None or av.const is not None or not st.facts:
            return av
        fa = self.facts_of(st.facts, t)
        n = TT.node[t]
        if not fa and n[0] not in ("+", "-", "*", "neg", "ite"):
            return av
        kinds, marks, nan, refs, const = av.kinds, av.marks, av.nan, av.refs, av.const
        lo, hi = av.lo, av.hi
        isint = kinds == KINT
        for a in fa:
            k = a[0]
            if k == "none":
                kinds = kinds & KNONE or KNONE
                refs = E
                const = ("c", "None", None)
            elif k == "notnone":
                kinds = kinds - KNONE
            elif k == "nn":
                nan = False
            elif k == "isa":
                kinds, refs = self.filter_types(kinds, refs, a[2], True, st)
            elif k == "nota":
                kinds, refs = self.filter_types(kinds, refs, a[2], False, st)
            elif k == "rng":
                mlo, mhi, mm = self.membinfo[a[2]]
                kinds = kinds & NUMK or kinds
                lo, hi = max(lo, mlo), min(hi, mhi)
                marks = frozenset(m for m in marks if m[1] is None or m[1] in mm)
            elif k == "t" and kinds & KNONE and len(kinds) > 1:
                kinds = kinds - KNONE
            elif k == "nin":
                marks = frozenset(m for m in marks if m[1] not in a[2])
            elif k == "in":
                marks = frozenset(m for m in marks if m[1] is None or m[1] in a[2])
                nums = [float(x) for x in a[2] if isinstance(x, (int, float))]
                if nums and len(nums) == len(a[2]):
                    lo, hi = max(lo, min(nums)), min(hi, max(nums))
            elif k in ("lt", "le", "nlt", "nle", "eq", "ne"):
                if k in ("lt", "le", "eq"):
                    nan = False
                l, r = a[1], a[2]
                oth = r if l == t else l
                on = TT.node[oth]
                cv = None
                if on[0] == "c" and on[1] in ("int", "float", "bool") and on[2] != "nan":
                    cv = on[2]
                if k == "ne":
                    if cv is not None:
                        marks = frozenset(m for m in marks if m[1] != cv)
                        if lo == cv and isint:
                            lo = lo + 1
                        if hi == cv and isint:
                            hi = hi - 1
                    continue
                if k == "eq":
                    if on[0] == "c":
                        if on[1] == "str" and kinds == KSTR:
                            const = on
                        elif cv is not None:
                            marks = frozenset(m for m in marks if m[1] is None or m[1] == cv)
                            const = on
                            kinds = kinds & NUMK or kinds
                    else:
                        olo, ohi = self.base_iv(oth, st.facts, 1)
                        # equality with a value that carries no marker
                        if olo >= 0:
                            marks = E
                    continue
                # t is on the small side?
                small = (l == t) if k in ("lt", "le") else (r == t)
                strict = k in ("lt", "nle")
                olo, ohi = self.base_iv(oth, st.facts, 1)
                if small:
                    hi2 = ohi - 1 if strict and isint and float(ohi).is_integer() and abs(ohi) < 1e15 else ohi
                    hi = min(hi, hi2)
                else:
                    lo2 = olo + 1 if strict and isint and float(olo).is_integer() and abs(olo) < 1e15 else olo
                    lo = max(lo, lo2)
                    marks = frozenset(m for m in marks if m[1] is None or
                                      (m[1] >= olo if not strict else m[1] > olo))
        if kinds & NUMK:
            l2, h2 = self.base_iv(t, st.facts)
            if l2 <= h2:
                lo, hi = max(lo, l2), min(hi, h2)
            if lo > hi:
                lo, hi = av.lo, av.hi
            marks = frozenset(m for m in marks if m[1] is None or lo <= m[1] <= hi)
        tags = av.tags
        if not marks and av.marks and const is None:
            for k, o in tags:
                if k == "nn":
                    lo = max(lo, float(o)) if o <= hi else lo
                    tags = nonn(tags)
        return av._replace(kinds=kinds, marks=marks, nan=nan, refs=refs, const=const, lo=lo, hi=hi, tags=tags)

    def filter_types(self, kinds, refs, types, keep, st):
        """Restrict by an isinstance test on the named types."""
        nk, nr = set(), set()
        for k in kinds:
            if k == "ref":
                continue
            m = self.kind_isa(k, types)
            if m is None or m == keep:
                nk.add(k)
        for r in refs:
            m = self.ref_isa(r, types, st)
            if m is None or m == keep:
                nr.add(r)
        if nr:
            nk.add("ref")
        if not nk:
            return kinds, refs
        return frozenset(nk), frozenset(nr)

    @staticmethod
    def kind_isa(k, types):
        if k == "unk":
            return None
        table = {"int": {"int", "integer", "Number", "Integral", "Real", "number"},
                 "float": {"float", "floating", "Number", "Real", "number"},
                 "bool": {"bool", "int", "bool_"}, "str": {"str", "bytes"}, "None": {"NoneType"},
                 "fn": {"type"}}
        if "object" in types:
            return True
        s = table.get(k, set())
        hit = s & types
        if k == "int" and hit and types <= {"int", "float", "str", "list", "tuple", "bool", "dict"}:
            return True
        if k == "int" and types & {"integer", "Integral", "Number", "number"}:
            return True if types & {"int"} or types & {"Number", "Integral"} else None
        return bool(hit)

    def ref_isa(self, r, types, st):
        o = st.heap.get(r)
        if "object" in types:
            return True
        if isinstance(o, Arr):
            return bool(types & {"ndarray", "recarray"})
        if isinstance(o, Seq):
            names = {o.kind}
            return bool(types & (names | {"Iterable", "Sequence", "Collection", "Sized"}))
        if isinstance(o, Dct):
            return bool(types & {"dict", "Mapping", "defaultdict", "MutableMapping"})
        if isinstance(o, Obj):
            return bool(types & {c.name for c in self.prog.mro(o.cls)})
        if isinstance(o, Ext) and o.kind == "geo":
            return bool(types & {"Shape", "Collection", "Shapes"}) or False
        if isinstance(o, Grid):
            return bool(types & {"Grid", o.kind.capitalize() + "Grid"})
        return None

    # ------------------------------------------------------------ joins
    def join_states(self, a, b, where, loop=False, wid=False):
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        for fid in a.frames.keys() | b.frames.keys():
            ea, eb = a.frames.get(fid), b.frames.get(fid)
            if ea is None or eb is None:
                s.frames[fid] = dict(ea if eb is None else eb)
                continue
            env = {}
            for v in ea.keys() | eb.keys():
                x, y = ea.get(v), eb.get(v)
                if x is y:
                    env[v] = x
                    continue
                if x is None or y is None:
                    z = x if y is None else y
                    if z.const is None:
                        ph = mk("phi", where, fid, v)
                        if self.gate is not None:
                            self.phidef[ph] = (self.gate, x and x.term, y and y.term)
                        z = z.w(term=ph)
                    env[v] = z
                    continue
                if x == y:
                    env[v] = x
                    continue
                if (x.marks or y.marks or len(x.kinds) > 1 or len(y.kinds) > 1) and not (x.refs or y.refs):
                    x, y = self.narrow(x, a), self.narrow(y, b)
                z = join(x, y, None)
                if z.term is None:
                    z = z.w(term=mk("phi", where, fid, v))
                    if self.gate is not None:
                        self.phidef[z.term] = (self.gate, x.term, y.term)
                    else:
                        self.phidef.pop(z.term, None)
                if wid:
                    z = widen(x, z)
                if z.kinds & NUMK and z.const is None:
                    TT.leafinfo(z.term, z.lo, z.hi, z.nan) if TT.node[z.term][0] == "phi" else None
                env[v] = z
            s.frames[fid] = env
        h = {}
        ha, hb = a.heap, b.heap
        for loc, x in ha.items():
            y = hb.get(loc)
            if y is None or y is x:
                h[loc] = x
            elif x == y:
                h[loc] = x
            else:
                h[loc] = self.join_obj(x, y, where, loc, wid)
        for loc, y in hb.items():
            if loc not in ha:
                h[loc] = y
        s.heap = h
        s.facts = a.facts if a.facts is b.facts else a.facts & b.facts
        s.cd = a.cd | b.cd
        if a.ghost is None or b.ghost is None:
            s.ghost = None
        else:
            g = a.ghost | b.ghost
            s.ghost = g if len(g) <= GHOST_MAX else None
        return s

    def jv(self, x, y, where, key, wid):
        if x is None or y is None:
            return x if y is None else y
        z = join(x, y)
        if z.term is None and (x.term is not None and y.term is not None):
            z = z.w(term=mk("phi", where, key))
            if self.gate is not None:
                self.phidef[z.term] = (self.gate, x.term, y.term)
            else:
                self.phidef.pop(z.term, None)
            if z.kinds & NUMK:
                TT.leafinfo(z.term, z.lo, z.hi, z.nan)
        if wid:
            z = widen(x, z)
        return z

    def join_obj(self, x, y, where, loc, wid):
        if type(x) is not type(y):
            return Ext("unknown")
        multi = x.multi or y.multi
        if isinstance(x, Buf):
            e = join(x.elem, y.elem)
            if x.elem.term != y.elem.term or x.ver != y.ver:
                e = e.w(term=None)
            if wid:
                e = widen(x.elem, e)
            ver = x.ver if x.ver == y.ver else mk("phiv", where, loc)
            fields = x.fields if x.fields == y.fields else None
            return Buf(e, x.owner or y.owner, ver, fields, multi, x.src if x.src == y.src else self.join_src(x.src, y.src),
                       x.dt if x.dt == y.dt else None, self.nz_masks(loc, x) & self.nz_masks(loc, y))
        if isinstance(x, Arr):
            shape = x.shape
            if x.shape != y.shape:
                if x.shape is not None and y.shape is not None and len(x.shape) == len(y.shape):
                    shape = tuple(p if p == q else None for p, q in zip(x.shape, y.shape))
                else:
                    shape = None
            cols = None
            if x.cols is not None and y.cols is not None and len(x.cols) == len(y.cols) and x.axis == y.axis:
                cols = tuple(join(p, q) for p, q in zip(x.cols, y.cols))
            buf = x.buf
            if x.buf != y.buf:
                buf = tuple(sorted(set(bufs_of(x)) | set(bufs_of(y)), key=str))
                buf = buf[0] if len(buf) == 1 else ("U",) + buf
            return Arr(buf, shape, x.ldeps | y.ldeps, x.view if x.view == y.view else mk("viewphi", where, loc), multi, cols, x.axis)
        if isinstance(x, Seq):
            return self.join_seq(x, y, where, loc, wid, multi)
        if isinstance(x, Dct):
            kx, ky = dict(x.known), dict(y.known)
            known, key, val = [], None, None
            for k in list(kx) + [k for k in ky if k not in kx]:
                if k in kx and k in ky:
                    known.append((k, self.jv(kx[k], ky[k], where, (loc, str(k)), wid)))
                else:
                    key = join(key, cst_key(k)).w(term=None)
                    val = join(val, kx.get(k) or ky.get(k)).w(term=None)
            for o in (x, y):
                if o.key is not None:
                    key = join(key, o.key).w(term=None)
                    val = join(val, o.val).w(term=None)
            if wid and key is not None and x.key is not None:
                key, val = widen(x.key, key), widen(x.val, val)
            ver = x.ver if x.ver == y.ver else mk("phiv", where, loc)
            return Dct(tuple(known), key, val, x.ldeps | y.ldeps, x.owner, ver, multi, x.default or y.default)
        if isinstance(x, (Obj, Grid)):
            fx, fy = dict(x.fields), dict(y.fields)
            f = {}
            for k in fx.keys() | fy.keys():
                p, q = fx.get(k), fy.get(k)
                if p is None or q is None:
                    z = p if q is None else q
                    f[k] = z
                else:
                    f[k] = p if p == q else self.jv(p, q, where, (loc, k), wid)
            r = x._replace(fields=tuple(sorted(f.items())), multi=multi)
            if isinstance(x, Grid) and x.ncache != y.ncache:
                r = r._replace(ncache="any")
            return r
        if isinstance(x, Ext):
            if x == y:
                return x
            if x.kind == y.kind and type(x.info) is tuple and type(y.info) is tuple:
                info = self.join_info(x.info, y.info, where, loc, wid)
                if info is not None:
                    return Ext(x.kind, info, multi, x.owner or y.owner)
            return Ext("unknown", None, multi)
        return x

    def join_info(self, a, b, where, loc, wid):
        if len(a) != len(b):
            return None
        out = []
        for i, (p, q) in enumerate(zip(a, b)):
            if isinstance(p, AV) and isinstance(q, AV):
                out.append(p if p == q else self.jv(p, q, where, (loc, i), wid))
            elif type(p) is tuple and type(q) is tuple and p != q:
                r = self.join_info(p, q, where, (loc, i), wid)
                if r is None:
                    return None
                out.append(r)
            elif p == q:
                out.append(p)
            else:
                return None
        return tuple(out)

    @staticmethod
    def join_src(a, b):
        if a is None or b is None:
            return None
        if a == b:
            return a
        for bad in ("subset", "ratio"):
            for s in (a, b):
                if s[0] == bad:
                    return s
        return None

    def join_seq(self, x, y, where, loc, wid, multi):
        n = min(len(x.items), len(y.items))
        items = tuple(self.jv(x.items[i], y.items[i], where, (loc, i), wid) for i in range(n))
        rest = None
        for o in (x, y):
            for it in o.items[n:]:
                rest = join(rest, it).w(term=None)
            if o.rest is not None:
                rest = join(rest, o.rest).w(term=None)
        if wid and x.rest is not None and rest is not None:
            rest = widen(x.rest, rest)
        if n > 24:
            for it in items[24:]:
                rest = join(rest, it).w(term=None)
            items = items[:24]
        ver = x.ver if x.ver == y.ver else mk("phiv", where, loc)
        return Seq(x.kind, items, rest, x.ldeps | y.ldeps, x.owner, ver, multi,
                   x.lenpoly if x.lenpoly == y.lenpoly else None)

    # ------------------------------------------------------------ allocation
    def reachable(self, st, roots=None):
        seen, todo = set(), []
        if roots is None:
            for env in st.frames.values():
                for v in env.values():
                    todo.extend(v.refs)
                    for f in v.fns:
                        if f[0] == "bound":
                            todo.append(f[2])
        else:
            todo = list(roots)
        heap = st.heap
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            o = heap.get(l)
            if o is None:
                continue
            todo.extend(children(o))
        return seen

    def alloc(self, st, key, obj):
        """Allocate at a site; a still reachable older instance is summarised."""
        if key in st.heap:
            if key in self.reachable(st):
                obj = self.join_obj(st.heap[key], obj, ("alloc", key), key, False)._replace(multi=True)
        st.heap[key] = obj
        return key

    def key(self, tag, node, fr):
        return (tag, node._nid if node is not None else 0, fr.ctx if fr is not None else 0)

    def new_seq(self, st, node, fr, kind, items=(), rest=None, tag="q", ldeps=E, lenpoly=None):
        items = tuple(items)
        if len(items) > 40:
            for it in items:
                rest = join(rest, it).w(term=None)
            items = ()
        k = self.alloc(st, self.key(tag, node, fr),
                       Seq(kind, items, rest, ldeps, None, mk("w", node._nid, fr.ctx, tag), False, lenpoly))
        self.elts[k] = None if rest is not None else {("i", node._nid, fr.ctx, i): (st.facts, v) for i, v in enumerate(items)}
        return ref(k, st.cd, term=mk("loc", k))

    def stamp(self, st, v, out=None):
        """Versions of what a value refers to now."""
        out = {} if out is None else out
        for l in v.refs:
            h = st.heap.get(l)
            if l in out:
                continue
            out[l] = getattr(h, "ver", None)
            if isinstance(h, Arr):
                for b in bufs_of(h):
                    out[b] = getattr(st.heap.get(b), "ver", None)
            elif isinstance(h, Ext) and h.kind == "iter":
                for x in h.info[1:]:
                    for y in x if isinstance(x, (tuple, list)) else (x,):
                        if isinstance(y, AV):
                            self.stamp(st, y, out)
        return out

    def carry(self, st, new, src):
        """The unlisted elements of a new sequence are those of another."""
        if len(src) == 1 and len(new.refs) == 1:
            l, = src
            k, = new.refs
            d = self.elts.get(l)
            if d is not None and isinstance(st.heap.get(l), Seq):
                e = {("i", k, i): (st.facts, v) for i, v in enumerate(st.heap[k].items)}
                e.update(d)
                self.elts[k] = e
        return new

    def adds(self, st, l, key, v):
        """Another value becomes an element of a sequence."""
        if self.elts.get(l) is not None:
            self.elts[l][key] = (st.facts, v)

    def new_arr(self, st, node, fr, elem, shape=None, tag="a", ldeps=E, src=None, cols=None, axis=0):
        bk = self.key(tag + "b", node, fr)
        eterm = elem.term
        ver = mk("w", node._nid, fr.ctx, tag)
        bk = self.alloc(st, bk, Buf(elem.w(term=eterm), None, ver, None, False, src, dtof(elem.kinds)))
        ak = self.alloc(st, self.key(tag, node, fr), Arr(bk, shape, ldeps, None, False, cols, axis))
        return ref(ak, st.cd, term=mk("loc", ak, ver))

    def new_view(self, st, node, fr, arr, shape, view, tag="v", ldeps=None, cols=None, axis=0):
        ak = self.alloc(st, self.key(tag, node, fr),
                        Arr(arr.buf, shape, arr.ldeps if ldeps is None else ldeps, view, False, cols, axis))
        return ref(ak, st.cd, term=mk("view", ak, view) if view is not None else mk("loc", ak))

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            self.steps += 1
            if self.steps > self.maxsteps:
                raise AnalysisError("analysis budget exceeded")
            try:
                st = self.stmt(s, st, fr)
            except Dead:
                return None
        return st

    def stmt(self, s, st, fr):
        self.visited_nodes.add(s._nid)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.unknown("stmt " + type(s).__name__, s)
            return st
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    def s_Expr(self, s, st, fr):
        self.ev(s.value, st, fr)
        return st

    def s_Import(self, s, st, fr):
        tab = {}
        self.prog.bind_import(s, tab, fr.module.pkgname)
        for k, v in tab.items():
            st.frames[fr.fid][k] = self.import_av(v, st)
        return st

    s_ImportFrom = s_Import

    def import_av(self, v, st):
        if v[0] == "mod":
            return fnav("mod", v[1])
        _, base, name = v
        if base.split(".")[0] == self.prog.package:
            mod = self.prog.modules.get(base)
            if mod is not None:
                return self.module_attr(mod, name, st)
            return unk()
        return self.models.ext_attr(base, name)

    def module_attr(self, mod, name, st):
        if name in mod.functions:
            return fnav("repo", mod.name, name)
        if name in mod.classes:
            return fnav("cls", name)
        if name in mod.imports:
            return self.import_av(mod.imports[name], st)
        self.run_module(mod, st)
        g = st.frames.get(("mod", mod.name), {})
        if name in g:
            return g[name]
        sub = self.prog.modules.get(mod.name + "." + name)
        if sub is not None:
            return fnav("mod", sub.name)
        return None or unk()

    def run_module(self, mod, st):
        """Evaluate module-level assignments once, owned by the module."""
        fid = ("mod", mod.name)
        if fid in st.frames:
            return
        st.frames[fid] = {}
        fr = Frame(fid, None, self.ctx("M", mod.name), mod)
        before = set(st.heap)
        saved = st.cd
        st.cd = E
        for a in mod.assigns:
            try:
                r = self.stmt(a, st, fr)
                if r is not None and r is not st:
                    st.become(r)
            except Dead:
                pass
        st.cd = saved
        for l in set(st.heap) - before:
            o = st.heap[l]
            if hasattr(o, "owner") and o.owner is None:
                st.heap[l] = o._replace(owner="global:" + mod.name)

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else c_none()
        fr.returns.append((st, withdeps(v, st.cd), s))
        for l in s._loops:
            if isinstance(self.prog.nodes[l], ast.For):
                self.exits.setdefault(l, {})[(s._nid, fr.ctx)] = st.copy()
        self.escapes += 1
        self.rets += 1
        return None

    def s_Break(self, s, st, fr):
        fr.loops[-1]["breaks"].append(st)
        if s._loops and isinstance(self.prog.nodes[s._loops[-1]], ast.For):
            self.exits.setdefault(s._loops[-1], {})[(s._nid, fr.ctx)] = st.copy()
        self.escapes += 1
        return None

    def s_Continue(self, s, st, fr):
        fr.loops[-1]["continues"].append(st)
        self.escapes += 1
        return None

    def s_Raise(self, s, st, fr):
        name = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else getattr(e, "attr", "Exception")
            if isinstance(s.exc, ast.Call):
                for a in s.exc.args:
                    self.ev(a, st, fr)
        self.do_raise(st, name, s, fr, explicit=True)
        return None

    def do_raise(self, st, name, node, fr, explicit=False):
        self.event("raise", node, fr, name, explicit=explicit)
        if self.raise_sinks:
            self.raise_sinks[-1].append((st, name, node._nid, explicit))

    def s_Assert(self, s, st, fr):
        t = self.ev(s.test, st, fr)
        tv = self.truth(t, st)
        if tv is not True:
            s2 = st.copy()
            self.assume(s2, t.term, False)
            self.do_raise(s2, "AssertionError", s, fr, explicit=True)
            if tv is False:
                return None
            self.assume(st, t.term, True)
        return st

    def s_Global(self, s, st, fr):
        fr.globals_.update(s.names)
        return st

    s_Nonlocal = s_Global

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.frames[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                c = self.ev(t.value, st, fr)
                i = self.ev(t.slice, st, fr)
                self.models.delitem(self, st, t, fr, c, i)
            elif isinstance(t, ast.Attribute):
                c = self.ev(t.value, st, fr)
                for l in c.refs:
                    self.event("write", t, fr, getattr(st.heap[l], "owner", None), "attr", t.attr)
        return st

    def s_FunctionDef(self, s, st, fr):
        st.frames[fr.fid][s.name] = AV(KFN, fns=frozenset({("lam", fr.fid, s._nid)}), term=mk("fn", s._nid, fr.ctx))
        self.closures = getattr(self, "closures", {})
        self.closures[(fr.fid, s._nid)] = fr
        return st

    def s_ClassDef(self, s, st, fr):
        self.unknown("nested class", s)
        st.frames[fr.fid][s.name] = unk()
        return st

    def assign_target(self, t, v, st, fr, node):
        v = withdeps(v, st.cd)
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                self.event("write", node, fr, "global:" + fr.module.name, "global", t.id)
                st.frames.setdefault(("mod", fr.module.name), {})[t.id] = v
                return
            if v.term is None:
                v = v.w(term=mk("v", node._nid, fr.ctx, t.id))
                if v.kinds & NUMK:
                    TT.leafinfo(v.term, v.lo, v.hi, v.nan)
            st.frames[fr.fid][t.id] = v
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr(st, o, t.attr, v, t, fr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            self.models.setitem(self, st, t, fr, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st, fr, node)
        elif isinstance(t, ast.Starred):
            self.assign_target(t.value, v, st, fr, node)

    def unpack(self, t, v, st, fr, node):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        vals = self.models.unpack_values(self, st, v, n, node, fr, star[0] if star else None)
        for i, e in enumerate(t.elts):
            self.assign_target(e, vals[i], st, fr, e)

    def setattr(self, st, o, name, v, node, fr):
        if v.term is None and not v.const:
            v = v.w(term=mk("v", node._nid, fr.ctx, name))
            if v.kinds & NUMK:
                TT.leafinfo(v.term, v.lo, v.hi, v.nan)
        strong = len(o.refs) == 1 and o.kinds == KREF
        v = withdeps(v, o.deps)
        for l in o.refs:
            h = st.heap.get(l)
            if isinstance(h, (Obj, Grid)):
                self.event("write", node, fr, h.owner, "attr", name, cls=getattr(h, "cls", "Grid"), val=v)
                setter = isinstance(h, Obj) and self.prog.find_method(h.cls, name + ".setter")
                if setter:
                    self.call_repo(setter, [ref(l), v], {}, st, node, fr)
                    continue
                if isinstance(h, Grid):
                    if name in ("top", "_top"):
                        name = "top"
                if strong and not h.multi:
                    st.heap[l] = h.put(name, v)
                else:
                    old = h.get(name)
                    st.heap[l] = h.put(name, join(old, v).w(term=None) if old is not None else v)
            elif isinstance(h, Arr) and name == "shape":
                st.heap[l] = h._replace(shape=None)
            elif isinstance(h, Ext):
                self.event("write", node, fr, h.owner, "attr", name)
        for f in o.fns:
            self.event("write", node, fr, "class:" + str(f[1]), "attr", name)

    def s_Assign(self, s, st, fr):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(
                s.value, (ast.List, ast.ListComp, ast.Dict, ast.Set, ast.Call, ast.Tuple, ast.BinOp, ast.Compare, ast.Subscript, ast.UnaryOp)):
            nm = s.targets[0].id
            if nm not in fr.globals_ and not any(isinstance(x, ast.Name) and x.id == nm for x in ast.walk(s.value)):
                st.frames[fr.fid].pop(nm, None)
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign_target(t, v, st, fr, t)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            v = self.ev(s.value, st, fr)
            self.assign_target(s.target, v, st, fr, s.target)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.ev_name(t, t.id, st, fr)
            setter = lambda v: self.assign_target(t, v, st, fr, s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            cur = self.getattr(st, o, t.attr, t, fr)
            setter = lambda v: self.setattr(st, o, t.attr, withdeps(v, st.cd), t, fr)
        else:
            o = self.ev(t.value, st, fr)
            i = self.ev_index(t.slice, st, fr)
            cur = self.models.getitem(self, st, t, fr, o, i)
            setter = lambda v: self.models.setitem(self, st, t, fr, o, i, withdeps(v, st.cd), aug=True)
        rhs = self.ev(s.value, st, fr)
        inplace = [l for l in cur.refs if isinstance(st.heap.get(l), (Seq, Arr, Dct)) and
                   not (isinstance(st.heap[l], Seq) and st.heap[l].kind in ("tuple", "frozenset"))]
        if inplace:
            self.models.inplace(self, st, s, fr, cur, s.op, rhs)
            setter(cur)
            return st
        v = self.binop(s.op, cur, rhs, st, s, fr)
        setter(v)
        return st

    # -------------------------------------------------------- control flow
    def branch(self, s, st, fr, test, body, orelse):
        """Two-way branch with control-dependence bookkeeping."""
        t = self.ev(test, st, fr)
        tv = self.truth(t, st)
        if tv is True:
            self.assume(st, t.term, True)
            return body(st)
        if tv is False:
            self.assume(st, t.term, False)
            return orelse(st)
        base = st.cd
        clean = base | t.deps
        s2 = st.copy()
        st.cd = clean
        s2.cd = clean
        if t.term is None:
            self.addfact(st, "?", s._nid, True)
            self.addfact(s2, "?", s._nid, False)
        self.assume(st, t.term, True)
        self.assume(s2, t.term, False)
        self.narrow_container(test, st, fr, True)
        self.narrow_container(test, s2, fr, False)
        e0 = self.escapes
        o1 = body(st)
        o2 = orelse(s2)
        esc = self.escapes != e0
        if o1 is None and o2 is None:
            return None
        if o1 is None or o2 is None:
            o = o1 if o2 is None else o2
            if not esc:
                o.cd = base if o.cd == clean else o.cd
            return o
        self.gate = self.truth_term(t) if t.term is not None else None
        r = self.join_states(o1, o2, (s._nid, fr.ctx))
        self.gate = None
        r.cd = base if (o1.cd == clean and o2.cd == clean) else o1.cd | o2.cd
        return r

    def narrow_container(self, test, st, fr, truth):
        """After `while stack` / `if stack`: emptiness is known on each side."""
        neg = False
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, neg = test.operand, not neg
        if isinstance(test, (ast.Name, ast.Attribute)):
            tr = truth != neg
            try:
                v = self.ev(test, st, fr)
            except Dead:
                return
            if not tr and len(v.refs) == 1:
                l, = v.refs
                o = st.heap.get(l)
                if isinstance(o, Seq) and not o.multi and not o.items:
                    st.heap[l] = o._replace(rest=None)

    def s_If(self, s, st, fr):
        return self.branch(s, st, fr, s.test,
                           lambda x: self.block(s.body, x, fr),
                           lambda x: self.block(s.orelse, x, fr))

    def s_While(self, s, st, fr):
        def enter(h):
            t = self.ev(s.test, h, fr)
            tv = self.truth(t, h)
            no = None
            if tv is not True:
                no = h.copy()
                self.assume(no, t.term, False)
                self.narrow_container(s.test, no, fr, False)
            if tv is False:
                return None, no, t.deps
            self.assume(h, t.term, True)
            return h, no, t.deps
        return self.loop(s, st, fr, enter, s.body, s.orelse)

    def dead(self, s, fr):
        """Names a pass of a loop leaves behind that nothing reads again."""
        r = self.deadnames.get(s._nid)
        if r is None:
            r = set()
            fn = fr.func
            if isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                ub, _ = exposed(s.body)
                ue = ub - stored(s.target) if isinstance(s, ast.For) else loads(s.test) | ub
                used = live_after(fn.body, s, set())
                used = stored(s) if used is None else used
                for x in ast.walk(fn):
                    if isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not fn:
                        used |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
                    elif isinstance(x, (ast.Global, ast.Nonlocal)):
                        used |= set(x.names)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("locals", "vars", "eval", "exec"):
                        used |= stored(s)
                r = stored(s) - ue - used - {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
            self.deadnames[s._nid] = r
        return r

    def loop(self, s, st, fr, enter, body, orelse):
        key = (s._nid, fr.ctx)
        base = st.cd
        outer_ghost = st.ghost
        st.ghost = frozenset({E})
        old = self.inv.get(key)
        h = self.join_states(old, st, ("loop",) + key, loop=True) if old is not None else st
        exits, it = None, 0
        info = self.loopinfo.setdefault(key, {"ends": None, "node": s, "ctx": fr.ctx})
        r0 = self.rets
        while True:
            it += 1
            lp = {"breaks": [], "continues": []}
            cur = h.copy()
            cur.ghost = frozenset({E})
            try:
                inn, no, tdeps = enter(cur)
            except Dead:
                inn, no, tdeps = None, None, E
            back = None
            if inn is not None:
                inn.cd = inn.cd | tdeps
                inn.ghost = frozenset({E})
                fr.loops.append(lp)
                e0 = self.escapes
                back = self.block(body, inn, fr)
                fr.loops.pop()
                for c in lp["continues"]:
                    back = self.join_states(back, c, ("cont",) + key)
            info["ends"] = back.ghost if back is not None else E
            info["breakends"] = [b.ghost for b in lp["breaks"]]
            exits = no
            if no is not None and orelse:
                exits = self.block(orelse, no, fr)
            for b in lp["breaks"]:
                exits = self.join_states(exits, b, ("brk",) + key)
            if back is None:
                break
            back.cd = base
            env = back.frames.get(fr.fid)
            if env is not None:
                for n in self.dead(s, fr):
                    env.pop(n, None)
            h2 = self.join_states(h, back, ("loop",) + key, loop=True, wid=it >= 3)
            h2.cd = base
            h2.ghost = h.ghost
            if same(h2, h) or it > 14:
                break
            h = h2
        self.inv[key] = h
        if exits is None:
            return None
        exits.cd = base if self.rets == r0 else exits.cd
        ends = info["ends"]
        if outer_ghost is None or ends is None or exits.ghost is None:
            exits.ghost = None
        else:
            inner = set(ends) | set(exits.ghost) | {E}
            for b in info["breakends"]:
                inner |= set(b or ())
            g = frozenset(o | i for o in outer_ghost for i in inner)
            exits.ghost = g if len(g) <= GHOST_MAX else None
        return exits

    def s_For(self, s, st, fr):
        itv = self.ev(s.iter, st, fr)
        known, elem, ldeps = self.models.iterate(self, st, itv, s, fr)
        if known is not None and len(known) <= 24:
            base, r0 = st.cd, self.rets
            exits, octx = None, fr.ctx
            cur = st
            broke = False
            og = st.ghost
            for i, v in enumerate(known):
                if cur is None:
                    break
                fr.ctx = self.ctx(octx, ("u", s._nid, i))
                lp = {"breaks": [], "continues": []}
                fr.loops.append(lp)
                self.assign_target(s.target, v, cur, fr, s.target)
                cur = self.block(s.body, cur, fr)
                fr.loops.pop()
                for c in lp["continues"]:
                    cur = self.join_states(cur, c, ("cont", s._nid, fr.ctx))
                for b in lp["breaks"]:
                    exits = self.join_states(exits, b, ("brk", s._nid, fr.ctx))
            fr.ctx = octx
            if cur is not None and s.orelse:
                cur = self.block(s.orelse, cur, fr)
            r = self.join_states(cur, exits, ("brk", s._nid, fr.ctx))
            if r is not None and self.rets == r0:
                r.cd = base
            return r
        if elem is None:
            return self.block(s.orelse, st, fr) if s.orelse else st

        def enter(h):
            no = h.copy()
            self.kill_target(s.target, h, fr)
            kn, el, ld = self.models.iterate(self, h, itv, s, fr)
            if el is None:
                for k in kn or ():
                    el = join(el, k).w(term=None)
            if el is None:
                return None, no, E
            el = self.models.fresh_iter(self, h, el, s, fr, itv)
            self.assign_target(s.target, el, h, fr, s.target)
            return h, no, ld
        return self.loop(s, st, fr, enter, s.body, s.orelse)

    s_AsyncFor = s_For

    def kill_target(self, t, st, fr):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.frames[fr.fid].pop(n.id, None)

    def s_With(self, s, st, fr):
        mgrs = []
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            mgrs.append(v)
            if it.optional_vars is not None:
                self.assign_target(it.optional_vars, v, st, fr, it.optional_vars)
        r = self.block(s.body, st, fr)
        for v in mgrs:
            for l in v.refs:
                self.event("withclose", s, fr, l)
                if r is not None and isinstance(r.heap.get(l), Ext) and r.heap[l].kind == "file":
                    r.heap[l] = r.heap[l]._replace(info=r.heap[l].info[:1] + ("closed",))
        return r

    def s_Try(self, s, st, fr):
        sink = []
        entry = st.copy()
        self.raise_sinks.append(sink)
        r = self.block(s.body, st, fr)
        self.raise_sinks.pop()
        hs = None
        for (x, name, nid, ex) in sink:
            hs = self.join_states(hs, x, ("exc", s._nid, fr.ctx))
        # implicit exceptions: anywhere in the body
        hs = self.join_states(hs, entry, ("exc", s._nid, fr.ctx))
        if r is not None:
            hs = self.join_states(hs, r.copy(), ("exc", s._nid, fr.ctx))
        if r is not None and s.orelse:
            r = self.block(s.orelse, r, fr)
        out = r
        caught_all = False
        for h in s.handlers:
            names = []
            if h.type is None:
                caught_all = True
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names = [t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?") for t in ts]
                if "Exception" in names or "BaseException" in names:
                    caught_all = True
            x = hs.copy() if hs is not None else None
            if x is not None:
                if h.name:
                    x.frames[fr.fid][h.name] = unk()
                o = self.block(h.body, x, fr)
                out = self.join_states(out, o, ("try", s._nid, fr.ctx))
        if not caught_all and self.raise_sinks:
            cn = set()
            for h in s.handlers:
                if h.type is not None:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    cn |= {t.id if isinstance(t, ast.Name) else getattr(t, "attr", "?") for t in ts}
            for x in sink:
                if x[1] not in cn:
                    y = x
                    if s.finalbody:
                        z = self.block(s.finalbody, x[0], fr)
                        if z is None:
                            continue
                        y = (z,) + x[1:]
                    self.raise_sinks[-1].append(y)
        if s.finalbody and out is not None:
            out = self.block(s.finalbody, out, fr)
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.curnode = e
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.unknown("expr " + type(e).__name__, e)
            return unk(st.cd)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return cst(e.value)

    def ev_name(self, e, name, st, fr):
        f = fr
        while f is not None:
            env = st.frames.get(f.fid)
            if env is not None and name in env:
                v = env[name]
                return self.narrow(v, st)
            f = f.parent
        mod = fr.module
        if name in mod.functions or name in mod.classes or name in mod.imports:
            return self.module_attr(mod, name, st)
        self.run_module(mod, st)
        g = st.frames.get(("mod", mod.name), {})
        if name in g:
            return g[name]
        b = self.models.builtin(name)
        if b is not None:
            return b
        if self.unbound(e, name, fr):
            self.event("deferr", e, fr, f"name '{name}' has no value here", definite=True)
            self.do_raise(st.copy(), "NameError", e, fr)
            raise Dead()
        self.event("deferr", e, fr, f"name '{name}' may be unbound", definite=False)
        return unk()

    @staticmethod
    def unbound(e, name, fr):
        """Is a name that holds nothing on any path certainly without a value?"""
        f = fr
        while f is not None and not isinstance(f.func, ast.FunctionDef):
            f = f.parent
        if f is None or f.parent is not None or not isinstance(e, ast.Name):
            return False
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("exec", "eval", "locals", "globals", "vars")
               for x in ast.walk(f.func)):
            return False
        at = [x for x in ast.walk(f.func) if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load)]
        if any(isinstance(x, (ast.ExceptHandler, ast.Try, ast.With)) or isinstance(x, ast.alias) and name in (x.name, x.asname, "*") for x in ast.walk(f.func)):
            return False
        loops = set(e._loops)
        return bool(at) and not any(loops & set(x._loops) for x in at)

    def e_Name(self, e, st, fr):
        return self.ev_name(e, e.id, st, fr)

    def e_Attribute(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        if o.refs:
            self.recv[(e._nid, fr.ctx)] = o.term
        return self.getattr(st, o, e.attr, e, fr)

    def getattr(self, st, o, name, node, fr):
        out = None
        dead = 0
        n = 0
        for f in o.fns:
            n += 1
            out = join(out, self.models.fn_attr(self, st, f, name, node, fr))
        for l in sorted(o.refs, key=str):
            n += 1
            h = st.heap.get(l)
            try:
                v = self.ref_attr(st, l, h, name, node, fr, o)
            except Dead:
                dead += 1
                continue
            out = join(out, v)
        for k in o.kinds - {"ref", "fn"}:
            n += 1
            try:
                v = self.models.scalar_attr(self, st, o, k, name, node, fr)
            except Dead:
                dead += 1
                continue
            out = join(out, v)
        if out is None:
            raise Dead()
        if out.kinds & NUMK and out.term is None:
            pass
        return self.narrow(withdeps(out, o.deps), st)

    def attr_error(self, st, what, name, node, fr):
        self.event("deferr", node, fr, f"{what} has no attribute '{name}'", definite=True)
        self.do_raise(st.copy(), "AttributeError", node, fr)
        raise Dead()

    def ref_attr(self, st, l, h, name, node, fr, o):
        if isinstance(h, Obj):
            v = h.get(name)
            if v is not None:
                if h.multi:
                    v = v.w(term=None)
                return v
            m = self.prog.find_method(h.cls, name)
            if m is not None:
                decs = getattr(m, "_decs", [])
                if "property" in decs or "cached_property" in decs:
                    r = self.call_repo(m, [ref(l, term=o.term)], {}, st, node, fr)
                    if "cached_property" in decs:
                        st.heap[l] = st.heap[l].put(name, r)
                    return r
                if "staticmethod" in decs:
                    return AV(KFN, fns=frozenset({("repofn", m._nid, None)}))
                if "classmethod" in decs:
                    return AV(KFN, fns=frozenset({("repofn", m._nid, ("cls", h.cls))}))
                return AV(KFN, refs=E, fns=frozenset({("bound", m._nid, l)}))
            a = self.prog.find_attr(h.cls, name)
            if a is not None:
                return self.class_attr(a[0], name, a[1], st, fr)
            if name in ("__class__",):
                return fnav("cls", h.cls)
            if name == "__dict__":
                ks = self.key("dd", node, fr)
                st.heap[ks] = Dct(tuple((("c", "str", k), v) for k, v in h.fields), None, None, owner=h.owner)
                return ref(ks)
            if name.startswith("__"):
                return unk()
            if "object" in [b for c in self.prog.mro(h.cls) for b in c.bases if b not in self.prog.classes and b != "object"]:
                return unk()
            # field may exist although this state never stored it
            self.attr_error(st, h.cls, name, node, fr)
        return self.models.ref_attr(self, st, l, h, name, node, fr)

    def class_attr(self, ci, name, node, st, fr):
        fid = ("clsattr", ci.name)
        env = st.frames.setdefault(fid, {})
        if name not in env:
            f2 = Frame(fid, None, self.ctx("C", ci.name), ci.module)
            before = set(st.heap)
            env[name] = self.ev(node, st, f2)
            for l in set(st.heap) - before:
                ob = st.heap[l]
                if hasattr(ob, "owner") and ob.owner is None:
                    st.heap[l] = ob._replace(owner="class:" + ci.name)
        return env[name]

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        return self.binop(e.op, a, b, st, e, fr)

    def binop(self, op, a, b, st, node, fr):
        none = a.is_none and "unk" not in b.kinds or b.is_none and "unk" not in a.kinds
        text = type(op) in (ast.Add, ast.Sub) and (a.kinds == KSTR and b.kinds and b.kinds <= NUMK or b.kinds == KSTR and a.kinds and a.kinds <= NUMK)
        if (none and not (a.kinds == KSTR and type(op) is ast.Mod)) or text:
            self.event("deferr", node, fr, "None in arithmetic" if none else "text and numbers cannot be added", definite=True)
            self.do_raise(st.copy(), "TypeError", node, fr)
            raise Dead()
        if a.refs or b.refs:
            r = self.models.binop_ref(self, st, node, fr, op, a, b)
            if r is not None:
                return r
        return scalar_binop(type(op).__name__, a, b, self)

    def e_UnaryOp(self, e, st, fr):
        a = self.ev(e.operand, st, fr)
        op = type(e.op).__name__
        if op == "Not":
            tv = self.truth(a, st)
            if tv is not None:
                return cst(not tv, a.deps)
            t = self.truth_term(a)
            return boolav(a.deps, mkop("not", t))
        if a.refs:
            r = self.models.unary_ref(self, st, e, fr, op, a)
            if r is not None:
                return r
        return scalar_unary(op, a)

    def nz_masks(self, loc, b):
        """Masks whose cells hold nothing but non-zero values in the buffer."""
        if b.multi or b.fields or not b.elem.kinds <= NUMK:
            return b.nz
        t = self.truth_term(b.elem if b.elem.term is not None else b.elem.w(term=mk("elt", loc, b.ver)))
        return b.nz | {t} if t is not None else b.nz

    def truth_term(self, a):
        if a.term is None:
            return None
        n = TT.node[a.term]
        if n[0] in ("not", "and", "or", "lt", "le", "eq", "ne", "isnone", "isnan", "inset", "isa", "truthy"):
            return a.term
        return mkop("truthy", a.term)

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        return self.boolchain(e, list(e.values), isand, st, fr, 0)

    def boolchain(self, e, vals, isand, st, fr, i):
        a = self.ev(vals[0], st, fr)
        if len(vals) == 1:
            return a
        tv = self.truth(a, st)
        if tv is (not isand):
            return a
        if tv is isand:
            return self.boolchain(e, vals[1:], isand, st, fr, i + 1)
        s2 = st.copy()
        self.assume(s2, self.truth_term(a), isand)
        base = st.cd
        s2.cd = base | a.deps
        try:
            b = self.boolchain(e, vals[1:], isand, s2, fr, i + 1)
        except Dead:
            return a
        f0 = st.facts
        j = self.join_states(st, s2, ("bool", e._nid, fr.ctx, i))
        st.become(j)
        st.facts = f0
        st.cd = base
        tb = self.truth(b, s2)
        if tb is (not isand):
            if isand:
                return cst(False, a.deps | b.deps)
            return cst(True, a.deps | b.deps)
        deps = a.deps | b.deps
        if a.kinds <= KBOOL and b.kinds <= KBOOL:
            if tb is isand:
                return boolav(deps, self.truth_term(a))
            return boolav(deps, mkop("and" if isand else "or", self.truth_term(a), self.truth_term(b)))
        r = join(a, b).w(term=None)
        # value of `a or b`: a filtered by truth
        t = mkop("and" if isand else "or", self.truth_term(a), self.truth_term(b))
        if r.kinds <= KBOOL:
            return boolav(deps, t)
        if not isand and a.may_none:
            r = join(a.w(kinds=a.kinds - KNONE, const=None) if a.kinds - KNONE else None, b)
        ta = self.truth_term(a)
        if r.refs or ta is None or a.term is None or b.term is None:
            return withdeps(r.w(term=None), deps)
        return withdeps(r.w(term=mkop("ite", ta, *((b.term, a.term) if isand else (a.term, b.term)))), deps)

    def e_Compare(self, e, st, fr):
        left = self.ev(e.left, st, fr)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st, fr)
            r = self.compare(type(op).__name__, left, right, st, e, fr)
            if res is None:
                res = r
            else:
                t1, t2 = self.truth(res, st), self.truth(r, st)
                if t1 is False or t2 is False:
                    res = cst(False, res.deps | r.deps)
                elif t1 is True:
                    res = r
                elif t2 is True:
                    pass
                else:
                    res = boolav(res.deps | r.deps, mkop("and", res.term, r.term))
            left = right
        return res

    def compare(self, op, a, b, st, node, fr):
        deps = a.deps | b.deps
        if op in ("Is", "IsNot"):
            r = None
            x = a
            if b.is_none or a.is_none:
                x = a if b.is_none else b
                if x.is_none:
                    r = True
                elif not x.may_none and "unk" not in x.kinds:
                    r = False
                t = mkop("isnone", x.term)
            else:
                ca, cb = a.cval(), b.cval()
                if ca[0] and cb[0] and isinstance(cb[1], bool):
                    r = ca[1] is cb[1]
                if a.refs and b.refs and not (a.refs & b.refs):
                    r = False
                t = mkop("eq", a.term, b.term)
            if r is not None:
                return cst(r == (op == "Is"), deps)
            if op == "IsNot":
                t = mkop("not", t)
            return boolav(deps, t)
        if op in ("In", "NotIn"):
            return self.models.contains(self, st, node, fr, a, b, op == "NotIn")
        if (a.refs or b.refs):
            r = self.models.compare_ref(self, st, node, fr, op, a, b)
            if r is not None:
                return r
        return scalar_compare(op, a, b)

    def truth(self, a, st):
        if a.kinds <= NUMK | KSTR | KNONE and a.const is not None:
            if a.const[0] == "p":
                return True if a.lo >= 1 else None
            if a.const[2] == "nan" and a.const[1] == "float":
                return True
            return bool(a.const[2])
        res = set()
        for k in a.kinds:
            if k == "None":
                res.add(False)
            elif k == "fn":
                res.add(True)
            elif k in ("int", "float", "bool"):
                if (a.lo > 0 or a.hi < 0) and not a.nan:
                    res.add(True)
                elif a.lo == 0 == a.hi and not a.nan:
                    res.add(False)
                else:
                    res.add(None)
            elif k == "ref":
                for l in a.refs:
                    o = st.heap.get(l)
                    if isinstance(o, Seq):
                        if o.items:
                            res.add(True)
                        elif o.rest is None:
                            res.add(False if not o.multi else None)
                        else:
                            res.add(None)
                    elif isinstance(o, Dct):
                        if o.known:
                            res.add(True)
                        elif o.key is None:
                            res.add(False if not o.multi else None)
                        else:
                            res.add(None)
                    elif isinstance(o, (Obj, Grid, Ext)):
                        res.add(True)
                    else:
                        res.add(None)
            else:
                res.add(None)
        if len(res) == 1:
            r, = res
            if r is not None:
                return r
        # facts about the term itself
        if a.term is not None:
            if ("t", a.term) in st.facts:
                return True
            if ("f", a.term) in st.facts:
                return False
            n = TT.node[a.term]
            if n[0] in ("lt", "le", "eq", "ne"):
                if (n[0],) + n[1:] in st.facts:
                    return True
                if (NEG[n[0]],) + n[1:] in st.facts:
                    return False
        return None

    def e_IfExp(self, e, st, fr):
        t = self.ev(e.test, st, fr)
        tv = self.truth(t, st)
        if tv is True:
            return self.ev(e.body, st, fr)
        if tv is False:
            return self.ev(e.orelse, st, fr)
        s2 = st.copy()
        base = st.cd
        st.cd = s2.cd = base | t.deps
        self.assume(st, self.truth_term(t), True)
        self.assume(s2, self.truth_term(t), False)
        a = b = None
        try:
            a = self.ev(e.body, st, fr)
        except Dead:
            st.become(s2)
            r = self.ev(e.orelse, st, fr)
            st.cd = base
            return withdeps(r, t.deps)
        try:
            b = self.ev(e.orelse, s2, fr)
        except Dead:
            st.cd = base
            return withdeps(a, t.deps)
        j = self.join_states(st, s2, (e._nid, fr.ctx))
        st.become(j)
        st.cd = base
        r = join(a, b).w(term=None)
        tt = self.truth_term(t)
        r = r.w(term=mkop("ite", tt, a.term, b.term) if tt is not None and a.term != b.term else (a.term if a.term == b.term else None))
        return withdeps(r, t.deps)

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign_target(e.target, v, st, fr, e.target)
        return v

    def e_JoinedStr(self, e, st, fr):
        deps = E
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                deps |= self.ev(v.value, st, fr).deps
        return strav(deps)

    def e_Lambda(self, e, st, fr):
        self.closures = getattr(self, "closures", {})
        self.closures[(fr.fid, e._nid)] = fr
        return AV(KFN, fns=frozenset({("lam", fr.fid, e._nid)}), term=mk("fn", e._nid, fr.ctx))

    def seq_display(self, e, st, fr, kind):
        items, rest, unknown_len, src = [], None, False, E
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, fr)
                src = src | v.refs if not unknown_len else E
                known, elem, ld = self.models.iterate(self, st, v, x, fr)
                if known is not None and not unknown_len:
                    items += known
                else:
                    unknown_len = True
                    for k in known or ():
                        rest = join(rest, k).w(term=None)
                    if elem is not None:
                        rest = join(rest, elem).w(term=None)
            else:
                v = self.ev(x, st, fr)
                if unknown_len:
                    rest = join(rest, v).w(term=None)
                else:
                    items.append(v)
        if kind == "list" and rest is None and len(items) > 1:
            key = self.key("q", e, fr)
            if key in st.heap and key in self.reachable(st):
                items = self.retire(st, key, items)
        return self.carry(st, self.new_seq(st, e, fr, kind, items, rest), src if x_last_star(e) else E)

    def e_List(self, e, st, fr):
        return self.seq_display(e, st, fr, "list")

    def retire(self, st, key, items):
        """Make room for a newer instance of a list written out in the program:
        the previous one joins the summary of all older ones."""
        old = key + ("old",)

        def av(v):
            if key not in v.refs and not any(f[0] in ("bound", "m") and len(f) > 2 and f[2] == key for f in v.fns):
                return v
            refs = frozenset(old if l == key else l for l in v.refs)
            fns = frozenset(tuple(old if i == 2 and x == key and f[0] in ("bound", "m") else x for i, x in enumerate(f)) for f in v.fns)
            return v.w(refs=refs, fns=fns)
        obj = st.heap.pop(key)
        a, b = self.elts.get(key), self.elts.get(old, {})
        self.elts[old] = {**b, **a} if a is not None and b is not None else None
        if old in st.heap:
            obj = self.join_obj(st.heap[old], obj, ("alloc", old), old, False)
        st.heap[old] = obj._replace(multi=True)
        for l, o in list(st.heap.items()):
            if key in children(o):
                st.heap[l] = map_avs(o, av)
        for env in st.frames.values():
            for n, v in env.items():
                if v.refs or v.fns:
                    w = av(v)
                    if w is not v:
                        env[n] = w
        return [av(v) for v in items]

    def e_Tuple(self, e, st, fr):
        return self.seq_display(e, st, fr, "tuple")

    def e_Set(self, e, st, fr):
        return self.seq_display(e, st, fr, "set")

    def e_Dict(self, e, st, fr):
        known, key, val = {}, None, None
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v, st, fr)
            if k is None:
                d = self.models.dict_of(st, vv)
                if d is not None:
                    for kk, x in d.known:
                        known[kk] = x
                    if d.key is not None:
                        key, val = join(key, d.key).w(term=None), join(val, d.val).w(term=None)
                else:
                    key, val = unk(), join(val, unk())
                continue
            kk = self.ev(k, st, fr)
            if kk.const is not None and kk.const[0] == "c":
                known[kk.const] = vv
            else:
                key, val = join(key, kk).w(term=None), join(val, vv).w(term=None)
        loc = self.alloc(st, self.key("d", e, fr), Dct(tuple(known.items()), key, val, E, None, mk("w", e._nid, fr.ctx)))
        self.dputs[loc] = {("k", e._nid, i): ("set", E, mk("c", *k[1:]), v.term) for i, (k, v) in enumerate(known.items())} if key is None else None
        return ref(loc, st.cd, term=mk("loc", loc))

    def comp(self, e, st, fr, kind):
        """Comprehension: elements joined over the iteration space."""
        saved = dict(st.frames[fr.fid])
        base = st.cd
        res = {"items": [], "rest": None, "key": None, "exact": True, "ldeps": E}

        def go(gens, s, exact):
            if not gens:
                if kind == "dict":
                    k = self.ev(e.key, s, fr)
                    v = self.ev(e.value, s, fr)
                    k, v = withdeps(k, s.cd), withdeps(v, s.cd)
                    res["key"] = join(res["key"], k).w(term=None)
                    res["rest"] = join(res["rest"], v).w(term=None)
                    res.setdefault("kv", []).append((k, v))
                    res.setdefault("puts", {})[("set", e._nid, fr.ctx)] = ("set", s.facts, k.term, v.term)
                    if not exact:
                        res["exact"] = False
                else:
                    v = self.ev(e.elt, s, fr)
                    v = withdeps(v, s.cd)
                    if exact and res["exact"]:
                        res["items"].append(v)
                    else:
                        res["exact"] = False
                        res["rest"] = join(res["rest"], self.models.guardtags(s.facts, v)).w(term=None)
                        res.setdefault("alts", {})[("c", e._nid, fr.ctx)] = (s.facts, v)
                        res["made"] = (v.term, s.facts) if "made" not in res or res["made"][0] == v.term else (None, E)
                return s
            g = gens[0]
            itv = self.ev(g.iter, s, fr)
            known, elem, ld = self.models.iterate(self, s, itv, g, fr)
            res["ldeps"] |= ld
            if known is not None and len(known) <= 24:
                cur = s
                octx = fr.ctx
                for i, v in enumerate(known):
                    fr.ctx = self.ctx(octx, ("u", g._nid, i))
                    self.assign_target(g.target, v, cur, fr, g.target)
                    cur = filt(g, gens, cur, exact)
                fr.ctx = octx
                return cur
            for k in known or ():
                elem = join(elem, k).w(term=None)
            if elem is None:
                return s
            s2 = s.copy()
            s2.cd = s2.cd | ld
            el = self.models.fresh_iter(self, s2, elem, g, fr, itv)
            self.assign_target(g.target, el, s2, fr, g.target)
            s2 = filt(g, gens, s2, False)
            f0 = s.facts
            j = self.join_states(s, s2, ("comp", e._nid, fr.ctx))
            j.facts = f0
            j.cd = s.cd
            return j

        def filt(g, gens, s, exact):
            cur = s
            for c in g.ifs:
                t = self.ev(c, cur, fr)
                tv = self.truth(t, cur)
                if tv is False:
                    return cur
                if tv is None:
                    exact = False
                    res["ldeps"] |= t.deps
                    cur = cur.copy()
                    cur.cd = cur.cd | t.deps
                    self.assume(cur, self.truth_term(t), True)
            r = go(gens[1:], cur, exact)
            if cur is not s:
                f0, cd0 = s.facts, s.cd
                r = self.join_states(s, r, ("compf", e._nid, fr.ctx, len(gens)))
                r.facts, r.cd = f0, cd0
            return r
        r = go(list(e.generators), st, True)
        env = r.frames[fr.fid]
        for n in list(env):
            if n not in saved:
                del env[n]
        tn = {x.id for g in e.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        for n in tn:
            if n in saved:
                env[n] = saved[n]
            else:
                env.pop(n, None)
        st.become(r)
        st.cd = base
        if kind == "dict":
            known = ()
            if res["exact"] and res.get("kv") and all(k.const is not None and k.const[0] == "c" for k, _ in res["kv"]):
                known = tuple({k.const: v for k, v in res["kv"]}.items())
                loc = self.alloc(st, self.key("d", e, fr), Dct(known, None, None, res["ldeps"], None, mk("w", e._nid, fr.ctx)))
            else:
                loc = self.alloc(st, self.key("d", e, fr), Dct((), res["key"], res["rest"], res["ldeps"], None, mk("w", e._nid, fr.ctx)))
            self.dputs[loc] = dict(res["puts"]) if "puts" in res else {}
            return ref(loc, st.cd, term=mk("loc", loc))
        items, rest = res["items"], res["rest"]
        if not res["exact"]:
            for x in items:
                rest = join(rest, x).w(term=None)
            items = []
        lp = None
        if len(e.generators) == 1 and not e.generators[0].ifs and not items:
            lp = self.models.length_poly(self, st, e.generators[0], fr)
        r = self.new_seq(st, e, fr, kind, items, rest, ldeps=res["ldeps"], lenpoly=lp)
        l, = r.refs
        self.compinfo.pop(l, None)
        if not items and kind == "list" and len(res.get("alts", ())) == 1:
            (f, v), = res["alts"].values()
            self.seqof[l] = (st.heap[l].ver, "comp", v, tuple(a for a in f if a not in st.facts), tuple(mk("it", g._nid, fr.ctx) for g in e.generators))
        if not items and rest is not None and kind != "set" and res.get("alts"):
            self.elts[l] = dict(res["alts"])
        if not items and "made" in res and res["made"][0] is not None:
            t, f = res["made"]
            new = tuple(a for a in f - st.facts if a[0] in ("lt", "le", "nlt", "nle", "eq", "ne", "nan", "nn", "t", "f", "nin", "in"))
            self.compinfo[l] = (st.heap[l].ver, t, new)
        return r

    def e_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, "set")

    def e_GeneratorExp(self, e, st, fr):
        return self.comp(e, st, fr, "list")

    def e_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, "dict")

    def e_Yield(self, e, st, fr):
        v = self.ev(e.value, st, fr) if e.value is not None else c_none()
        fr.yields.append(withdeps(v, st.cd))
        return unk()

    def e_YieldFrom(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        known, elem, ld = self.models.iterate(self, st, v, e, fr)
        for k in known or ():
            fr.yields.append(withdeps(k, st.cd))
        if elem is not None:
            fr.yields.append(withdeps(elem, st.cd))
        return unk()

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        parts = [self.ev(x, st, fr) if x is not None else c_none() for x in (e.lower, e.upper, e.step)]
        return ("slice",) + tuple(parts)

    def ev_index(self, e, st, fr):
        """Subscript expression as a list of per-axis entries."""
        if isinstance(e, ast.Tuple):
            return [self.ev(x, st, fr) if not isinstance(x, ast.Slice) else self.e_Slice(x, st, fr) for x in e.elts]
        if isinstance(e, ast.Slice):
            return [self.e_Slice(e, st, fr)]
        v = self.ev(e, st, fr)
        return [v]

    def e_Subscript(self, e, st, fr):
        o = self.ev(e.value, st, fr)
        i = self.ev_index(e.slice, st, fr)
        r = self.models.getitem(self, st, e, fr, o, i)
        return self.narrow(r, st)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, st, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            slf = st.frames[fr.fid].get(next(iter([a.arg for a in fr.func.args.args]), "self")) if fr.func is not None else None
            if e.args:
                slf = self.ev(e.args[1], st, fr)
            return AV(KFN, fns=frozenset({("super", fr.cls.name if fr.cls else "", next(iter(slf.refs)) if slf and slf.refs else None)}))
        f = self.ev(e.func, st, fr)
        args, kwargs, star = [], {}, None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                known, elem, ld = self.models.iterate(self, st, v, a, fr)
                if known is not None and star is None:
                    args += known
                else:
                    for k in known or ():
                        star = join(star, k).w(term=None)
                    star = join(star, elem if elem is not None else unk())
            else:
                v = self.ev(a, st, fr)
                if star is not None:
                    star = join(star, v).w(term=None)
                else:
                    args.append(v)
        kwstar = None
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                d = self.models.dict_of(st, v)
                if d is not None and d.key is None:
                    for kk, x in d.known:
                        kwargs[kk[2]] = x
                else:
                    kwstar = (d.val if d is not None and d.val is not None else unk(v.deps))
                    if d is not None:
                        for kk, x in d.known:
                            kwargs[kk[2]] = x
            else:
                kwargs[k.arg] = v
        return self.call(f, args, kwargs, st, e, fr, star, kwstar)

    def call(self, f, args, kwargs, st, node, fr, star=None, kwstar=None):
        outs = []
        fns = sorted(f.fns, key=str)
        if len(fns) > 1:
            base = st.copy()
            res, acc = None, None
            for i, fn in enumerate(fns):
                s2 = base.copy()
                try:
                    v = self.call1(fn, args, kwargs, s2, node, fr, star, kwstar, f)
                except Dead:
                    continue
                res = join(res, v).w(term=None) if res is not None else v
                acc = self.join_states(acc, s2, ("call", node._nid, fr.ctx))
            if acc is None:
                raise Dead()
            st.become(acc)
            return withdeps(res, f.deps)
        if fns:
            return withdeps(self.call1(fns[0], args, kwargs, st, node, fr, star, kwstar, f), f.deps)
        # unknown callee
        for l in f.refs:
            o = st.heap.get(l)
            if isinstance(o, Obj):
                m = self.prog.find_method(o.cls, "__call__")
                if m is not None:
                    return self.call_repo(m, [ref(l)] + args, kwargs, st, node, fr, star, kwstar)
        self.unknown("call", node)
        deps = f.deps
        for a in list(args) + list(kwargs.values()):
            deps |= self.deepdeps(st, a)
        return unk(deps)

    def call1(self, fn, args, kwargs, st, node, fr, star, kwstar, f):
        k = fn[0]
        if k == "repo":
            mod = self.prog.modules[fn[1]]
            return self.call_repo(mod.functions[fn[2]], args, kwargs, st, node, fr, star, kwstar)
        if k == "repofn":
            m = self.prog.nodes[fn[1]]
            if fn[2] is not None:
                args = [fnav(*fn[2])] + list(args)
            return self.call_repo(m, args, kwargs, st, node, fr, star, kwstar)
        if k == "bound":
            return self.call_repo(self.prog.nodes[fn[1]], [ref(fn[2], term=mk("loc", fn[2]))] + list(args), kwargs, st, node, fr, star, kwstar)
        if k == "cls":
            return self.instantiate(fn[1], args, kwargs, st, node, fr, star, kwstar)
        if k == "lam":
            n = self.prog.nodes[fn[2]]
            parent = self.closures.get((fn[1], fn[2]))
            if isinstance(n, ast.Lambda):
                return self.call_lambda(n, parent, args, kwargs, st, node, fr, star)
            return self.call_repo(n, args, kwargs, st, node, fr, star, kwstar, parent=parent)
        return self.models.call_ext(self, st, node, fr, fn, args, kwargs, star, kwstar)

    def call_lambda(self, n, parent, args, kwargs, st, node, fr, star):
        ctx = self.ctx(fr.ctx, (node._nid, n._nid))
        f2 = Frame(("f", ctx), n, ctx, parent.module if parent else fr.module, parent.cls if parent else None, parent)
        env = {}
        st.frames[f2.fid] = env
        for i, a in enumerate(n.args.args):
            if i < len(args):
                env[a.arg] = args[i]
            elif a.arg in kwargs:
                env[a.arg] = kwargs[a.arg]
            else:
                j = i - (len(n.args.args) - len(n.args.defaults))
                env[a.arg] = self.ev(n.args.defaults[j], st, parent or fr) if 0 <= j < len(n.args.defaults) else unk()
        try:
            return self.ev(n.body, st, f2)
        finally:
            st.frames.pop(f2.fid, None)

    def instantiate(self, cls, args, kwargs, st, node, fr, star, kwstar):
        loc = self.alloc(st, self.key("o:" + cls, node, fr), Obj(cls))
        slf = ref(loc, term=mk("loc", loc))
        init = self.prog.find_method(cls, "__init__")
        if init is not None:
            self.call_repo(init, [slf] + list(args), kwargs, st, node, fr, star, kwstar)
        return slf

    def call_repo(self, fn, args, kwargs, st, node, fr, star=None, kwstar=None, parent=None):
        if self.active.count(fn) >= 3:
            # a call that unwinds by its argument types has ended by now
            i = self.active.index(fn)
            cyc = [f.name for f in self.active[i:]] + [fn.name]
            self.event("recursion", node, fr, getattr(fn, "_qual", fn.name), cycle=cyc, fn=fn)
            deps = E
            for a in list(args) + list(kwargs.values()):
                deps |= self.deepdeps(st, a)
            return unk(deps)
        ctx = self.ctx(fr.ctx if fr is not None else 0, node._nid if node is not None else "S")
        fid = ("f", ctx, fn._nid)
        module = getattr(fn, "_module", None) or (parent.module if parent else fr.module)
        f2 = Frame(fid, fn, ctx, module, getattr(fn, "_cls", None) or (parent.cls if parent else None), parent)
        env = self.bind(fn, args, kwargs, st, node, f2, star, kwstar)
        self.visited_funcs.add(fn._nid)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(fn)):
            f2.yields = []
        cd0, g0 = st.cd, st.ghost
        work = State()
        work.frames = {k: dict(v) for k, v in st.frames.items()}
        work.frames[fid] = env
        work.heap, work.facts, work.cd, work.ghost = dict(st.heap), st.facts, st.cd, st.ghost
        self.active.append(fn)
        esc0, rets0 = self.escapes, self.rets
        try:
            end = self.block(fn.body, work, f2)
        finally:
            self.active.pop()
            self.escapes, self.rets = esc0, rets0
        if end is not None:
            f2.returns.append((end, withdeps(c_none(), end.cd), fn))
        if not f2.returns:
            raise Dead()
        res, acc = None, None
        for (s, v, n) in f2.returns:
            if res is None:
                res = v
            else:
                res = join(res, v)
                if res.term is None:
                    res = res.w(term=mk("phi", ("ret", fn._nid, ctx), "ret"))
            acc = self.join_states(acc, s, ("ret", fn._nid, ctx))
        if res.term is not None and res.term is mk("phi", ("ret", fn._nid, ctx), "ret"):
            self.phidef[res.term] = ("alts", tuple((s.facts - st.facts, v.term) for s, v, _ in f2.returns))
        rdeps = acc.cd - cd0
        acc.frames.pop(fid, None)
        for k in [k for k in acc.frames if isinstance(k, tuple) and k[0] == "f" and k not in st.frames]:
            acc.frames.pop(k, None)
        st.become(acc)
        st.cd = cd0
        if f2.yields is not None:
            rest = None
            for y in f2.yields:
                rest = join(rest, y).w(term=None)
            loc = self.alloc(st, ("y", fn._nid, ctx), Seq("list", (), rest))
            return ref(loc, rdeps)
        return self.narrow(res, st)

    def bind(self, fn, args, kwargs, st, node, f2, star, kwstar):
        a = fn.args
        params = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kwargs = dict(kwargs)
        for i, p in enumerate(params):
            if i < len(args):
                env[p] = args[i]
            elif p in kwargs:
                env[p] = kwargs.pop(p)
            else:
                j = i - (len(params) - len(a.defaults))
                d = None
                if j >= 0:
                    d = self.default(fn, a.defaults[j], st)
                if star is not None:
                    d = join(d, star).w(term=None)
                if kwstar is not None:
                    d = join(d, kwstar).w(term=None)
                if d is None:
                    self.event("deferr", node, f2, f"missing argument '{p}' for {fn.name}()", definite=True)
                    self.do_raise(st.copy(), "TypeError", node or fn, f2)
                    raise Dead()
                env[p] = d
        extra = args[len(params):]
        if a.vararg:
            loc = self.alloc(st, ("va", fn._nid, f2.ctx), Seq("tuple", tuple(extra), star))
            env[a.vararg.arg] = ref(loc)
        elif extra:
            self.event("deferr", node, f2, f"too many arguments for {fn.name}()", definite=True)
            self.do_raise(st.copy(), "TypeError", node or fn, f2)
            raise Dead()
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg in kwargs:
                env[p.arg] = kwargs.pop(p.arg)
            elif d is not None:
                env[p.arg] = self.default(fn, d, st)
            else:
                env[p.arg] = kwstar if kwstar is not None else unk()
        if a.kwarg:
            loc = self.alloc(st, ("kw", fn._nid, f2.ctx),
                             Dct(tuple((("c", "str", k), v) for k, v in kwargs.items()),
                                 strav() if kwstar is not None else None, kwstar))
            env[a.kwarg.arg] = ref(loc)
        elif kwargs:
            self.event("deferr", node, f2, f"unexpected keyword {sorted(kwargs)} for {fn.name}()", definite=True)
            self.do_raise(st.copy(), "TypeError", node or fn, f2)
            raise Dead()
        for k, v in env.items():
            if v.term is None:
                env[k] = v.w(term=mk("par", fn._nid, f2.ctx, k))
        return env

    def default(self, fn, d, st):
        fid = ("def", fn._nid)
        env = st.frames.setdefault(fid, {})
        if d._nid not in env:
            mod = getattr(fn, "_module", None)
            if mod is None:
                return self.ev(d, st, Frame(fid, None, self.ctx("D", d._nid), next(iter(self.prog.modules.values()))))
            f2 = Frame(fid, None, self.ctx("D", d._nid), mod)
            before = set(st.heap)
            env[d._nid] = self.ev(d, st, f2)
            for l in set(st.heap) - before:
                o = st.heap[l]
                if hasattr(o, "owner") and o.owner is None:
                    st.heap[l] = o._replace(owner="default:" + fn.name)
        return env[d._nid]

    # ------------------------------------------------------------ queries
    def deepdeps(self, st, v, seen=None):
        """Labels a value depends on, through everything it refers to."""
        deps = set(v.deps)
        seen = set() if seen is None else seen
        todo = list(v.refs)
        for f in v.fns:
            if f[0] == "bound":
                todo.append(f[2])
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            o = st.heap.get(l)
            for x in avs_of(o):
                deps |= x.deps
                todo.extend(x.refs)
            if isinstance(o, Arr):
                todo.extend(bufs_of(o))
                deps |= o.ldeps
            elif isinstance(o, Buf) and o.fields:
                todo.extend(b for _, b in o.fields)
            elif isinstance(o, (Seq, Dct)):
                deps |= o.ldeps
        return frozenset(deps)


# ---------------------------------------------------------------- helpers
def walk_own(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def cst_key(k):
    return AV({"int": KINT, "str": KSTR, "bool": KBOOL, "None": KNONE, "float": KFLOAT}.get(k[1], KUNK), k,
              float(k[2]) if k[1] in ("int", "float", "bool") and k[2] != "nan" else -INF,
              float(k[2]) if k[1] in ("int", "float", "bool") and k[2] != "nan" else INF)


def bufs_of(a):
    if isinstance(a.buf, tuple) and a.buf and a.buf[0] == "U":
        return list(a.buf[1:])
    return [a.buf]


def avs_of(o):
    if isinstance(o, Buf):
        return [o.elem]
    if isinstance(o, Seq):
        return list(o.items) + ([o.rest] if o.rest is not None else [])
    if isinstance(o, Dct):
        r = [v for _, v in o.known]
        if o.key is not None:
            r += [o.key, o.val]
        return r
    if isinstance(o, (Obj, Grid)):
        return [v for _, v in o.fields]
    if isinstance(o, Arr):
        return list(o.cols or ())
    if isinstance(o, Ext):
        i = o.info
        if isinstance(i, AV):
            return [i]
        if isinstance(i, tuple):
            return [x for x in i if isinstance(x, AV)]
    return []


def children(o):
    out = []
    for v in avs_of(o):
        out.extend(v.refs)
        for f in v.fns:
            if f[0] == "bound":
                out.append(f[2])
            elif f[0] == "m" and len(f) > 2 and f[2] is not None:
                out.append(f[2])
    if isinstance(o, Arr):
        out.extend(bufs_of(o))
    elif isinstance(o, Buf) and o.fields:
        out.extend(b for _, b in o.fields)
    elif isinstance(o, Ext) and o.kind == "rec":
        out.append(o.info[0])
    return out


def map_avs(o, f):
    """The object with f applied to every value it holds."""
    if isinstance(o, Arr):
        return o._replace(cols=tuple(f(x) for x in o.cols)) if o.cols is not None else o
    if isinstance(o, Buf):
        return o._replace(elem=f(o.elem))
    if isinstance(o, Seq):
        return o._replace(items=tuple(f(x) for x in o.items), rest=f(o.rest) if o.rest is not None else None)
    if isinstance(o, Dct):
        return o._replace(known=tuple((k, f(x)) for k, x in o.known), key=f(o.key) if o.key is not None else None,
                          val=f(o.val) if o.val is not None else None)
    if isinstance(o, (Obj, Grid)):
        return o._replace(fields=tuple((k, f(x)) for k, x in o.fields))
    if isinstance(o, Ext):
        if isinstance(o.info, AV):
            return o._replace(info=f(o.info))
        return o._replace(info=tuple(f(x) if isinstance(x, AV) else x for x in o.info)) if isinstance(o.info, tuple) else o
    return o


def same(a, b):
    return a.heap == b.heap and a.frames == b.frames and a.facts == b.facts and a.cd == b.cd


def iv_op(op, cs):
    def mulb(x, y):
        if x == 0 or y == 0:
            return 0.0
        return x * y
    if op == "+":
        return cs[0][0] + cs[1][0], cs[0][1] + cs[1][1]
    if op == "-":
        l, h = cs[0][0] - cs[1][1], cs[0][1] - cs[1][0]
        return (-INF if l != l else l), (INF if h != h else h)
    if op == "*":
        ps = [mulb(x, y) for x in cs[0] for y in cs[1]]
        return min(ps), max(ps)
    if op == "neg":
        return -cs[0][1], -cs[0][0]
    if op == "abs":
        l, h = cs[0]
        if l >= 0:
            return l, h
        if h <= 0:
            return -h, -l
        return 0.0, max(-l, h)
    if op == "max":
        return max(c[0] for c in cs), max(c[1] for c in cs)
    if op == "min":
        return min(c[0] for c in cs), min(c[1] for c in cs)
    return -INF, INF


def fixnan(lo, hi):
    if lo != lo:
        lo = -INF
    if hi != hi:
        hi = INF
    return lo, hi


OPS = {"Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
       "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow,
       "BitAnd": operator.and_, "BitOr": operator.or_, "BitXor": operator.xor,
       "LShift": operator.lshift, "RShift": operator.rshift}


def scalar_binop(op, a, b, I=None):
    deps = a.deps | b.deps
    ca, cb = a.cval(), b.cval()
    if ca[0] and cb[0] and op in OPS and a.const[1] != "None" and b.const[1] != "None" and "nan" not in (ca[1], cb[1]):
        try:
            v = OPS[op](ca[1], cb[1])
            if isinstance(v, (int, float, str, bool)) and not (isinstance(v, str) and len(v) > 200):
                return cst(v, deps)
        except Exception:
            pass
    pa, pb = a.poly(), b.poly()
    if pa is not None and pb is not None and a.kinds <= NUMK and b.kinds <= NUMK and a.kinds != KFLOAT and b.kinds != KFLOAT:
        if op == "Add":
            return polyav(poly_add(pa, pb), deps)
        if op == "Sub":
            return polyav(poly_add(pa, pb, -1), deps)
        if op == "Mult":
            return polyav(poly_mul(pa, pb), deps)
    if (a.kinds == KSTR or b.kinds == KSTR) and op in ("Add", "Mod", "Mult"):
        return strav(deps)
    isn = lambda x: x.kinds and x.kinds <= NUMK
    if not isn(a) or not isn(b):
        if "unk" in a.kinds or "unk" in b.kinds:
            return unk(deps)
        if not (a.kinds & NUMK) or not (b.kinds & NUMK):
            return unk(deps)
    if a.kinds == KBOOL and b.kinds == KBOOL and op in ("BitAnd", "BitOr", "BitXor"):
        x = {"BitAnd": "and", "BitOr": "or"}.get(op)
        if op == "BitAnd" and (a.lo > 0 or b.lo > 0):
            return (b if a.lo > 0 else a).w(deps=deps)
        if op == "BitOr" and (a.hi == 0 or b.hi == 0):
            return (b if a.hi == 0 else a).w(deps=deps)
        if op == "BitAnd" and (a.hi == 0 or b.hi == 0):
            return cst(False, deps)
        if op == "BitOr" and (a.lo > 0 or b.lo > 0):
            return cst(True, deps)
        return boolav(deps, mkop(x, a.term, b.term) if x else None)
    kind = "float" if ("float" in a.kinds or "float" in b.kinds or op == "Div") else "int"
    kinds = frozenset({kind})
    if kind == "float" and op != "Div" and ("int" in a.kinds and "int" in b.kinds):
        kinds = KNUM
    nan = a.nan or b.nan
    lo, hi = -INF, INF
    term = None
    A, B = (a.lo, a.hi), (b.lo, b.hi)
    marks = E
    if op in ("Add", "Sub"):
        s = "+" if op == "Add" else "-"
        lo, hi = iv_op(s, [A, B])
        lo, hi = fixnan(lo, hi)
        if (abs(A[0]) == INF or abs(A[1]) == INF) and (abs(B[0]) == INF or abs(B[1]) == INF):
            pass
        # marker constants shift with the value
        if a.marks and b.const is not None and cb[0]:
            d = cb[1] if op == "Add" else -cb[1]
            marks = frozenset((m[0], m[1] + d if m[1] is not None else None) + m[2:] for m in a.marks)
        elif b.marks and a.const is not None and ca[0] and op == "Add":
            marks = frozenset((m[0], m[1] + ca[1] if m[1] is not None else None) + m[2:] for m in b.marks)
        term = mkop(s, a.term, b.term)
        tags = E
        if a.tags and cb[0] and isinstance(cb[1], int):
            tags = shift_tags(a.tags, cb[1] if op == "Add" else -cb[1])
        elif b.tags and ca[0] and isinstance(ca[1], int) and op == "Add":
            tags = shift_tags(b.tags, ca[1])
        if not marks:
            tags = nonn(tags)
        return AV(kinds, None, lo, hi, nan, marks, deps, E, E, term, tags)
    elif op == "Mult":
        lo, hi = iv_op("*", [A, B])
        lo, hi = fixnan(lo, hi)
        term = mkop("*", a.term, b.term)
        if a.term is not None and a.term == b.term:
            lo = max(lo, 0.0)
    elif op == "Div":
        if b.lo > 0 or b.hi < 0:
            vals = []
            for x in A:
                for y in B:
                    if abs(y) == INF:
                        vals.append(0.0)
                    else:
                        vals.append(x / y)
            lo, hi = fixnan(min(vals), max(vals))
        else:
            nan = True
            if a.lo >= 0 and b.lo >= 0:
                lo = 0.0
        term = mkop("/", a.term, b.term)
    elif op == "Mod":
        if b.lo > 0:
            lo, hi = 0.0, b.hi if kind == "float" else (b.hi - 1 if b.hi != INF else INF)
            if a.lo >= 0:
                hi = min(hi, a.hi)
        if b.lo <= 0:
            nan = nan or kind == "float"
        term = mkop("%", a.term, b.term)
    elif op == "Pow":
        if cb[0] and isinstance(cb[1], (int, float)) and cb[1] != "nan":
            if cb[1] == 2:
                lo, hi = iv_op("abs", [A])
                lo, hi = lo * lo, hi * hi
            elif cb[1] == 0.5:
                lo, hi = 0.0, (hi if b.hi == INF else INF)
                nan = nan or a.lo < 0
            elif a.lo >= 0:
                lo = 0.0
        term = mkop("**", a.term, b.term)
    elif op == "FloorDiv":
        if a.lo >= 0 and b.lo >= 0:
            lo, hi = 0.0, a.hi if b.lo >= 1 else INF
        term = mkop("//", a.term, b.term)
    else:
        term = mkop(op, a.term, b.term)
    return AV(kinds, None, lo, hi, nan, marks, deps, E, E, term)


def scalar_unary(op, a):
    c = a.cval()
    if c[0] and isinstance(c[1], (int, float, bool)) and c[1] != "nan":
        try:
            return cst({"USub": operator.neg, "UAdd": operator.pos, "Invert": operator.invert}[op](c[1]), a.deps)
        except Exception:
            pass
    if op == "UAdd":
        return a
    if op == "Invert" and a.kinds == KBOOL:
        if a.lo > 0:
            return cst(False, a.deps)
        if a.hi == 0:
            return cst(True, a.deps)
        return boolav(a.deps, mkop("not", a.term))
    if op == "USub" and a.kinds & NUMK:
        p = a.poly()
        if p is not None and a.kinds == KINT:
            return polyav(poly_mul(p, poly_const(-1)), a.deps)
        k = a.kinds if a.kinds != KBOOL else KINT
        return AV(k, None, -a.hi, -a.lo, a.nan, E, a.deps, E, E, mkop("neg", a.term))
    return unk(a.deps)


def scalar_compare(op, a, b):
    deps = a.deps | b.deps
    ca, cb = a.cval(), b.cval()
    if ca[0] and cb[0]:
        x, y = ca[1], cb[1]
        if a.const[1] == "float" and x == "nan" or b.const[1] == "float" and y == "nan":
            return cst(op == "NotEq", deps)
        try:
            r = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le,
                 "Gt": operator.gt, "GtE": operator.ge}[op](x, y)
            return cst(bool(r), deps)
        except TypeError:
            return boolav(deps)
    if op in ("Eq", "NotEq"):
        # values of unrelated kinds never compare equal
        if a.kinds and b.kinds and "unk" not in a.kinds | b.kinds:
            grp = lambda ks: {("n" if k in NUMK else k) for k in ks}
            if not (grp(a.kinds) & grp(b.kinds)) and "ref" not in a.kinds | b.kinds:
                return cst(op == "NotEq", deps)
    pa, pb = a.poly(), b.poly()
    if pa is not None and pb is not None:
        d = poly_add(pa, pb, -1)
        r = None
        n = poly_int(d)
        if n is not None:
            r = {"Eq": n == 0, "NotEq": n != 0, "Lt": n < 0, "LtE": n <= 0, "Gt": n > 0, "GtE": n >= 0}[op]
        if r is not None:
            return cst(r, deps)
    num_ok = a.kinds and b.kinds and a.kinds <= NUMK and b.kinds <= NUMK
    if num_ok:
        nan = a.nan or b.nan
        r = None
        if op in ("Lt", "GtE"):
            if a.hi < b.lo:
                r = op == "Lt"
            elif a.lo >= b.hi:
                r = op == "GtE"
        elif op in ("Gt", "LtE"):
            if a.lo > b.hi:
                r = op == "Gt"
            elif a.hi <= b.lo:
                r = op == "LtE"
        elif op in ("Eq", "NotEq"):
            if a.hi < b.lo or b.hi < a.lo:
                r = op == "NotEq"
                if nan and op == "NotEq":
                    nan = False
            elif a.lo == a.hi == b.lo == b.hi and not nan:
                r = op == "Eq"
        if r is not None and (not nan or r is False):
            return cst(r, deps)
        if a.term is not None and a.term == b.term and not nan:
            return cst(op in ("Eq", "LtE", "GtE"), deps)
    t = None
    if a.term is not None and b.term is not None:
        if op == "Lt":
            t = mkop("lt", a.term, b.term)
        elif op == "Gt":
            t = mkop("lt", b.term, a.term)
        elif op == "LtE":
            t = mkop("le", a.term, b.term)
        elif op == "GtE":
            t = mkop("le", b.term, a.term)
        elif op == "Eq":
            t = mkop("eq", a.term, b.term)
        else:
            t = mkop("ne", a.term, b.term)
    return boolav(deps, t)
