"""Models of everything the package calls that is not the package itself:
builtins, numpy, collections, heapq, copy, pickle and the flopy grid classes.

A model gives the abstract result, what it shares memory with, what it writes
and which errors it certainly raises.  A call without a model returns an
unknown value carrying all input labels and is counted as unmodelled.
"""
import math
from .av import *
from .av import E, TT, T, jtags, subst
from .interp import Dead, State, bufs_of, avs_of, children, scalar_binop, scalar_unary, scalar_compare, KNONE, mkop

PYNAMES = set("""len range enumerate zip list tuple set frozenset dict sorted reversed min max sum abs int float str bool
isinstance issubclass print any all map filter iter next round hasattr getattr setattr type open id hash repr format divmod
pow slice object callable vars dir bytes bytearray complex ord chr hex bin delattr input globals locals __import__ memoryview
staticmethod classmethod property super issubclass""".split())
EXCNAMES = set("""Exception BaseException AssertionError ValueError TypeError KeyError IndexError NotImplementedError RuntimeError
AttributeError StopIteration OSError IOError FileNotFoundError ZeroDivisionError ArithmeticError OverflowError LookupError
Warning UserWarning DeprecationWarning RecursionError ImportError ModuleNotFoundError RuntimeWarning FloatingPointError""".split())
CONSTS = {"NotImplemented": None, "__name__": "dany", "__file__": "dany"}

NONDET_MODS = {"random", "time", "os", "uuid", "datetime", "secrets", "threading", "tempfile", "socket", "getpass", "platform"}

ZERO, ONE = poly_const(0), poly_const(1)

REACH_DTYPE = ["node", "k", "i", "j", "iseg", "ireach", "rchlen", "strtop", "slope", "strthick", "strhc1", "thts",
               "thti", "eps", "uhc", "reachID", "outreach"]
REACH_INT = {"node", "k", "i", "j", "iseg", "ireach", "reachID", "outreach"}
SEG_DTYPE = ["nseg", "icalc", "outseg", "iupseg", "iprior", "nstrpts", "flow", "runoff", "etsw", "pptsw", "roughch",
             "roughbk", "cdpth", "fdpth", "awdth", "bwdth", "hcond1", "thickm1", "elevup", "width1", "depth1",
             "thts1", "thti1", "eps1", "uhc1", "hcond2", "thickm2", "elevdn", "width2", "depth2", "thts2", "thti2",
             "eps2", "uhc2"]
SEG_INT = {"nseg", "icalc", "outseg", "iupseg", "iprior", "nstrpts"}


class AI:
    """Array facts gathered from an abstract value."""
    __slots__ = ("elem", "shape", "ldeps", "arrs", "src", "cols", "axis", "isarr", "known")

    def __init__(self, elem, shape, ldeps=E, arrs=(), src=None, cols=None, axis=0, isarr=True, known=True):
        self.elem, self.shape, self.ldeps, self.arrs = elem, shape, ldeps, list(arrs)
        self.src, self.cols, self.axis, self.isarr, self.known = src, cols, axis, isarr, known

    @property
    def size(self):
        return psize(self.shape)


def psize(shape):
    if shape is None or any(p is None for p in shape):
        return None
    r = ONE
    for p in shape:
        r = poly_mul(r, p)
    return r


def pz(p):
    """True when a length is certainly zero."""
    return p is not None and poly_int(p) == 0


def differ(p, q):
    """Lengths that are certainly different for generic grid sizes."""
    if p is None or q is None or p == q:
        return False
    a, b = poly_int(p), poly_int(q)
    if a is not None and b is not None:
        return a != b
    syms = {s for m, _ in p | q for s in m}
    if any(s.startswith("?") for s in syms):
        return False
    return True


def maybe_key(k, kk):
    """May the unknown key k be the constant kk?"""
    if kk[0] != "c":
        return True
    c = kk[2]
    if isinstance(c, (int, float)):
        if k.kinds <= NUMK and k.kinds:
            return k.lo <= c <= k.hi
        return bool(k.kinds & NUMK) or not k.kinds or "unk" in k.kinds
    if isinstance(c, str):
        return not k.kinds or bool(k.kinds - NUMK)
    return True


class Models:
    def __init__(self):
        self.hooks = {}
        self.ncell = None          # poly: cells per layer
        self.nodetag = "node"

    def fire(self, kind, *a, **k):
        for h in self.hooks.get(kind, ()):
            h(*a, **k)

    # ------------------------------------------------------------ names
    def ext_attr(self, base, name):
        if base == "numpy":
            return self.np_attr(name)
        if base.startswith("numpy."):
            return fnav("np", base[6:] + "." + name)
        if base == "math":
            if name in ("pi", "e", "inf", "nan", "tau"):
                return cst(getattr(math, name))
            return fnav("np", {"fabs": "abs", "fsum": "sum"}.get(name, name))
        return fnav("ext", base + "." + name)

    def np_attr(self, name):
        c = {"pi": math.pi, "e": math.e, "inf": math.inf, "Inf": math.inf, "nan": math.nan, "NaN": math.nan, "NAN": math.nan,
             "newaxis": None, "PINF": math.inf, "NINF": -math.inf}
        if name in c:
            return cst(c[name])
        if name in ("random", "ma", "linalg", "lib"):
            return fnav("mod", "numpy." + name)
        return fnav("np", name)

    def builtin(self, name):
        if name in PYNAMES or name in EXCNAMES:
            return fnav("py", name)
        if name in CONSTS:
            return cst(CONSTS[name])
        return None

    def fn_attr(self, I, st, f, name, node, fr):
        k = f[0]
        if k == "mod":
            m = f[1]
            mod = I.prog.modules.get(m)
            if mod is not None:
                return I.module_attr(mod, name, st)
            return self.ext_attr(m, name)
        if k == "np":
            return fnav("np", f[1] + "." + name)
        if k == "py":
            return fnav("py", f[1] + "." + name)
        if k == "ext":
            return fnav("ext", f[1] + "." + name)
        if k == "cls":
            m = I.prog.find_method(f[1], name)
            if m is not None:
                decs = getattr(m, "_decs", [])
                if "classmethod" in decs:
                    return fnav("repofn", m._nid, f)
                return fnav("repofn", m._nid, None)
            a = I.prog.find_attr(f[1], name)
            if a is not None:
                return I.class_attr(a[0], name, a[1], st, fr)
            if name == "__name__":
                return strav()
            return unk()
        if k == "super":
            cls, loc = f[1], f[2]
            o = st.heap.get(loc)
            m = I.prog.find_method(o.cls if isinstance(o, Obj) else cls, name, after=cls)
            if m is not None:
                if "property" in getattr(m, "_decs", []):
                    return I.call_repo(m, [ref(loc)], {}, st, node, fr)
                if "staticmethod" in getattr(m, "_decs", []):
                    return fnav("repofn", m._nid, None)
                return AV(KFN, fns=frozenset({("bound", m._nid, loc)}))
            return fnav("py", "noop")
        if k in ("bound", "repo", "repofn", "lam", "m"):
            return strav() if name in ("__name__", "__doc__") else unk()
        return unk()

    def scalar_attr(self, I, st, o, kind, name, node, fr):
        if kind == "str":
            return fnav("sm", name, deps=o.deps)._replace(term=None, fns=frozenset({("sm", name, o.const)}))
        if kind in ("int", "float", "bool"):
            if name in ("size", "ndim", "real", "imag", "shape", "dtype", "T"):
                if name in ("real", "T"):
                    return o
                if name == "size":
                    return cst(1, o.deps)
                if name == "ndim":
                    return cst(0)
                return unk(o.deps)
            return AV(KFN, fns=frozenset({("nm", name)}), deps=o.deps, tags=E)._replace(const=("nmv", None, o))
        if kind == "None":
            I.event("deferr", node, fr, f"None has no attribute '{name}'", definite=o.is_none)
            I.do_raise(st.copy(), "AttributeError", node, fr)
            raise Dead()
        return unk(o.deps)

    # ------------------------------------------------------------ array access
    def elt(self, st, loc, arr):
        """The generic element of an array."""
        out = None
        bs = bufs_of(arr)
        for b in bs:
            bo = st.heap.get(b)
            if not isinstance(bo, Buf):
                out = join(out, unk())
                continue
            e = bo.elem
            if len(bs) > 1 or arr.multi or bo.multi:
                e = e.w(term=None)
            elif arr.view is None:
                if e.term is None:
                    e = e.w(term=mk("elt", b, bo.ver))
                    if e.kinds & NUMK:
                        TT.leafinfo(e.term, e.lo, e.hi, e.nan)
            else:
                e = e.w(term=mk("sel", e.term if e.term is not None else mk("elt", b, bo.ver), arr.view))
                if e.kinds & NUMK:
                    TT.leafinfo(e.term, e.lo, e.hi, e.nan)
            out = e if out is None else join(out, e).w(term=None)
        return out if out is not None else unk()

    def ai(self, I, st, v, depth=0):
        """Array view of a value: elementwise value, shape and provenance."""
        out = None
        if v.kinds - {"ref"}:
            s = v.w(kinds=v.kinds - {"ref"}, refs=E)
            out = AI(s, () if s.kinds <= NUMK | KSTR | KNONE else None, isarr=False, known="unk" not in s.kinds)
        for l in sorted(v.refs, key=str):
            o = st.heap.get(l)
            if isinstance(o, Arr):
                e = I.narrow(self.elt(st, l, o), st)
                b = st.heap.get(bufs_of(o)[0])
                src = b.src if isinstance(b, Buf) and len(bufs_of(o)) == 1 else None
                x = AI(withdeps(e, v.deps), o.shape, o.ldeps, [(l, o)], src, o.cols, o.axis)
            elif isinstance(o, Seq):
                x = self.ai_seq(I, st, v, l, o, depth)
            elif isinstance(o, Ext) and o.kind == "iter":
                kn, el, ld = self.iterate(I, st, ref(l), None, None)
                for k in kn or ():
                    el = join(el, k).w(term=None)
                x = AI(el if el is not None else unk(), (None,), ld, isarr=False)
            elif isinstance(o, Ext) and o.kind == "rec":
                x = AI(unk(v.deps), (None,), isarr=False)
            else:
                x = AI(unk(v.deps | I.deepdeps(st, v)), None, isarr=False, known=False)
            out = x if out is None else self.ai_join(out, x)
        return out if out is not None else AI(unk(v.deps), None, isarr=False, known=False)

    def ai_join(self, a, b):
        sh = None
        if a.shape is not None and b.shape is not None and len(a.shape) == len(b.shape):
            sh = tuple(p if p == q else None for p, q in zip(a.shape, b.shape))
        cols = None
        if a.cols is not None and b.cols is not None and len(a.cols) == len(b.cols) and a.axis == b.axis:
            cols = tuple(join(p, q) for p, q in zip(a.cols, b.cols))
        return AI(join(a.elem, b.elem).w(term=a.elem.term if a.elem.term == b.elem.term else None), sh, a.ldeps | b.ldeps, a.arrs + b.arrs,
                  a.src if a.src == b.src else None, cols, a.axis, a.isarr or b.isarr, a.known and b.known)

    def ai_seq(self, I, st, v, l, o, depth):
        if depth > 3:
            return AI(unk(v.deps), None, isarr=False, known=False)
        n = poly_const(len(o.items)) if o.rest is None and not o.multi else o.lenpoly
        its = list(o.items) + ([o.rest] if o.rest is not None else [])
        if not its:
            return AI(AV(), (n,), o.ldeps, isarr=False)
        elem, sub, cols, ok = None, None, None, True
        percol = [] if o.rest is None and 0 < len(o.items) <= 24 else None
        for it in its:
            if it.refs:
                x = self.ai(I, st, it, depth + 1)
                e = x.elem
                ish = x.shape
                if x.cols is None:
                    # rows of known items give columns
                    rc = self.row_items(st, it)
                    xc = tuple(rc) if rc is not None else None
                else:
                    xc = x.cols
                if sub is None:
                    sub, cols = ish if ish is not None else (None,), xc
                else:
                    if ish is None or sub is None or len(ish) != len(sub):
                        sub = (None,) * max(len(ish or ()), len(sub or ()), 1)
                    else:
                        sub = tuple(p if p == q else None for p, q in zip(sub, ish))
                    if cols is not None and xc is not None and len(cols) == len(xc):
                        cols = tuple(join(p, q).w(term=None) for p, q in zip(cols, xc))
                    else:
                        cols = None
                ok = ok and x.known
            else:
                e = it
                if sub is None:
                    sub = ()
            if percol is not None:
                percol.append(e)
            if e.kinds:
                elem = e if elem is None else join(elem, e).w(term=None)
        elem = elem if elem is not None else AV()
        if o.rest is not None or len(its) > 1:
            elem = elem.w(term=None) if elem.const is None else elem
        elem = withdeps(elem, v.deps | o.ldeps if o.rest is not None else v.deps)
        shape = (n,) + tuple(sub or ())
        if cols is not None and len(shape) == 2:
            return AI(elem, shape, o.ldeps, cols=cols, axis=1, isarr=False, known=ok)
        if percol is not None and len(shape) == 1:
            return AI(elem, shape, o.ldeps, cols=tuple(percol), axis=0, isarr=False, known=ok)
        return AI(elem, shape, o.ldeps, isarr=False, known=ok)

    def row_items(self, st, it):
        """Positional items of a row, joined over the tuples it may be."""
        rows = None
        for l in it.refs:
            o = st.heap.get(l)
            if not isinstance(o, Seq) or (o.rest is not None and not o.items):
                return None
            mine = list(o.items) + ([o.rest] if o.rest is not None else [])
            if rows is None:
                rows = mine
                continue
            n = min(len(rows), len(mine))
            if n == 0:
                return None
            rows = [join(p, q).w(term=None) for p, q in zip(rows[:n], mine[:n])]
        return rows

    def broadcast(self, I, st, node, fr, *shapes):
        shs = [s for s in shapes]
        if any(s is None for s in shs):
            return None
        n = max((len(s) for s in shs), default=0)
        out = []
        for i in range(n):
            dim = ONE
            for s in shs:
                j = len(s) - n + i
                if j < 0:
                    continue
                p = s[j]
                if p is None:
                    if poly_int(dim if dim is not None else E) == 1:
                        dim = None
                    continue
                if poly_int(p) == 1:
                    continue
                if dim is None or poly_int(dim) == 1:
                    dim = p
                elif p != dim:
                    if differ(p, dim) and node is not None and st is not None:
                        I.event("deferr", node, fr, f"operands of shapes {self.shp(shs)} cannot be combined", definite=True)
                        I.do_raise(st.copy(), "ValueError", node, fr)
                        raise Dead()
                    dim = None
            out.append(dim)
        return tuple(out)

    @staticmethod
    def shp(shs):
        return " and ".join("(" + ", ".join(poly_str(p) for p in s) + ")" for s in shs)

    def result(self, I, st, node, fr, elem, shape, tag="r", ldeps=E, src=None, cols=None, axis=0):
        """Array result, or the scalar when the shape is ()."""
        if shape == ():
            return elem
        return I.new_arr(st, node, fr, elem, shape, tag, ldeps, src, cols, axis)

    def ew(self, I, st, node, fr, f, ops, tag="r"):
        """Elementwise application of a scalar transfer function."""
        infos = [self.ai(I, st, o) for o in ops]
        shape = self.broadcast(I, st, node, fr, *[x.shape for x in infos])
        ld = E
        for x in infos:
            ld |= x.ldeps
        e = f(*[x.elem for x in infos])
        if any(o.refs for o in ops):
            cols = None
            for x in infos:
                if x.cols is not None and (len(infos) == 1 or all(y is x or y.shape == () for y in infos)):
                    cols = tuple(f(*[(c if y is x else y.elem) for y in infos]) for c in x.cols)
                    axis = x.axis
            if shape is not None and shape == ():
                return e
            return I.new_arr(st, node, fr, withdeps(e, st.cd & E), shape, tag, ld, None, cols, axis if cols is not None else 0)
        return e

    def is_arr(self, st, v):
        return any(isinstance(st.heap.get(l), Arr) for l in v.refs)

    def binop_ref(self, I, st, node, fr, op, a, b):
        on = type(op).__name__
        sa = [st.heap.get(l) for l in a.refs]
        sb = [st.heap.get(l) for l in b.refs]
        if any(isinstance(x, Arr) for x in sa + sb):
            f = lambda x, y: scalar_binop(on, x, y, I)
            r = self.ew(I, st, node, fr, f, [a, b], "bin")
            self.fire("arith", I, st, node, fr, on, a, b, r)
            if on == "Div":
                self.norm_src(I, st, a, b, r)
            return r
        if self.no_operator(on, a, b, sa, sb) or self.no_operator(on, b, a, sb, sa):
            I.event("deferr", node, fr, f"no {on} between these values", definite=True)
            I.do_raise(st.copy(), "TypeError", node, fr)
            raise Dead()
        if sa and all(isinstance(x, Seq) for x in sa):
            if on == "Add" and sb and all(isinstance(x, Seq) for x in sb):
                if len(sa) == 1 and len(sb) == 1:
                    x, y = sa[0], sb[0]
                    lp = None
                    lx = poly_const(len(x.items)) if x.rest is None else x.lenpoly
                    ly = poly_const(len(y.items)) if y.rest is None else y.lenpoly
                    if lx is not None and ly is not None:
                        lp = poly_add(lx, ly)
                    if x.rest is None:
                        r = I.carry(st, I.new_seq(st, node, fr, x.kind, x.items + y.items, y.rest, ldeps=x.ldeps | y.ldeps, lenpoly=lp), b.refs)
                        return r if y.rest is None and not x.multi else self.madefrom(I, st, r, "cat", a, I.stamp(st, a), b, I.stamp(st, b))
                    rest = x.rest
                    for i in y.items:
                        rest = join(rest, i).w(term=None)
                    if y.rest is not None:
                        rest = join(rest, y.rest).w(term=None)
                    r = I.new_seq(st, node, fr, x.kind, x.items, rest, ldeps=x.ldeps | y.ldeps, lenpoly=lp)
                    return self.madefrom(I, st, r, "cat", a, I.stamp(st, a), b, I.stamp(st, b))
                kind, rest, ld = sa[0].kind, None, E
                for x in sa + sb:
                    ld |= x.ldeps
                    for i in list(x.items) + ([x.rest] if x.rest is not None else []):
                        rest = join(rest, i).w(term=None)
                return I.new_seq(st, node, fr, kind, (), rest, ldeps=ld)
            if on == "Mult":
                return self.seq_repeat(I, st, node, fr, sa[0], b)
            if on in ("Sub", "BitOr", "BitAnd", "BitXor"):
                kind, rest, ld = sa[0].kind, None, E
                for x in sa + (sb if on in ("BitOr", "BitXor") else []):
                    if not isinstance(x, Seq):
                        return unk(a.deps | b.deps)
                    ld |= x.ldeps
                    for i in list(x.items) + ([x.rest] if x.rest is not None else []):
                        rest = join(rest, i).w(term=None)
                for x in sb:
                    ld |= getattr(x, "ldeps", E)
                return I.new_seq(st, node, fr, kind, (), rest, ldeps=ld | a.deps | b.deps)
            if on == "Mod":
                return strav(a.deps | b.deps)
        if sb and all(isinstance(x, Seq) for x in sb) and on == "Mult":
            return self.seq_repeat(I, st, node, fr, sb[0], a)
        if a.kinds == KSTR:
            return strav(a.deps | I.deepdeps(st, b))
        return unk(I.deepdeps(st, a) | I.deepdeps(st, b))

    @staticmethod
    def no_operator(on, a, b, sa, sb):
        """Does Python certainly refuse the operator for a list or tuple and another value?"""
        if not sa or a.kinds != KREF or not all(isinstance(x, Seq) and x.kind in ("list", "tuple") for x in sa):
            return False
        if b.refs:
            if b.kinds != KREF or not all(isinstance(x, Seq) and x.kind in ("list", "tuple") for x in sb):
                return False
            return on != "Add" or {x.kind for x in sa}.isdisjoint({x.kind for x in sb})
        # numpy numbers would turn a list into an array
        plain = b.cval()[0] or b.term is not None and TT.node[b.term][0] in ("len", "p", "input") or ("plain", 0) in b.tags
        return plain and bool(b.kinds) and b.kinds <= NUMK and (on != "Mult" or b.kinds == KFLOAT)

    def seq_repeat(self, I, st, node, fr, s, n):
        c = n.cval()
        if c[0] and isinstance(c[1], int) and s.rest is None and len(s.items) * max(c[1], 0) <= 24:
            return I.new_seq(st, node, fr, s.kind, s.items * max(c[1], 0), None)
        rest = s.rest
        for i in s.items:
            rest = join(rest, i).w(term=i.term if rest is None else None)
        lp = None
        if s.rest is None and n.poly() is not None:
            lp = poly_mul(poly_const(len(s.items)), n.poly())
        r = I.new_seq(st, node, fr, s.kind, (), rest, ldeps=n.deps | s.ldeps, lenpoly=lp)
        if s.rest is None and not s.multi:
            l, = r.refs
            I.seqof[l] = (st.heap[l].ver, "rep", s.items, n)
        return r

    def madefrom(self, I, st, r, *how):
        l, = r.refs
        I.seqof[l] = (st.heap[l].ver,) + how
        return r

    def norm_src(self, I, st, a, b, r):
        """x / sum(x): a normalised array."""
        if not r.refs:
            return
        ta = self.ai(I, st, a).elem.term
        tb = b.term if not b.refs else None
        src = None
        if ta is not None and tb is not None and TT.node[tb][0] == "red" and TT.node[tb][1] == "sum":
            src = ("norm",) if TT.node[tb][2] == ta else None
        if src is None and tb is not None and TT.node[tb][0] == "red":
            src = ("ratio", TT.node[tb][1])
        if src is not None:
            for l in r.refs:
                o = st.heap[l]
                for bb in bufs_of(o):
                    st.heap[bb] = st.heap[bb]._replace(src=src)

    def unary_ref(self, I, st, node, fr, op, a):
        if self.is_arr(st, a):
            return self.ew(I, st, node, fr, lambda x: scalar_unary(op, x), [a], "un")
        return unk(I.deepdeps(st, a))

    def compare_ref(self, I, st, node, fr, op, a, b):
        if self.is_arr(st, a) or self.is_arr(st, b):
            if a.is_none or b.is_none:
                return None
            return self.ew(I, st, node, fr, lambda x, y: scalar_compare(op, x, y), [a, b], "cmp")
        deps = I.deepdeps(st, a) | I.deepdeps(st, b)
        sa = [st.heap.get(l) for l in a.refs]
        sb = [st.heap.get(l) for l in b.refs]
        t = mk("eq", a.term, b.term) if a.term is not None and b.term is not None and op == "Eq" else None
        for s, x in ((sa, b), (sb, a)):
            if s and all(isinstance(q, Seq) and q.kind in ("list", "tuple") for q in s) and x.kinds and x.kinds <= NUMK and x.const is None:
                # a numpy scalar compares with each item
                return self.ew(I, st, node, fr, lambda p, q: scalar_compare(op, p, q), [a, b], "cmp")
        if op in ("Eq", "NotEq") and sa and sb and all(isinstance(x, Seq) for x in sa + sb) and len(sa) == len(sb) == 1:
            x, y = sa[0], sb[0]
            if x.rest is None and y.rest is None and x.kind == y.kind:
                if len(x.items) != len(y.items):
                    return cst(op == "NotEq", deps)
                ps = [(p.poly(), q.poly()) for p, q in zip(x.items, y.items)]
                if all(p is not None and q is not None for p, q in ps):
                    if all(p == q for p, q in ps):
                        return cst(op == "Eq", deps)
                    if any(differ(p, q) for p, q in ps):
                        return cst(op == "NotEq", deps)
        return boolav(deps, t)

    def contains(self, I, st, node, fr, a, b, neg):
        deps = a.deps | b.deps
        known, open_, res = [], False, None
        deep = E
        for l in b.refs:
            o = st.heap.get(l)
            if isinstance(o, Seq):
                known += list(o.items)
                if o.rest is not None or o.multi:
                    open_ = True
                    if o.rest is not None:
                        known.append(o.rest)
                deep |= o.ldeps
                for x in o.items + ((o.rest,) if o.rest is not None else ()):
                    deep |= x.deps
            elif isinstance(o, Dct):
                known += [AV(KSTR if k[1] == "str" else KINT, k) for k, _ in o.known]
                if o.key is not None or o.multi:
                    open_ = True
                deep |= o.ldeps | (o.key.deps if o.key is not None else E)
            elif isinstance(o, Ext) and o.kind == "iter":
                kn, el, ld = self.iterate(I, st, ref(l), node, fr)
                open_ = True
                deep |= ld
            else:
                open_ = True
                deep |= I.deepdeps(st, ref(l))
        if b.kinds - {"ref"}:
            open_ = True
            cb, ca = b.cval(), a.cval()
            if cb[0] and ca[0] and isinstance(cb[1], str) and isinstance(ca[1], str) and b.kinds == KSTR:
                return cst((ca[1] in cb[1]) != neg, deps)
        deps |= deep
        ca = a.cval()
        if ca[0]:
            if any(k.const == a.const for k in known) and not open_:
                return cst(not neg, deps)
            if any(k.const == a.const for k in known) and len(b.refs) == 1 and all(isinstance(st.heap.get(l), (Dct, Seq)) for l in b.refs):
                if any(k.const == a.const for k in known[:len(known)]):
                    o = st.heap.get(next(iter(b.refs)))
                    sure = any(k == a.const for k, _ in o.known) if isinstance(o, Dct) else any(k.const == a.const for k in o.items)
                    if sure and not o.multi:
                        return cst(not neg, deps)
            if not open_ and known and all(k.const is not None and k.const[0] == "c" for k in known):
                return cst(neg, deps)
        if not open_ and not known:
            return cst(neg, deps)
        t = None
        if a.term is not None:
            if known and not open_ and all(k.const is not None and k.const[0] == "c" and k.const[1] != "None" for k in known):
                t = mk("inset", a.term, frozenset(k.const[2] for k in known))
            elif known and not open_ and len(known) <= 6 and a.kinds <= NUMK and len(b.refs) == 1 and isinstance(st.heap.get(next(iter(b.refs))), Seq) and all(
                    k.term is not None and k.kinds <= NUMK for k in known):
                t = None
                for k in known:
                    e = mkop("eq", a.term, k.term)
                    t = e if t is None else mkop("or", t, e)
            elif len(b.refs) == 1:
                l, = b.refs
                o = st.heap.get(l)
                ver = getattr(o, "ver", 0)
                if isinstance(o, Arr):
                    bb = st.heap.get(bufs_of(o)[0])
                    ver = bb.ver if bb else 0
                t = mk("memb", a.term, l, ver)
                if a.kinds & NUMK:
                    try:
                        kn, el, _ = self.iterate(I, st, b, node, fr)
                    except Dead:
                        kn, el = None, None
                    for k in kn or ():
                        el = join(el, k) if el is not None else k
                    if el is not None and el.kinds and el.kinds <= NUMK:
                        el = I.narrow(el, st)
                        o = I.membinfo.get(t)
                        n = (el.lo, el.hi, frozenset(m[1] for m in el.marks))
                        if o is not None:
                            n = (min(o[0], n[0]), max(o[1], n[1]), o[2] | n[2])
                        I.membinfo[t] = n
        self.fire("contains", I, st, node, fr, a, b)
        r = boolav(deps, t)
        if t is not None:
            if ("t", t) in st.facts:
                r = cst(True, deps)
            elif ("f", t) in st.facts:
                r = cst(False, deps)
        if neg:
            return cst(not r.const[2], deps) if r.const else boolav(deps, mkop("not", t))
        return r

    # ------------------------------------------------------------ iteration
    def lentag(self, p, d=0):
        """Tags of a position along an axis of the given length."""
        n = self.ncell
        if n is None or p is None:
            return E
        if p == n or p == poly_add(n, ONE):
            return frozenset({(self.nodetag, 0)})
        if self.rowcol:
            r, c = self.rowcol
            if p == r:
                return frozenset({("row", 0)})
            if p == c:
                return frozenset({("col", 0)})
        return E

    rowcol = None

    def posav(self, p, deps=E, term=None):
        hi = INF
        if p is not None and poly_int(p) is not None:
            hi = max(poly_int(p) - 1, 0)
        return AV(KINT, None, 0.0, float(hi), False, E, deps, E, E, term, self.lentag(p))

    def mkiter(self, I, st, node, fr, kind, *info):
        l = I.alloc(st, I.key("it:" + kind, node, fr), Ext("iter", (kind,) + info))
        return ref(l, st.cd, term=mk("loc", l))

    def seqlen(self, I, st, v):
        """Length polynomial and its deps."""
        p, d, first = None, v.deps, True
        for l in v.refs:
            o = st.heap.get(l)
            q = None
            if isinstance(o, Seq):
                d |= o.ldeps
                q = poly_const(len(o.items)) if o.rest is None and not o.multi else o.lenpoly
            elif isinstance(o, Arr):
                d |= o.ldeps
                q = o.shape[0] if o.shape else None
            elif isinstance(o, Dct):
                d |= o.ldeps
                q = poly_const(len(o.known)) if o.key is None else None
                if o.owner == "grid:neighbors":
                    q = self.ncell
            elif isinstance(o, Ext) and o.kind == "iter":
                k = o.info[0]
                if k in ("enumerate", "reversed", "map", "items", "keys", "values"):
                    q, dd = self.seqlen(I, st, o.info[1])
                    d |= dd
                elif k == "zip":
                    for x in o.info[1]:
                        q2, dd = self.seqlen(I, st, x)
                        d |= dd
                        q = q2 if q is None else q
                elif k == "range":
                    q = self.range_len(o)
                    d |= o.info[2].deps
            if first:
                p, first = q, False
            elif p != q:
                p = None
        return p, d

    def listterm(self, st, v):
        """Term for the elements of one particular list."""
        if len(v.refs) == 1 and not v.kinds - KREF:
            l, = v.refs
            o = st.heap.get(l)
            if isinstance(o, Seq) and not o.multi and not (v.term is not None and TT.node[v.term][0] in ("sq", "sqm")):
                return mk("elt", l, o.ver)
            if isinstance(o, Seq) and v.term is not None and TT.node[v.term][0] != "loc":
                return mk("eltm", v.term, o.ver)
        return None

    def minlen(self, st, v):
        """Least possible length."""
        n = None if v.refs and not v.kinds - {"ref", "none"} else 0
        for l in v.refs:
            o = st.heap.get(l)
            if isinstance(o, Seq):
                k = len(o.items) if o.kind != "set" or o.rest is None else min(1, len(o.items))
            elif isinstance(o, Dct):
                k = len(o.known)
            elif isinstance(o, Ext) and o.kind == "iter" and o.info[0] in ("enumerate", "reversed", "map", "items", "keys", "values") and isinstance(o.info[1], AV):
                k = self.minlen(st, o.info[1])
            else:
                k = 0
            n = k if n is None else min(n, k)
        return n or 0

    def range_len(self, o):
        start, stop, step = o.info[1:4]
        if step.const and step.const[:3] == ("c", "int", 1) and stop.poly() is not None and start.poly() is not None:
            return poly_add(stop.poly(), start.poly(), -1)
        return None

    def length_poly(self, I, st, gen, fr):
        try:
            v = I.ev(gen.iter, st, fr)
        except Dead:
            return None
        return self.seqlen(I, st, v)[0]

    def iterate(self, I, st, v, node, fr):
        """(known items | None, generic element | None, deps of the count)."""
        known, elem, ld = [], None, v.deps
        single = len(v.refs) == 1 and not (v.kinds - {"ref"})
        for l in sorted(v.refs, key=str):
            o = st.heap.get(l)
            if isinstance(o, Seq):
                ld |= o.ldeps
                its = [withdeps(x, v.deps) for x in o.items]
                if o.rest is None and not o.multi and single:
                    return its, None, ld
                known = None
                for x in its:
                    elem = join(elem, x).w(term=None) if elem is not None else x
                if o.rest is not None:
                    elem = join(elem, o.rest).w(term=None) if elem is not None else o.rest
            elif isinstance(o, Dct):
                ld |= o.ldeps
                if o.key is None and not o.multi and single:
                    return [cst(k[2]) for k, _ in o.known], None, ld
                known = None
                for k, _ in o.known:
                    elem = join(elem, cst(k[2])).w(term=None)
                if o.key is not None:
                    elem = join(elem, o.key).w(term=None)
            elif isinstance(o, Arr):
                ld |= o.ldeps
                known = None
                if o.shape is not None and pz(o.shape[0] if o.shape else None):
                    return [], None, ld
                if o.cols is not None and o.axis == 0 and single and len(o.cols) <= 24 and (o.shape is None or len(o.shape) == 1):
                    return list(o.cols), None, ld
                e = self.row(I, st, node, fr, l, o, None)
                elem = join(elem, e).w(term=None) if elem is not None else e
            elif isinstance(o, Ext) and o.kind == "iter":
                kn, el, d2 = self.iter_ext(I, st, l, o, node, fr)
                ld |= d2
                if kn is not None and single:
                    return kn, None, ld
                known = None
                for x in kn or ():
                    elem = join(elem, x).w(term=None) if elem is not None else x
                if el is not None:
                    elem = join(elem, el).w(term=None) if elem is not None else el
            else:
                known = None
                elem = join(elem, unk(v.deps | I.deepdeps(st, ref(l)))).w(term=None)
        rest = v.kinds - {"ref"}
        if rest:
            c = v.cval()
            if c[0] and isinstance(c[1], str) and not v.refs:
                return [cst(ch) for ch in c[1]], None, ld
            known = None
            if rest <= KNONE:
                if not v.refs:
                    I.event("deferr", node, fr, "None is not iterable", definite=True)
                    I.do_raise(st.copy(), "TypeError", node, fr)
                    raise Dead()
            elif rest <= NUMK and not v.refs:
                I.event("deferr", node, fr, "a number is not iterable", definite="unk" not in rest)
                I.do_raise(st.copy(), "TypeError", node, fr)
                raise Dead()
            else:
                elem = join(elem, strav(v.deps) if rest == KSTR else unk(v.deps)).w(term=None)
        if elem is not None:
            elem = withdeps(elem, v.deps)
        return known, elem, ld

    def row(self, I, st, node, fr, l, o, idx):
        """Element along the first axis."""
        e = self.elt(st, l, o)
        if o.shape is None:
            b = st.heap.get(bufs_of(o)[0])
            if isinstance(b, Buf) and b.fields:
                return self.recref(I, st, node, fr, l, idx)
            return e.w(term=None)
        b = st.heap.get(bufs_of(o)[0])
        if isinstance(b, Buf) and b.fields:
            return self.recref(I, st, node, fr, l, idx)
        if len(o.shape) <= 1:
            return I.narrow(self.readat(st, l, o, [idx] if idx is not None else [None], e), st)
        cols, axis = None, 0
        if o.cols is not None and o.axis == 1:
            cols = o.cols
        return I.new_view(st, node, fr, o, o.shape[1:], mk("row", o.view, idx.term if idx is not None else None), "row",
                          cols=cols, axis=axis) if node is not None else e

    def recref(self, I, st, node, fr, l, idx):
        k = I.alloc(st, I.key("rec", node, fr), Ext("rec", (l, idx)))
        return ref(k, st.cd | (idx.deps if idx is not None else E), term=mk("loc", k))

    def at_where(self, I, st, h, i, e, masks=True):
        """The elements found at positions where a mask held."""
        ts = [x[1][0] for x in i.tags if x[0] == "where"]
        if not ts or e.const is not None:
            return e
        if masks:
            s2 = State()
            s2.facts, s2.heap = st.facts, st.heap
            for t in ts:
                I.assume(s2, t, True)
            e = I.narrow(e, s2)
        bs = bufs_of(h)
        b = st.heap.get(bs[0])
        if len(bs) == 1 and isinstance(b, Buf) and any(t in b.nz for t in ts) and e.lo == 0 and e.kinds <= frozenset({"int", "bool"}):
            e = e.w(lo=1.0)
        return e

    def guardtags(self, facts, v):
        """What the facts say about the position v, as masks over whole arrays."""
        if v.term is None or v.const is not None or not v.kinds <= frozenset({"int"}):
            return v
        out = set()
        for a in facts:
            k = a[0]
            if k not in ("lt", "le", "nlt", "nle", "eq", "ne", "nan", "nn", "t", "f"):
                continue
            xs = [self.unpoint(x, v.term) for x in a[1:]]
            if any(x is None for x in xs) or tuple(xs) == a[1:]:
                continue
            m = {"nlt": "lt", "nle": "le", "nan": "isnan", "nn": "isnan"}.get(k, k)
            m = xs[0] if k in ("t", "f") else mk(m, *xs)
            out.add(("where", (mk("not", m) if k in ("nlt", "nle", "nn", "f") else m,)))
        return v.w(tags=v.tags | frozenset(out)) if out else v

    def unpoint(self, t, i, depth=0):
        """The elementwise expression whose value at position i is t."""
        n = TT.node[t]
        if n[0] == "el" and n[3] is None and len(n) == 5 and n[4] == i:
            return mk("elt", n[1], n[2])
        if n[0] in ("c", "p", "len"):
            return t
        if n[0] not in ("lt", "le", "eq", "ne", "not", "and", "or", "+", "-", "*", "/", "neg", "abs", "max", "min", "isnan", "ite", "truthy") or depth > 6:
            return None
        cs = [self.unpoint(c, i, depth + 1) if type(c) is T else c for c in n[1:]]
        return None if any(c is None for c in cs) else mk(n[0], *cs)

    def pointwise(self, t, i, depth=0):
        """What an elementwise result holds at one position."""
        n = TT.node[t]
        if n[0] == "elt":
            return mk("el", n[1], n[2], None, i)
        if n[0] in ("c", "p") or n[0] == "el":
            return t if depth else None
        if n[0] not in ("lt", "le", "eq", "ne", "not", "and", "or", "+", "-", "*", "/", "neg", "abs", "max", "min", "isnan", "ite", "truthy") or depth > 6:
            return None
        cs = [self.pointwise(c, i, depth + 1) if type(c) is T else c for c in n[1:]]
        return None if any(c is None for c in cs) else mk(n[0], *cs)

    def readat(self, st, l, o, idx, e):
        """Scalar read with a term naming the storage, version and position."""
        bs = bufs_of(o)
        b = st.heap.get(bs[0])
        if o.cols is not None and len(idx) == 1 and idx[0] is not None and o.axis == 0:
            c = idx[0].cval()
            if c[0] and isinstance(c[1], int) and -len(o.cols) <= c[1] < len(o.cols) and not (o.shape and len(o.shape) > 1):
                v = o.cols[c[1]]
                if v.term is None and v.const is None and len(bs) == 1 and isinstance(b, Buf) and not o.multi and not b.multi and o.view is not None:
                    t = mk("el", bs[0], b.ver, o.view, cst(c[1] % len(o.cols)).term)
                    v = v.w(term=t)
                    if v.kinds & NUMK:
                        TT.leafinfo(t, v.lo, v.hi, v.nan)
                return v
        if e.const is not None and e.const[0] == "c":
            return e
        t = None
        if len(bs) == 1 and isinstance(b, Buf) and not o.multi and not b.multi and all(i is not None and i.term is not None for i in idx):
            if len(idx) == 1 and o.view is None and o.shape is not None and len(o.shape) == 1 and TT.node[b.ver][0] == "w" and b.elem.term is not None:
                t = self.pointwise(b.elem.term, idx[0].term)
            if t is None:
                t = mk("el", bs[0], b.ver, o.view, *[i.term for i in idx])
            if e.kinds & NUMK:
                TT.leafinfo(t, e.lo, e.hi, e.nan)
        return e.w(term=t)

    def iter_ext(self, I, st, l, o, node, fr):
        k = o.info[0]
        if k == "range":
            start, stop, step = o.info[1:4]
            cs = [x.cval() for x in (start, stop, step)]
            ld = start.deps | stop.deps | step.deps
            if all(c[0] for c in cs):
                try:
                    r = range(cs[0][1], cs[1][1], cs[2][1])
                    if len(r) <= 24:
                        return [cst(i, ld) for i in r], None, ld
                except Exception:
                    pass
            lo, hi = -INF, INF
            tags = E
            if step.lo > 0:
                lo = start.lo
                hi = stop.hi - 1
            elif step.hi < 0:
                hi, lo = start.hi, stop.lo + 1
            if lo > hi:
                return [], None, ld
            if start.lo >= 0:
                p = stop.poly()
                tags = self.lentag(p) if p is not None and step.lo > 0 else stop.tags
                if step.lo > 0 and p is None:
                    tags = E
            return None, AV(KINT, None, lo, hi, False, E, ld, E, E, None, tags), ld
        if k == "enumerate":
            kn, el, ld = self.iterate(I, st, o.info[1], node, fr)
            s0 = o.info[2].cval()
            s0 = s0[1] if s0[0] else None
            if kn is not None:
                out = []
                for i, x in enumerate(kn):
                    key = I.key(("enk", i), node, fr)
                    st.heap[key] = Seq("tuple", (cst(i + (s0 or 0)), x))
                    out.append(ref(key))
                return out, None, ld
            if el is None:
                return None, None, ld
            p, _ = self.seqlen(I, st, o.info[1])
            ix = self.posav(p, ld)
            if s0:
                ix = scalar_binop("Add", ix, cst(s0))
            elif s0 is None:
                ix = num("int", deps=ld | o.info[2].deps)
            return None, self.tup(I, st, node, fr, "en", [ix, el]), ld
        if k == "zip":
            parts = [self.iterate(I, st, x, node, fr) for x in o.info[1]]
            ld = E
            for _, _, d in parts:
                ld |= d
            if parts and all(p[0] is not None for p in parts):
                n = min(len(p[0]) for p in parts)
                out = []
                for i in range(n):
                    key = I.key(("zk", i), node, fr)
                    st.heap[key] = Seq("tuple", tuple(p[0][i] for p in parts))
                    out.append(ref(key))
                return out, None, ld
            els = []
            for kn, el, _ in parts:
                for x in kn or ():
                    el = join(el, x).w(term=None) if el is not None else x
                if el is None:
                    return [], None, ld
                els.append(el)
            return None, self.tup(I, st, node, fr, "zp", els), ld
        if k == "items":
            ds = [st.heap.get(x) for x in o.info[1].refs]
            ld = o.info[1].deps
            if len(ds) == 1 and isinstance(ds[0], Dct) and ds[0].key is None and not ds[0].multi:
                out = []
                for i, (kk, v) in enumerate(ds[0].known):
                    key = I.key(("ik", i), node, fr)
                    st.heap[key] = Seq("tuple", (cst(kk[2]), v))
                    out.append(ref(key))
                return out, None, ld | ds[0].ldeps
            key = val = None
            for d in ds:
                if not isinstance(d, Dct):
                    return None, unk(ld), ld
                ld |= d.ldeps
                for kk, v in d.known:
                    key, val = join(key, cst(kk[2])).w(term=None), join(val, v).w(term=None)
                if d.key is not None:
                    key, val = join(key, d.key).w(term=None), join(val, d.val).w(term=None)
            if key is None:
                return [], None, ld
            t = self.tup(I, st, node, fr, "im", [key, val])
            if len(ds) == 1:
                I.itempair[next(iter(t.refs))] = next(iter(o.info[1].refs))
            return None, t, ld
        if k == "keys":
            return self.iterate(I, st, o.info[1], node, fr)
        if k == "values":
            kn, el, ld = [], None, o.info[1].deps
            for x in o.info[1].refs:
                d = st.heap.get(x)
                if not isinstance(d, Dct):
                    return None, unk(ld), ld
                ld |= d.ldeps
                if d.key is None and len(o.info[1].refs) == 1 and not d.multi:
                    return [v for _, v in d.known], None, ld
                for kk, v in d.known:
                    el = join(el, v).w(term=None) if el is not None else v
                if d.key is not None:
                    el = join(el, d.val).w(term=None) if el is not None else d.val
            return (None, el, ld) if el is not None else ([], None, ld)
        if k == "reversed":
            kn, el, ld = self.iterate(I, st, o.info[1], node, fr)
            return (list(reversed(kn)) if kn is not None else None), el, ld
        if k == "map":
            kn, el, ld = self.iterate(I, st, o.info[1], node, fr)
            for x in kn or ():
                el = join(el, x).w(term=None) if el is not None else x
            if el is None:
                return [], None, ld
            return None, I.call(o.info[2], [el], {}, st, node, fr), ld
        return None, unk(), E

    def tup(self, I, st, node, fr, tag, items):
        key = I.key("t:" + tag, node, fr)
        key = I.alloc(st, key, Seq("tuple", tuple(items)))
        return ref(key)

    def fresh_iter(self, I, st, elem, node, fr, itv):
        """Name the element of one iteration so that facts can mention it."""
        base = mk("it", node._nid, fr.ctx)
        I.iterof[base] = itv, I.stamp(st, itv)
        if len(itv.refs) == 1:
            l, = itv.refs
            o = st.heap.get(l)
            if isinstance(o, Arr) and o.shape is not None and len(o.shape) > 1 and isinstance(st.heap.get(bufs_of(o)[0]), Buf) and not st.heap[bufs_of(o)[0]].fields:
                return self.at_index(I, st, itv, elem, AV(KINT, None, 0.0, INF, term=mk("iti", base, 99)), cst(0), base, node, fr, 2)
            if isinstance(o, Ext) and o.kind == "iter" and o.info[0] in ("enumerate", "zip", "items"):
                return self.fresh_tuple(I, st, elem, node, fr, o, base)
            if isinstance(o, Arr) and len(elem.refs) == 1 and node is not None:
                b = st.heap.get(bufs_of(o)[0])
                e = st.heap.get(next(iter(elem.refs)))
                if isinstance(b, Buf) and b.fields and isinstance(e, Ext) and e.kind == "rec" and e.info[1] is None:
                    return self.recref(I, st, node, fr, l, AV(KINT, None, 0.0, INF, term=mk("iti", base, 99)))
            c = I.compinfo.get(l)
            if c is not None and isinstance(o, Seq) and o.ver == c[0]:
                # every element of the list passed its filter
                for a in c[2]:
                    b = (a[0],) + tuple(subst(x, c[1], base) if type(x) is T else x for x in a[1:])
                    if b != a:
                        I.addfact(st, *b)
        return self.rename(I, st, elem, base, node, fr)

    def rename(self, I, st, e, base, node, fr, i=0):
        if e.const is not None and e.const[0] == "c":
            return e
        t = mk("iti", base, i) if i else base
        if e.refs and len(e.refs) >= 1 and all(isinstance(st.heap.get(l), Seq) and st.heap[l].kind == "tuple" for l in e.refs) \
                and not (e.kinds - {"ref"}):
            rows = self.row_items(st, e)
            if rows is not None:
                key = I.key(("rt", i), node, fr)
                st.heap[key] = Seq("tuple", tuple(self.rename(I, st, x, base, node, fr, i * 10 + j + 1) for j, x in enumerate(rows)))
                if len(rows) == 2 and len({I.itempair.get(l) for l in e.refs} - {None}) == 1 and all(l in I.itempair for l in e.refs):
                    I.dpair.add((mk("iti", base, i * 10 + 1), mk("iti", base, i * 10 + 2)))
                return ref(key, e.deps, term=t)
        if e.kinds & NUMK:
            TT.leafinfo(t, e.lo, e.hi, e.nan)
        return e.w(term=t)

    def fresh_tuple(self, I, st, elem, node, fr, o, base):
        rows = self.row_items(st, elem)
        if rows is None:
            return self.rename(I, st, elem, base, node, fr)
        k = o.info[0]
        out = []
        if k == "enumerate":
            ix = rows[0].w(term=mk("iti", base, 1)) if rows[0].const is None else rows[0]
            TT.leafinfo(ix.term, ix.lo, ix.hi, False)
            out = [ix, self.at_index(I, st, o.info[1], rows[1], ix, o.info[2], base, node, fr, 2)]
        elif k == "items":
            kk = self.rename(I, st, rows[0], base, node, fr, 1)
            vv = rows[1]
            if len(o.info[1].refs) == 1:
                dl, = o.info[1].refs
                d = st.heap.get(dl)
                if isinstance(d, Dct) and kk.term is not None and not d.multi:
                    vv = vv.w(term=mk("dv", dl, d.ver, kk.term))
                    if vv.kinds & NUMK:
                        TT.leafinfo(vv.term, vv.lo, vv.hi, vv.nan)
            else:
                vv = self.rename(I, st, vv, base, node, fr, 2)
            out = [kk, vv]
        else:
            pos = mk("iti", base, 99)
            pav = AV(KINT, None, 0.0, INF, term=pos)
            out = [self.at_index(I, st, src, x, pav, cst(0), base, node, fr, j + 1) for j, (src, x) in enumerate(zip(o.info[1], rows))]
        key = I.key("ft", node, fr)
        st.heap[key] = Seq("tuple", tuple(I.narrow(x, st) for x in out))
        return ref(key, elem.deps, term=base)

    def at_index(self, I, st, src, e, ix, start, base, node, fr, j):
        """The element of src at position ix (for enumerate/zip)."""
        if len(src.refs) == 1 and start.cval() == (True, 0):
            l, = src.refs
            o = st.heap.get(l)
            if isinstance(o, Arr):
                b = st.heap.get(bufs_of(o)[0])
                if isinstance(b, Buf) and b.fields:
                    return self.recref(I, st, node, fr, l, ix)
                if o.shape is not None and len(o.shape) == 1:
                    r = self.readat(st, l, o, [ix], self.elt(st, l, o))
                    return withdeps(r, src.deps)
                if o.shape is not None and len(o.shape) > 1:
                    return I.new_view(st, node, fr, o, o.shape[1:], mk("row", o.view, ix.term), "rowi",
                                      cols=o.cols if o.axis == 1 else None)
            if isinstance(o, Seq) and not e.refs and not o.multi:
                t = mk("sq", l, o.ver, ix.term)
                if e.kinds & NUMK:
                    TT.leafinfo(t, e.lo, e.hi, e.nan)
                return e.w(term=t) if e.const is None else e
        return self.rename(I, st, e, base, node, fr, j)

    def unpack_values(self, I, st, v, n, node, fr, star):
        if len(v.refs) >= 1 and not (v.kinds - {"ref"}):
            rows = None
            ok = True
            for l in v.refs:
                o = st.heap.get(l)
                if isinstance(o, Seq) and o.rest is None and not o.multi and (len(o.items) == n or star is not None):
                    it = list(o.items)
                elif isinstance(o, Seq) and o.rest is None and not o.multi and len(v.refs) == 1 and star is None:
                    I.event("deferr", node, fr, f"unpacking {len(o.items)} values into {n} names", definite=True)
                    I.do_raise(st.copy(), "ValueError", node, fr)
                    raise Dead()
                elif isinstance(o, Seq) and o.rest is None and len(o.items) == n:
                    it = list(o.items)
                else:
                    ok = False
                    break
                if rows is None:
                    rows = it
                elif len(rows) == len(it):
                    rows = [join(p, q).w(term=None) if p != q else p for p, q in zip(rows, it)]
                else:
                    ok = False
            if ok and rows is not None:
                if star is None:
                    return [withdeps(x, v.deps) for x in rows]
                k = len(rows) - n + 1
                if k >= 0:
                    mid = I.new_seq(st, node, fr, "list", rows[star:star + k], None, tag="star")
                    return [withdeps(x, v.deps) for x in rows[:star] + [mid] + rows[star + k:]]
        known, elem, ld = self.iterate(I, st, v, node, fr)
        if known is not None and star is None:
            if len(known) == n:
                return known
            I.event("deferr", node, fr, f"unpacking {len(known)} values into {n} names", definite=True)
            I.do_raise(st.copy(), "ValueError", node, fr)
            raise Dead()
        e = elem if elem is not None else unk(v.deps)
        for x in known or ():
            e = join(e, x).w(term=None)
        e = e.w(term=None) if e.const is None else e
        out = [e] * n
        if star is not None:
            out[star] = I.new_seq(st, node, fr, "list", (), e, tag="star")
        return out

    # ------------------------------------------------------------ indexing
    def flat_index(self, I, st, idx):
        """A single tuple value used as index is an index list."""
        if len(idx) == 1 and isinstance(idx[0], AV) and len(idx[0].refs) == 1 and idx[0].kinds == KREF:
            o = st.heap.get(next(iter(idx[0].refs)))
            if isinstance(o, Seq) and o.kind == "tuple" and o.rest is None and not o.multi:
                return [withdeps(x, idx[0].deps) for x in o.items]
        return idx

    @staticmethod
    def idxdeps(I, st, idx):
        d = E
        for i in idx:
            if isinstance(i, tuple) and i[0] == "slice" and not isinstance(i, AV):
                for x in i[1:]:
                    d |= x.deps
            else:
                d |= I.deepdeps(st, i)
        return d

    @staticmethod
    def is_slice(i):
        return not isinstance(i, AV)

    def getitem(self, I, st, node, fr, o, idx):
        idx = self.flat_index(I, st, idx)
        out, dead = None, 0
        for l in sorted(o.refs, key=str):
            h = st.heap.get(l)
            try:
                if isinstance(h, Arr):
                    r = self.arr_get(I, st, node, fr, l, h, idx, o)
                elif isinstance(h, Seq):
                    r = self.seq_get(I, st, node, fr, l, h, idx, o)
                elif isinstance(h, Dct):
                    r = self.dct_get(I, st, node, fr, l, h, idx)
                elif isinstance(h, Ext) and h.kind == "rec":
                    r = self.rec_get(I, st, node, fr, l, h, idx)
                elif isinstance(h, Obj):
                    m = I.prog.find_method(h.cls, "__getitem__")
                    r = I.call_repo(m, [ref(l), idx[0]], {}, st, node, fr) if m is not None and isinstance(idx[0], AV) else unk(I.deepdeps(st, o))
                else:
                    r = unk(I.deepdeps(st, o))
            except Dead:
                dead += 1
                continue
            out = join(out, r).w(term=None) if out is not None and out != r else r
        rest = o.kinds - {"ref"}
        if rest:
            if rest <= KNONE:
                I.event("deferr", node, fr, "None is not subscriptable", definite=o.is_none)
                if o.is_none:
                    I.do_raise(st.copy(), "TypeError", node, fr)
                    raise Dead()
            elif rest == KSTR:
                out = join(out, strav(o.deps)) if out is not None else strav(o.deps)
            else:
                r = unk(o.deps | self.idxdeps(I, st, idx))
                out = join(out, r) if out is not None else r
        if out is None:
            raise Dead()
        return withdeps(out, o.deps)

    def slice_len(self, I, n, s):
        """Length of axis n cut by slice s, with constant/known bounds only."""
        lo, hi, step = s[1:]
        if step.kinds != KNONE:
            c = step.cval()
            if c[0] and c[1] == -1 and lo.kinds == KNONE and hi.kinds == KNONE:
                return n
            if not (c[0] and c[1] == 1):
                return None
        a = ZERO
        if lo.kinds != KNONE:
            a = lo.poly()
            if a is None:
                return None
            if poly_int(a) is not None and poly_int(a) < 0:
                if n is None:
                    return None if hi.kinds != KNONE else poly_const(-poly_int(a))
                a = poly_add(n, a)
        if hi.kinds == KNONE:
            b = n
        else:
            b = hi.poly()
            if b is None:
                return None
            if poly_int(b) is not None and poly_int(b) < 0:
                if n is None:
                    return None
                b = poly_add(n, b)
        if n is None:
            if hi.kinds == KNONE:
                return None
            return None
        if b is None:
            return None
        r = poly_add(b, a, -1)
        ni, ri = poly_int(n), poly_int(r)
        if ni is not None and ri is not None:
            ai, bi = poly_int(a), poly_int(b)
            if ai is not None and bi is not None:
                return poly_const(max(0, min(bi, ni) - min(ai, ni)))
        return r

    def full_slice(self, s):
        return s[1].kinds == KNONE and s[2].kinds == KNONE and s[3].kinds == KNONE

    def slterm(self, s):
        return mk("sl", *[x.term if x.term is not None else mk("anon", id(x)) for x in s[1:]])

    def arr_get(self, I, st, node, fr, l, h, idx, o):
        if len(idx) == 1 and isinstance(idx[0], AV) and idx[0].kinds == KSTR:
            return self.field_get(I, st, node, fr, l, h, idx[0])
        b0 = st.heap.get(bufs_of(h)[0])
        rec = isinstance(b0, Buf) and b0.fields
        shape = h.shape
        if rec and len(idx) == 1:
            i = idx[0]
            if self.is_slice(i):
                return self.rec_slice(I, st, node, fr, l, h, i)
            if i.kinds <= NUMK:
                self.fire("index", I, st, node, fr, l, h, [i], False)
                return self.recref(I, st, node, fr, l, i)
            return self.rec_slice(I, st, node, fr, l, h, i)
        nreal = len([i for i in idx if not (isinstance(i, AV) and (i.is_none or "ellipsis" in i.kinds))])
        bools = [i for i in idx if isinstance(i, AV) and i.refs and self.ai(I, st, i).elem.kinds == KBOOL]
        for bm in bools:
            bs = self.ai(I, st, bm).shape
            if bs is not None:
                nreal += len(bs) - 1
        if shape is not None and nreal > len(shape):
            I.event("deferr", node, fr, f"{nreal} indices for an array of {len(shape)} dimension(s)", definite=True)
            I.do_raise(st.copy(), "IndexError", node, fr)
            raise Dead()
        self.fire("index", I, st, node, fr, l, h, idx, False)
        e = self.elt(st, l, h)
        deps = self.idxdeps(I, st, idx)
        if any(isinstance(i, AV) and "ellipsis" in i.kinds for i in idx):
            k = [j for j, i in enumerate(idx) if isinstance(i, AV) and "ellipsis" in i.kinds][0]
            if shape is None:
                return I.new_view(st, node, fr, h, None, mk("v?", node._nid, fr.ctx), "gi")
            fill = len(shape) - (len(idx) - 1)
            ns = ("slice", c_none(), c_none(), c_none())
            idx = idx[:k] + [ns] * fill + idx[k + 1:]
        # scalars only
        if all(isinstance(i, AV) and not i.refs and not i.is_none for i in idx):
            bad = [i for i in idx if i.kinds and not (i.kinds & NUMK) and "unk" not in i.kinds]
            if bad:
                return unk(deps | e.deps)
            if shape is not None and len(idx) == len(shape):
                for i, n in zip(idx, shape):
                    self.bound(I, st, node, fr, i, n)
                r = self.readat(st, l, h, idx, self.at_where(I, st, h, idx[0], e) if len(idx) == 1 else e)
                return withdeps(I.narrow(r, st), deps)
            if shape is not None:
                for i, n in zip(idx, shape):
                    self.bound(I, st, node, fr, i, n)
                k = len(idx)
                cols, axis = (h.cols, h.axis - k) if h.cols is not None and h.axis >= k else (None, 0)
                if h.cols is not None and h.axis == 0 and k == 1:
                    c = idx[0].cval()
                    if c[0] and isinstance(c[1], int) and -len(h.cols) <= c[1] < len(h.cols):
                        return self.colarr(I, st, node, fr, h, h.cols[c[1]], shape[1:], c[1])
                r = I.new_view(st, node, fr, h, shape[k:], mk("row", h.view, *[i.term for i in idx]), "gi", cols=cols, axis=axis)
                return withdeps(r, deps)
            # unknown rank
            return withdeps(e.w(term=None, kinds=e.kinds | KUNK), deps)
        # slices only -> view
        if all(self.is_slice(i) or i.is_none or (not i.refs) for i in idx):
            out, pos, view, pure = [], 0, h.view, True
            col = None
            for i in idx:
                if isinstance(i, AV) and i.is_none:
                    out.append(ONE)
                    continue
                n = shape[pos] if shape is not None and pos < len(shape) else None
                if self.is_slice(i):
                    if not self.full_slice(i):
                        view = mk("slv", view, pos, self.slterm(i))
                    out.append(self.slice_len(I, n, i))
                else:
                    self.bound(I, st, node, fr, i, n)
                    view = mk("slv", view, pos, i.term)
                    if h.cols is not None and h.axis == pos:
                        c = i.cval()
                        if c[0] and isinstance(c[1], int) and -len(h.cols) <= c[1] < len(h.cols):
                            col, colno = h.cols[c[1]], c[1]
                pos += 1
            if shape is not None:
                out += list(shape[pos:])
            else:
                out = None
            if out == []:
                return withdeps(e.w(term=None), deps)
            if col is not None:
                return self.colarr(I, st, node, fr, h, col, tuple(out), colno)
            cols, axis = h.cols, h.axis
            if cols is not None and out is not None and shape is not None:
                if len(out) == len(shape):
                    if axis < len(idx) and not self.full_slice(idx[axis] if self.is_slice(idx[axis]) else ("slice",) + (cst(0),) * 3):
                        cols = self.cut_cols(cols, idx[axis])
                else:
                    cols = None
            ld = h.ldeps | deps
            return I.new_view(st, node, fr, h, tuple(out) if out is not None else None, view, "gi", ldeps=ld, cols=cols, axis=axis if cols is not None else 0)
        # fancy / mask
        return self.fancy_get(I, st, node, fr, l, h, idx, e, deps)

    def cut_cols(self, cols, s):
        if not self.is_slice(s):
            return None
        cs = [x.cval() for x in s[1:]]
        if all(c[0] for c in cs):
            try:
                return tuple(cols[slice(cs[0][1], cs[1][1], cs[2][1])])
            except Exception:
                return None
        return None

    def bound(self, I, st, node, fr, i, n):
        """Constant index certainly outside a constant length."""
        c = i.cval()
        if c[0] and isinstance(c[1], int) and n is not None:
            k = poly_int(n)
            if k is not None and not (-k <= c[1] < k):
                I.event("deferr", node, fr, f"index {c[1]} is out of bounds for length {k}", definite=True)
                I.do_raise(st.copy(), "IndexError", node, fr)
                raise Dead()
        self.wrong_axis(I, st, node, fr, i, n)

    def wrong_axis(self, I, st, node, fr, i, n):
        """A cell number, row or column used along another axis of the grid."""
        if ("below", 0) in i.tags and n is not None and n == self.ncell:
            I.event("deferr", node, fr, "a cell of a layer below the first is out of bounds for a grid layer", definite=True)
            I.do_raise(st.copy(), "IndexError", node, fr)
            raise Dead()
        if not self.rowcol or n is None or self.rowcol[0] == self.rowcol[1]:
            return
        r, c = self.rowcol
        tags = [k for k, d in i.tags if k in ("node", "row", "col") and d == 0]
        if len(tags) == 1 and i.lo >= 0 and (tags[0] == "node" and n in (r, c) or tags[0] == "row" and n == c or tags[0] == "col" and n == r):
            what = {"node": "cell number", "row": "row", "col": "column"}[tags[0]]
            I.event("deferr", node, fr, f"a {what} is out of bounds along the {'rows' if n == r else 'columns'} of the grid", definite=True)
            I.do_raise(st.copy(), "IndexError", node, fr)
            raise Dead()

    def colarr(self, I, st, node, fr, h, elem, shape, c=None):
        if shape == ():
            return elem
        r = I.new_arr(st, node, fr, elem, shape, "col", h.ldeps)
        if c is not None and not isinstance(h.buf, tuple) or c is not None and h.buf[0] != "U":
            b = st.heap[st.heap[next(iter(r.refs))].buf]
            I.colinfo[b.ver] = (h.buf, st.heap[h.buf].ver if h.buf in st.heap else None, h.view, c % len(h.cols))
        return r

    def fancy_get(self, I, st, node, fr, l, h, idx, e, deps):
        shape = h.shape
        out, pos, fancyshape, firstpos = [], 0, None, None
        terms, term_ok = [], True
        cols, axis = h.cols, h.axis
        elem, narrowed = e, e
        extra = E
        col = None
        src = None
        for i in idx:
            n = shape[pos] if shape is not None and pos < len(shape) else None
            if self.is_slice(i):
                out.append(self.slice_len(I, n, i))
                terms.append(self.slterm(i))
                pos += 1
                continue
            if i.is_none:
                out.append(ONE)
                continue
            x = self.ai(I, st, i)
            if i.refs and x.elem.kinds == KBOOL:
                k = len(x.shape) if x.shape is not None else 1
                if x.shape is not None and shape is not None:
                    for j in range(k):
                        if pos + j < len(shape) and differ(x.shape[j], shape[pos + j]):
                            I.event("deferr", node, fr, f"mask of shape {self.shp([x.shape])} for an array of shape {self.shp([shape])}", definite=True)
                            I.do_raise(st.copy(), "IndexError", node, fr)
                            raise Dead()
                tv = I.truth(x.elem, st)
                ln = None
                if tv is False:
                    ln = ZERO
                elif tv is True:
                    ln = n if k == 1 else None
                if firstpos is None:
                    firstpos = len(out)
                    out.append(ln)
                extra |= x.ldeps | x.elem.deps
                if x.elem.term is not None:
                    s2 = State()
                    s2.facts, s2.heap = st.facts, st.heap
                    I.assume(s2, x.elem.term, True)
                    narrowed = I.narrow(narrowed, s2)
                    terms.append(mk("mask", x.elem.term))
                else:
                    term_ok = False
                if cols is not None:
                    if x.cols is not None and len(x.cols) == len(cols) and axis == pos:
                        cols = None
                    elif axis == pos:
                        cols = None
                pos += k
                src = ("subset",)
            elif i.refs:
                if x.elem.kinds == KINT:
                    self.wrong_axis(I, st, node, fr, x.elem, n)
                if firstpos is None:
                    firstpos = len(out)
                    fancyshape = x.shape
                    out.extend(x.shape if x.shape is not None else [None])
                elif x.shape is not None and fancyshape is not None:
                    bs = self.broadcast(I, st, node, fr, fancyshape, x.shape)
                    out[firstpos:firstpos + len(fancyshape)] = bs
                    fancyshape = bs
                extra |= x.ldeps
                deps |= x.elem.deps
                if len(idx) == 1:
                    narrowed = self.at_where(I, st, h, x.elem, narrowed)
                it = x.elem.term if x.elem.term is not None else self.listterm(st, i)
                if it is not None:
                    terms.append(it)
                else:
                    term_ok = False
                if cols is not None and axis == pos:
                    cols = None
                pos += 1
                src = ("subset",)
            else:
                self.bound(I, st, node, fr, i, n)
                if cols is not None and axis == pos:
                    c = i.cval()
                    if c[0] and isinstance(c[1], int) and -len(cols) <= c[1] < len(cols):
                        col = cols[c[1]]
                    cols = None
                if firstpos is None:
                    firstpos = len(out)
                    fancyshape = ()
                terms.append(i.term if i.term is not None else mk("anon", node._nid, fr.ctx, pos))
                pos += 1
        if shape is not None:
            out += list(shape[pos:])
            shp = tuple(out)
        else:
            shp = None
        t = mk("gath", e.term, *terms) if term_ok and e.term is not None else None
        r = (col if col is not None else narrowed).w(term=t)
        if t is not None and r.kinds & NUMK:
            TT.leafinfo(t, r.lo, r.hi, r.nan)
        r = withdeps(r, deps)
        if shp is not None and cols is not None and len(shp) == (len(shape) if shape else 0):
            pass
        else:
            cols = None
        b = st.heap.get(bufs_of(h)[0])
        bsrc = b.src if isinstance(b, Buf) else None
        if bsrc is not None and src is not None:
            src = ("subset", bsrc)
        else:
            src = None
        if r.const is not None and r.const[0] == "c":
            r = r.w(term=mk(*r.const) if r.const[2] != "nan" else r.term)
        v = I.new_arr(st, node, fr, r, shp, "fg", h.ldeps | extra | (deps if extra else E), src, cols, axis)
        if len(idx) == 1 and len(idx[0].refs) == 1 and shp is not None and not isinstance(h.buf, list):
            x = self.ai(I, st, idx[0])
            k = next(iter(idx[0].refs))
            ix = ("mask", x.elem.term) if x.elem.kinds == KBOOL else ("arr", st.heap[k].buf) if isinstance(st.heap.get(k), Arr) and st.heap[k].view is None else None
            b0 = st.heap.get(h.buf)
            if ix is not None and b0 is not None:
                I.gathinfo[st.heap[st.heap[next(iter(v.refs))].buf].ver] = (h.buf, b0.ver, h.view, ix)
        return v

    def rec_slice(self, I, st, node, fr, l, h, i):
        b = st.heap[bufs_of(h)[0]]
        return I.new_view(st, node, fr, h, (None,), mk("recsl", node._nid), "rs", ldeps=h.ldeps | (self.idxdeps(I, st, [i])))

    def field_get(self, I, st, node, fr, l, h, nm):
        c = nm.cval()
        out = None
        for b in bufs_of(h):
            bo = st.heap.get(b)
            if isinstance(bo, Buf) and bo.fields:
                hit = [fb for n, fb in bo.fields if not c[0] or n == c[1]]
                if c[0] and not hit:
                    I.event("deferr", node, fr, f"no field of name {c[1]}", definite=True)
                    I.do_raise(st.copy(), "ValueError", node, fr)
                    raise Dead()
                bf = hit[0] if len(hit) == 1 else ("U",) + tuple(hit)
                k = I.alloc(st, I.key(("fld", c[1] if c[0] else "?"), node, fr), Arr(bf, h.shape, h.ldeps))
                r = ref(k, term=mk("loc", k))
                out = r if out is None else join(out, r)
        if out is None:
            I.unknown("field of a plain array", node)
            return unk(I.deepdeps(st, ref(l)))
        return out

    def rec_fields(self, st, h):
        """(loc, Buf) pairs of the fields of a record reference."""
        l = h.info[0]
        a = st.heap.get(l)
        if not isinstance(a, Arr):
            return None
        out = []
        for b in bufs_of(a):
            bo = st.heap.get(b)
            if isinstance(bo, Buf) and bo.fields:
                out += list(bo.fields)
        return out

    def rec_get(self, I, st, node, fr, l, h, idx):
        fs = self.rec_fields(st, h)
        if fs is None or len(idx) != 1 or self.is_slice(idx[0]):
            return unk(I.deepdeps(st, ref(l)))
        c = idx[0].cval()
        if c[0]:
            if isinstance(c[1], str):
                hit = [b for n, b in fs if n == c[1]]
                if not hit:
                    I.event("deferr", node, fr, f"no field of name {c[1]}", definite=True)
                    I.do_raise(st.copy(), "ValueError", node, fr)
                    raise Dead()
            else:
                hit = [fs[c[1]][1]] if -len(fs) <= c[1] < len(fs) else []
        else:
            hit = [b for _, b in fs]
        out = None
        for b in hit:
            bo = st.heap[b]
            e = bo.elem
            ix = h.info[1]
            if ix is not None and ix.term is not None and not bo.multi and e.const is None:
                e = e.w(term=mk("el", b, bo.ver, None, ix.term))
            elif e.const is None:
                e = e.w(term=None)
            out = e if out is None else join(out, e).w(term=None)
        return withdeps(out, idx[0].deps) if out is not None else unk()

    def seq_get(self, I, st, node, fr, l, h, idx, o):
        if len(idx) != 1:
            I.event("deferr", node, fr, "list indices must be integers or slices, not tuple", definite=True)
            I.do_raise(st.copy(), "TypeError", node, fr)
            raise Dead()
        i = idx[0]
        if self.is_slice(i):
            cs = [x.cval() for x in i[1:]]
            if all(c[0] for c in cs):
                s = slice(cs[0][1], cs[1][1], cs[2][1])
                if h.rest is None and not h.multi:
                    return I.new_seq(st, node, fr, h.kind, h.items[s], None, tag="sl", ldeps=h.ldeps)
                if s.step is None and (s.stop is None) and isinstance(s.start, int) and 0 <= s.start <= len(h.items):
                    return I.new_seq(st, node, fr, h.kind, h.items[s.start:], h.rest, tag="sl", ldeps=h.ldeps)
            rest = h.rest
            for x in h.items:
                rest = join(rest, x).w(term=None) if rest is not None else x
            r = I.new_seq(st, node, fr, h.kind, (), rest, tag="sl", ldeps=h.ldeps | self.idxdeps(I, st, [i]))
            rl, = r.refs
            I.slinfo[rl] = (st.heap[rl].ver, self.listterm(st, o), tuple(c[1] if c[0] else "?" for c in cs))
            I.slfrom[rl] = o.refs
            return r
        if i.refs:
            I.event("deferr", node, fr, "list indices must be integers or slices, not " +
                    ("an array" if self.is_arr(st, i) else "a sequence"), definite=not self.is_arr(st, i))
            return unk(I.deepdeps(st, ref(l)) | I.deepdeps(st, i))
        self.fire("seqread", I, st, node, fr, l, h, i)
        c = i.cval()
        if c[0] and isinstance(c[1], int):
            n = len(h.items)
            if 0 <= c[1] < n:
                return h.items[c[1]]
            if h.rest is None and not h.multi:
                if -n <= c[1] < 0:
                    return h.items[c[1]]
                if n == 0 and not h.multi and False:
                    pass
                I.event("deferr", node, fr, f"index {c[1]} is out of range for length {n}", definite=True)
                I.do_raise(st.copy(), "IndexError", node, fr)
                raise Dead()
        out = None
        for x in h.items:
            out = join(out, x).w(term=None) if out is not None else x
        if h.rest is not None:
            out = join(out, h.rest).w(term=None) if out is not None else h.rest
        if out is None:
            # empty container read: unreachable in this abstraction
            raise Dead()
        if out.const is None and not h.multi and i.term is not None:
            out = out.w(term=mk("sq", l, h.ver, i.term))
            if out.kinds & NUMK:
                TT.leafinfo(out.term, out.lo, out.hi, out.nan)
        elif out.const is None:
            out = out.w(term=None)
            if i.term is not None and o.term is not None and len(o.refs) == 1 and TT.node[o.term][0] != "loc":
                out = out.w(term=mk("sqm", o.term, h.ver, i.term))
                if out.kinds & NUMK:
                    TT.leafinfo(out.term, out.lo, out.hi, out.nan)
        return withdeps(I.narrow(out, st), i.deps)

    def dct_get(self, I, st, node, fr, l, h, idx, default=None, haskey=False):
        k = idx[0]
        if not isinstance(k, AV):
            return unk()
        if k.const is not None and k.const[0] == "c":
            for kk, v in h.known:
                if kk == k.const:
                    return v
            if h.key is None and h.default is None and default is None and not h.multi:
                I.event("deferr", node, fr, f"key {k.const[2]!r} is not in the dictionary", definite=True)
                I.do_raise(st.copy(), "KeyError", node, fr)
                raise Dead()
        out = None
        if k.const is None or k.const[0] != "c":
            for kk, v in h.known:
                if not maybe_key(k, kk):
                    continue
                out = join(out, v).w(term=None) if out is not None else v
        if h.key is not None:
            out = join(out, h.val).w(term=None) if out is not None else h.val
        if default is not None:
            out = join(out, default).w(term=None) if out is not None else default
        if h.default is not None:
            d = I.call(h.default, [], {}, st, node, fr)
            h2 = st.heap[l]
            st.heap[l] = h2._replace(key=join(h2.key, k).w(term=None) if h2.key is not None else k.w(term=None),
                                     val=join(h2.val, d).w(term=None) if h2.val is not None else d)
            if h.owner is not None:
                I.event("write", node, fr, h.owner, "dict", "default")
            out = join(out, d).w(term=None) if out is not None else d
        if out is None:
            raise Dead()
        if out.const is None:
            t = None
            if k.term is not None and not h.multi and h.default is None:
                if default is None:
                    t = mk("dv", l, h.ver, k.term)
                elif default.term is not None and haskey:
                    t = mk("dg", l, h.ver, k.term, default.term)
                if t is not None:
                    I.dreads.setdefault(t, set()).add(node._nid)
            out = out.w(term=t)
            if t is not None and out.kinds & NUMK:
                TT.leafinfo(t, out.lo, out.hi, out.nan)
        return withdeps(I.narrow(out, st), k.deps)

    # ------------------------------------------------------------ stores
    def setitem(self, I, st, node, fr, o, idx, v, aug=False):
        idx = self.flat_index(I, st, idx)
        single = len(o.refs) == 1
        for l in sorted(o.refs, key=str):
            h = st.heap.get(l)
            if isinstance(h, Arr):
                self.arr_set(I, st, node, fr, l, h, idx, v, single, aug)
            elif isinstance(h, Seq):
                self.seq_set(I, st, node, fr, l, h, idx, v, single)
            elif isinstance(h, Dct):
                self.dct_set(I, st, node, fr, l, h, idx[0], v, single)
            elif isinstance(h, Ext) and h.kind == "rec":
                fs = self.rec_fields(st, h)
                c = idx[0].cval() if isinstance(idx[0], AV) else (False, None)
                for n, b in fs or ():
                    if not c[0] or n == c[1] or (isinstance(c[1], int) and not isinstance(c[1], str) and fs[c[1]][1] == b):
                        self.buf_store(I, st, node, fr, b, v, E, [h.info[1]], "rec", field=n)
            elif isinstance(h, Obj):
                m = I.prog.find_method(h.cls, "__setitem__")
                if m is not None and isinstance(idx[0], AV):
                    I.call_repo(m, [ref(l), idx[0], v], {}, st, node, fr)
        if not o.refs and o.kinds == KNONE:
            I.event("deferr", node, fr, "None does not support item assignment", definite=True)
            I.do_raise(st.copy(), "TypeError", node, fr)
            raise Dead()

    def buf_store(self, I, st, node, fr, b, v, deps, idx, how, strong=False, field=None, arr=None, term=None, old=None):
        bo = st.heap.get(b)
        if not isinstance(bo, Buf):
            return
        I.event("write", node, fr, bo.owner, "arr", field or how)
        if bo.dt in ("int", "bool") and not bo.multi and self.narrows(v, bo.dt):
            I.event("narrow", node, fr, bo.dt, "number" if v.kinds != KFLOAT else "float")
        self.fire("store", I, st, node, fr, b, bo, arr, idx, v, how, field)
        v = withdeps(v.w(refs=E) if v.refs and v.kinds - KREF else v, deps | st.cd)
        ver = mk("st", node._nid if node is not None else 0, fr.ctx if fr is not None else 0)
        if strong and not bo.multi:
            e = v
            src = None
        else:
            base = old if old is not None else bo.elem
            e = join(base, self.addmark(I, v, v, node, fr)).w(term=None)
            src = None
        e = self.addmark(I, e, v, node, fr)
        e = e.w(term=term)
        if e.const is not None and e.const[0] == "c" and term is None and e.const[2] != "nan":
            e = e.w(term=mk(*e.const))
        nz = E
        if not strong and idx and how == "index" and v.kinds <= NUMK and (v.lo > 0 or v.hi < 0) and not v.nan:
            nz = I.nz_masks(b, bo)
        st.heap[b] = bo._replace(elem=e, ver=ver, src=src, nz=nz)

    @staticmethod
    def narrows(v, dt):
        if any(k == "whole" for k, _ in v.tags):
            return False
        if v.kinds == KFLOAT:
            c = v.cval()
            if c[0]:
                return c[1] == "nan" or c[1] != int(c[1]) if c[1] not in (INF, -INF) else True
            return not (v.term is not None and TT.node[v.term][0] in ("floor", "ceil", "round", "rint", "trunc"))
        if dt == "bool" and v.kinds == KINT:
            return not (v.lo >= 0 and v.hi <= 1)
        return False

    def addmark(self, I, e, v, node, fr):
        """Negative literals stored into an array are sentinel markers."""
        c = v.cval()
        if c[0] and isinstance(c[1], int) and not isinstance(c[1], bool) and c[1] < 0:
            return e.w(marks=e.marks | {(node._nid, c[1])})
        if v.marks:
            return e.w(marks=e.marks | v.marks)
        return e

    def arr_set(self, I, st, node, fr, l, h, idx, v, single, aug):
        shape = h.shape
        x = self.ai(I, st, v)
        val = x.elem
        if len(idx) == 1 and isinstance(idx[0], AV) and idx[0].kinds == KSTR:
            c = idx[0].cval()
            for b in bufs_of(h):
                bo = st.heap.get(b)
                if not (isinstance(bo, Buf) and bo.fields):
                    I.unknown("field store to a plain array", node)
                    continue
                hit = [(n, fb) for n, fb in bo.fields if not c[0] or n == c[1]]
                if val.term is None and self.listterm(st, v) is not None and val.kinds & NUMK:
                    val = val.w(term=self.listterm(st, v))
                if c[0] and not hit:
                    I.event("deferr", node, fr, f"no field of name {c[1]}", definite=True)
                    I.do_raise(st.copy(), "ValueError", node, fr)
                    raise Dead()
                for n, fb in hit:
                    full = h.view is None and c[0] and single and len(bufs_of(h)) == 1 and not h.multi
                    self.buf_store(I, st, node, fr, fb, val, idx[0].deps, [], "field", strong=full, field=n, arr=l, term=val.term)
            return
        nreal = len([i for i in idx if not (isinstance(i, AV) and (i.is_none or "ellipsis" in i.kinds))])
        if shape is not None and nreal > len(shape):
            I.event("deferr", node, fr, f"{nreal} indices for an array of {len(shape)} dimension(s)", definite=True)
            I.do_raise(st.copy(), "IndexError", node, fr)
            raise Dead()
        b0 = st.heap.get(bufs_of(h)[0])
        if isinstance(b0, Buf) and b0.fields:
            I.unknown("row store to a record array", node)
            for b in bufs_of(h):
                for n, fb in st.heap[b].fields or ():
                    self.buf_store(I, st, node, fr, fb, unk(val.deps), self.idxdeps(I, st, idx), idx, "row", field=n, arr=l)
            return
        self.fire("index", I, st, node, fr, l, h, idx, True)
        deps = E
        strong, mask = False, None
        cut = []
        pos = 0
        for i in idx:
            n = shape[pos] if shape is not None and pos < len(shape) else None
            if self.is_slice(i):
                cut.append(self.slice_len(I, n, i))
                pos += 1
                for y in i[1:]:
                    deps |= y.deps
                continue
            if "ellipsis" in i.kinds:
                cut = None
                break
            if i.is_none:
                continue
            deps |= I.deepdeps(st, i)
            y = self.ai(I, st, i)
            if i.refs and y.elem.kinds == KBOOL:
                mask = y
                if shape is not None and y.shape is not None:
                    for j, q in enumerate(y.shape):
                        if pos + j < len(shape) and differ(q, shape[pos + j]):
                            I.event("deferr", node, fr, f"mask of shape {self.shp([y.shape])} for an array of shape {self.shp([shape])}", definite=True)
                            I.do_raise(st.copy(), "IndexError", node, fr)
                            raise Dead()
                pos += len(y.shape) if y.shape is not None else 1
                cut.append(None)
            elif i.refs:
                if y.elem.kinds == KINT:
                    self.wrong_axis(I, st, node, fr, y.elem, n)
                cut.append(y.shape[0] if y.shape and len(y.shape) == 1 else None)
                pos += 1
            else:
                self.bound(I, st, node, fr, i, n)
                pos += 1
        if cut is not None and shape is not None:
            tgt = tuple(cut) + tuple(shape[pos:])
            if x.shape is not None and len(x.shape) and mask is None:
                # value must broadcast to the target
                for p, q in zip(reversed(x.shape), reversed(tgt)):
                    if p is not None and poly_int(p) != 1 and differ(p, q):
                        I.event("deferr", node, fr, f"a value of shape {self.shp([x.shape])} does not fit {self.shp([tgt])}", definite=True)
                        I.do_raise(st.copy(), "ValueError", node, fr)
                        raise Dead()
        full = all((self.is_slice(i) and self.full_slice(i)) or (isinstance(i, AV) and "ellipsis" in i.kinds) for i in idx)
        strong = full and h.view is None and single and len(bufs_of(h)) == 1 and not h.multi
        for b in bufs_of(h):
            bo = st.heap.get(b)
            if not isinstance(bo, Buf):
                continue
            if mask is None and len(idx) == 1 and isinstance(idx[0], AV) and idx[0].refs:
                y = self.ai(I, st, idx[0]).elem
                n = TT.node[y.term] if y.term is not None else ("",)
                if n[0] == "nz":
                    # every position where the mask holds
                    e = self.elt(st, l, h)
                    s2 = State()
                    s2.facts, s2.heap = st.facts, st.heap
                    I.assume(s2, n[1], False)
                    old = I.narrow(e, s2).w(term=bo.elem.term)
                    self.buf_store(I, st, node, fr, b, val, deps, idx, "index", arr=l, old=old)
                    continue
            if mask is not None and len(idx) == 1:
                tv = I.truth(mask.elem, st)
                if tv is False:
                    continue
                e = self.elt(st, l, h)
                vv = val
                if tv is True and h.view is None and single and len(bufs_of(h)) == 1:
                    self.buf_store(I, st, node, fr, b, vv, deps, idx, "mask", strong=True, arr=l, term=vv.term)
                    continue
                old = bo.elem
                if mask.elem.term is not None:
                    s2 = State()
                    s2.facts, s2.heap = st.facts, st.heap
                    I.assume(s2, mask.elem.term, False)
                    old = I.narrow(e, s2).w(term=bo.elem.term)
                    s3 = State()
                    s3.facts, s3.heap = st.facts, st.heap
                    I.assume(s3, mask.elem.term, True)
                    vv = I.narrow(vv, s3)
                t = mkop("ite", mask.elem.term, vv.term, e.term) if h.view is None else None
                self.buf_store(I, st, node, fr, b, vv, deps, idx, "mask", arr=l, term=t, old=old)
                continue
            self.buf_store(I, st, node, fr, b, val, deps, idx, "full" if full else "index", strong=strong, arr=l,
                           term=val.term if strong else None)
        if h.cols is not None:
            st.heap[l] = st.heap[l]._replace(cols=self.cols_after(I, h, idx, val))

    def cols_after(self, I, h, idx, val):
        if len(idx) > h.axis and isinstance(idx[h.axis], AV):
            c = idx[h.axis].cval()
            if c[0] and isinstance(c[1], int) and -len(h.cols) <= c[1] < len(h.cols):
                cs = list(h.cols)
                cs[c[1]] = join(cs[c[1]], val).w(term=None)
                return tuple(cs)
        return tuple(join(c, val).w(term=None) for c in h.cols)

    def seq_write(self, I, st, node, fr, l, what):
        h = st.heap[l]
        self.fire("seqwrite", I, st, node, fr, l, what)
        I.event("write", node, fr, h.owner, "seq", what)

    def seq_set(self, I, st, node, fr, l, h, idx, v, single):
        self.seq_write(I, st, node, fr, l, "item")
        I.adds(st, l, ("s", node._nid, fr.ctx), v)
        if not isinstance(idx[0], AV):
            I.elts[l] = None
        i = idx[0]
        ver = mk("st", node._nid, fr.ctx)
        if isinstance(i, AV):
            c = i.cval()
            n = len(h.items)
            if c[0] and isinstance(c[1], int) and not h.multi and single and (0 <= c[1] < n or (h.rest is None and -n <= c[1] < 0)):
                its = list(h.items)
                its[c[1]] = v
                st.heap[l] = h._replace(items=tuple(its), ver=ver)
                return
            v = withdeps(v, i.deps)
            e = v
        else:
            x = self.iterate(I, st, v, node, fr)
            e = x[1]
            for k in x[0] or ():
                e = join(e, k).w(term=None)
            if e is None:
                e = AV()
            e = withdeps(e, self.idxdeps(I, st, idx))
        items = tuple(join(x, e).w(term=None) for x in h.items)
        rest = join(h.rest, e).w(term=None) if h.rest is not None else (None if isinstance(i, AV) else e)
        st.heap[l] = h._replace(items=items, rest=rest, ver=ver)

    def dct_set(self, I, st, node, fr, l, h, k, v, single, how="set"):
        I.event("write", node, fr, h.owner, "dict", "item")
        self.fire("dictset", I, st, node, fr, l, h, k, v)
        ver = mk("st", node._nid, fr.ctx)
        if I.dputs.get(l) is not None:
            if isinstance(k, AV) and single:
                I.dputs[l][(how, node._nid, fr.ctx)] = (how, st.facts, k.term, v.term)
            else:
                I.dputs[l] = None
        v = withdeps(v, st.cd)
        if not isinstance(k, AV):
            return
        if k.const is not None and k.const[0] == "c":
            d = dict(h.known)
            if single and not h.multi:
                if k.const in d or h.key is None or k.const[1] in ("int", "str"):
                    d[k.const] = v
                    if len(d) <= 40:
                        st.heap[l] = h._replace(known=tuple(d.items()), ver=ver)
                        return
            elif k.const in d:
                d[k.const] = join(d[k.const], v).w(term=None)
                st.heap[l] = h._replace(known=tuple(d.items()), ver=ver)
                return
        else:
            known = tuple((kk, join(vv, v).w(term=None) if maybe_key(k, kk) else vv) for kk, vv in h.known)
            h = h._replace(known=known)
        key = join(h.key, k).w(term=None) if h.key is not None else k.w(term=None)
        val = join(h.val, self.addmark(I, v, v, node, fr)).w(term=None) if h.val is not None else v
        val = self.addmark(I, val, v, node, fr)
        st.heap[l] = h._replace(key=key, val=val, ver=ver, ldeps=h.ldeps | k.deps | st.cd)

    def delitem(self, I, st, node, fr, c, i):
        for l in c.refs:
            h = st.heap.get(l)
            if isinstance(h, Dct):
                I.event("write", node, fr, h.owner, "dict", "del")
                I.dputs[l] = None
                if isinstance(i, AV) and i.const is not None:
                    st.heap[l] = h._replace(known=tuple(x for x in h.known if x[0] != i.const), ver=mk("st", node._nid, fr.ctx))
            elif isinstance(h, Seq):
                self.seq_write(I, st, node, fr, l, "del")
                rest = h.rest
                for x in h.items:
                    rest = join(rest, x).w(term=None)
                st.heap[l] = h._replace(items=(), rest=rest, ver=mk("st", node._nid, fr.ctx), lenpoly=None)

    def inplace(self, I, st, node, fr, cur, op, rhs):
        on = type(op).__name__
        for l in sorted(cur.refs, key=str):
            h = st.heap.get(l)
            if isinstance(h, Arr):
                x = self.ai(I, st, rhs)
                sh = self.broadcast(I, st, node, fr, h.shape, x.shape) if h.shape is not None else None
                if sh is not None and h.shape is not None and len(sh) != len(h.shape):
                    I.event("deferr", node, fr, "in-place result does not fit", definite=True)
                e = self.elt(st, l, h)
                v = scalar_binop(on, e, x.elem, I)
                self.fire("arith", I, st, node, fr, on, cur, rhs, cur)
                strong = h.view is None and len(bufs_of(h)) == 1 and len(cur.refs) == 1 and not h.multi
                for b in bufs_of(h):
                    self.buf_store(I, st, node, fr, b, v, E, [], "inplace", strong=strong, arr=l, term=v.term if strong else None)
                if h.cols is not None:
                    st.heap[l] = st.heap[l]._replace(cols=tuple(scalar_binop(on, c, x.elem, I) for c in h.cols))
            elif isinstance(h, Seq):
                if on == "Add":
                    self.seq_write(I, st, node, fr, l, "extend")
                    I.recv[(node._nid, fr.ctx)] = cur.term
                    self.fire("pushall", I, st, node, fr, l, h, rhs)
                    self.extend(I, st, node, fr, l, rhs)
                elif on == "Mult":
                    self.seq_write(I, st, node, fr, l, "repeat")
                    r = self.seq_repeat(I, st, node, fr, h, rhs)
                    o = st.heap[next(iter(r.refs))]
                    st.heap[l] = h._replace(items=o.items, rest=o.rest, lenpoly=o.lenpoly, ver=mk("st", node._nid, fr.ctx))
                else:
                    self.seq_write(I, st, node, fr, l, on)
                    if on in ("BitOr", "BitXor"):
                        self.extend(I, st, node, fr, l, rhs)
                    elif on in ("Sub", "BitAnd"):
                        rest = h.rest
                        for x in h.items:
                            rest = join(rest, x).w(term=None)
                        st.heap[l] = h._replace(items=(), rest=rest, ver=mk("st", node._nid, fr.ctx), ldeps=h.ldeps | I.deepdeps(st, rhs))
            elif isinstance(h, Dct):
                self.dct_update(I, st, node, fr, l, [rhs], {})

    def extend(self, I, st, node, fr, l, v, front=False):
        h = st.heap[l]
        known, elem, ld = self.iterate(I, st, v, node, fr)
        for i, k in enumerate(known or ()):
            I.adds(st, l, ("x", node._nid, fr.ctx, i), k)
        if elem is not None and I.elts.get(l) is not None:
            d = I.elts.get(next(iter(v.refs))) if len(v.refs) == 1 else None
            I.elts[l] = {**I.elts[l], **d} if d is not None else None
        ver = mk("st", node._nid, fr.ctx, "x")
        p, _ = self.seqlen(I, st, v)
        mine = poly_const(len(h.items)) if h.rest is None and not h.multi else h.lenpoly
        lp = poly_add(mine, p) if p is not None and mine is not None else None
        ld = h.ldeps | ld | st.cd
        if known is not None and h.rest is None and not h.multi and len(h.items) + len(known) <= 24:
            st.heap[l] = h._replace(items=h.items + tuple(withdeps(k, st.cd) for k in known), ver=ver, ldeps=ld, lenpoly=lp)
            return
        rest = h.rest
        for k in known or ():
            rest = join(rest, k).w(term=None)
        if elem is not None:
            rest = join(rest, elem).w(term=None)
        if rest is not None:
            rest = withdeps(rest, st.cd)
        st.heap[l] = h._replace(rest=rest, ver=ver, ldeps=ld, lenpoly=lp)

    def dict_of(self, st, v):
        ds = [st.heap.get(l) for l in v.refs]
        if len(ds) == 1 and isinstance(ds[0], Dct):
            return ds[0]
        return None

    # ------------------------------------------------------------ attributes
    def ref_attr(self, I, st, l, h, name, node, fr, ):
        if isinstance(h, Arr):
            return self.arr_attr(I, st, l, h, name, node, fr)
        if isinstance(h, Grid):
            return self.grid_attr(I, st, l, h, name, node, fr)
        if isinstance(h, Ext):
            if h.kind == "geo" and name == "points":
                return h.info[0]
            if h.kind == "rec":
                fs = self.rec_fields(st, h) or []
                if any(n == name for n, _ in fs):
                    return self.rec_get(I, st, node, fr, l, h, [cst(name)])
            if h.kind == "ndarrayattr":
                return unk()
            if h.kind == "dtype" and name == "names":
                return h.info[0]
            if h.kind == "dtype" and name == "descr":
                return h.info[0]
            if h.kind in ("file", "iter", "rec", "geo", "unknown", "dtype"):
                return AV(KFN, fns=frozenset({("m", name, l)}))
            return unk(I.deepdeps(st, ref(l)))
        return AV(KFN, fns=frozenset({("m", name, l)}), term=None)

    def arr_attr(self, I, st, l, h, name, node, fr):
        if name == "shape":
            if h.shape is None:
                return I.new_seq(st, node, fr, "tuple", (), num("int", 0, INF, deps=h.ldeps), tag="shape", ldeps=h.ldeps)
            items = [polyav(p, h.ldeps) if p is not None else
                     num("int", 0.0, INF, deps=h.ldeps, term=mk("dim", l, i, st.heap[bufs_of(h)[0]].ver if not isinstance(h.buf, tuple) or h.buf[0] != "U" else 0))
                     for i, p in enumerate(h.shape)]
            return I.new_seq(st, node, fr, "tuple", items, None, tag="shape")
        if name == "size":
            p = psize(h.shape)
            if p is not None:
                return polyav(p, h.ldeps)
            return num("int", 0.0, INF, deps=h.ldeps, term=mk("size", l))
        if name == "ndim":
            return cst(len(h.shape)) if h.shape is not None else num("int", 0.0, 10.0)
        if name == "T":
            sh = tuple(reversed(h.shape)) if h.shape is not None else None
            ax = 0
            if h.cols is not None and h.shape is not None:
                ax = len(h.shape) - 1 - h.axis
            if h.shape is not None and len(h.shape) == 1:
                return ref(l)
            return I.new_view(st, node, fr, h, sh, mk("T", h.view), "T", cols=h.cols if h.shape is not None else None, axis=ax)
        if name == "dtype":
            b = st.heap.get(bufs_of(h)[0])
            names = [n for n, _ in (b.fields or ())] if isinstance(b, Buf) else []
            items = []
            for n in names:
                k = I.key(("dt", n), node, fr)
                st.heap[k] = Seq("tuple", (cst(n), strav()))
                items.append(ref(k))
            s = I.new_seq(st, node, fr, "list", items if names else (), None if names else unk(), tag="descr")
            key = I.key("dtype", node, fr)
            st.heap[key] = Ext("dtype", (s,))
            return ref(key)
        if name == "flat":
            return ref(l)
        if name in ("real",):
            return ref(l)
        b = st.heap.get(bufs_of(h)[0])
        if isinstance(b, Buf) and b.fields and any(n == name for n, _ in b.fields):
            return self.field_get(I, st, node, fr, l, h, cst(name))
        return AV(KFN, fns=frozenset({("m", name, l)}))

    # ---- flopy grids
    def grid_attr(self, I, st, l, h, name, node, fr):
        self.fire("gridattr", I, st, node, fr, h, name)
        v = h.get(name)
        if name in ("top", "_top", "botm", "delr", "delc", "xcellcenters", "ycellcenters", "idomain", "_idomain", "_botm", "xyzcellcenters"):
            if name in ("delr", "delc") and h.kind != "structured":
                I.attr_error(st, h.kind.capitalize() + "Grid", name, node, fr)
            src = h.get(name.lstrip("_"))
            if src is None:
                return unk(frozenset({"grid"}))
            if name.startswith("_"):
                return src
            x = self.ai(I, st, src)
            t = mk("gridf", name.lstrip("_"), src.term)
            e = x.elem
            return I.new_arr(st, node, fr, e, x.shape, "g:" + name, x.ldeps)
        if name in ("nrow", "ncol") and h.kind != "structured":
            I.attr_error(st, h.kind.capitalize() + "Grid", name, node, fr)
        if v is not None:
            return v
        if name == "cross_section_vertices":
            n = self.ncell
            xs = [I.new_arr(st, node, fr, num("float", deps=frozenset({f"{l[0]}:verts"})), (n, None), "csv" + c) for c in "xy"]
            return I.new_seq(st, node, fr, "tuple", xs, None, tag="csv")
        if name in ("get_lrc", "get_rc_from_node_coordinates", "get_layer_node_range") and h.kind != "structured" and name == "get_lrc":
            I.attr_error(st, h.kind.capitalize() + "Grid", name, node, fr)
        if name in ("get_lni",) and h.kind == "structured":
            I.attr_error(st, "StructuredGrid", name, node, fr)
        if name == "shape" or name == "extent":
            return unk(frozenset({"grid"}))
        if name in ("neighbors", "get_node", "get_lrc", "intersect", "get_cell_vertices", "get_lni", "set_coord_info", "is_complete"):
            return AV(KFN, fns=frozenset({("m", name, l)}))
        I.unknown("grid." + name, node)
        return unk(frozenset({"grid"}))

    def grid_call(self, I, st, node, fr, l, h, name, args, kwargs):
        def arg(i, k, d):
            if i < len(args):
                return args[i]
            return kwargs.get(k, d)
        if name == "neighbors":
            nd = arg(0, "node", c_none())
            m = kwargs.get("method", cst("rook"))
            if len(args) > 1:
                m = unk()
            c = m.cval()
            meth = c[1] if c[0] else None
            rs = kwargs.get("reset", cst(False)).cval()
            reset = rs[1] if rs[0] else None
            cache = h.ncache
            if reset is True or cache is None:
                kind = meth or "?"
            elif reset is False:
                kind = cache
            else:
                kind = "?"
            st.heap[l] = h._replace(ncache=kind)
            self.fire("neighbors", I, st, node, fr, meth, reset, kind)
            lab = frozenset({"neigh:" + kind, f"{l[0]}:neigh"})
            t = self.lentag(self.ncell)
            item = AV(KINT, None, 0.0, INF, False, E, lab, E, E, None, t)
            lk = ("gridneigh", kind, l)
            if lk not in st.heap:
                st.heap[lk] = Seq("list", (), item, lab, "grid:neighbors", 0, True)
            if not nd.is_none:
                return ref(lk, lab | nd.deps)
            dk = ("gridneighd", kind, l)
            if dk not in st.heap:
                key = AV(KINT, None, 0.0, INF, False, E, E, E, E, None, t)
                st.heap[dk] = Dct((), key, ref(lk, lab), E, "grid:neighbors", 0, False)
            return ref(dk, lab, term=mk("loc", dk))
        if name == "get_node":
            x = self.iterate(I, st, args[0] if args else unk(), node, fr)
            es = list(x[0] or []) + ([x[1]] if x[1] is not None else [])
            deps, got = E, []
            for e in es:
                deps |= I.deepdeps(st, e)
                rows = self.row_items(st, e)
                self.fire("get_node", I, st, node, fr, rows, h.kind)
                got.append(rows)
            r = AV(KINT, None, 0.0, INF, False, E, deps | frozenset({"grid"}), E, E, None, self.lentag(self.ncell))
            named = []
            for rows in got:
                q = r
                if x[0] is not None and rows and len(rows) == 3 and all(y.term is not None for y in rows):
                    ns = [TT.node[y.term] for y in rows[1:]]
                    if all(y[0] == "lrc" for y in ns) and (ns[0][1], ns[1][1]) == ("row", "col") and ns[0][2] == ns[1][2]:
                        q = r.w(term=ns[0][2])
                    else:
                        q = r.w(term=mk("nodeof", rows[1].term, rows[2].term))
                        TT.leafinfo(q.term, 0.0, INF, False)
                if x[0] is not None and rows and len(rows) == 3:
                    k = rows[0].cval()
                    if k[0] and type(k[1]) is int and k[1]:
                        # a cell of another layer than the first
                        q = r.w(term=None, tags=frozenset({("below", 0)})) if k[1] > 0 else r.w(term=None, lo=-INF, hi=-1.0, tags=E)
                    elif rows[0].const is not None and rows[0].const[0] == "p":
                        # a layer that depends on the size of the grid is the first one on some grids only
                        q = r.w(term=None, tags=frozenset({("below", 0)}))
                named.append(q)
            n = poly_const(len(x[0])) if x[0] is not None else None
            return I.new_seq(st, node, fr, "list", named if x[0] is not None else (), None if x[0] is not None else r,
                             tag="gn", lenpoly=n)
        if name == "get_lrc":
            d = I.deepdeps(st, args[0]) if args else E
            self.fire("get_lrc", I, st, node, fr, args)
            at = None
            if args and not args[0].refs and args[0].kinds <= NUMK:
                at = args[0].term
            elif args:
                x = self.iterate(I, st, args[0], node, fr)
                at = x[0][0].term if x[0] is not None and len(x[0]) == 1 and x[1] is None and not x[0][0].refs else None
            mkd = lambda tag: AV(KINT, None, 0.0, INF, False, E, d, E, E, mk("lrc", tag, at) if at is not None else None, frozenset({(tag, 0)}))
            items = (mkd("lay"), mkd("row"), mkd("col"))
            key = I.key("lrc", node, fr)
            key = I.alloc(st, key, Seq("tuple", items))
            for x in items if at is not None else ():
                TT.leafinfo(x.term, 0.0, INF, False)
            return I.new_seq(st, node, fr, "list", [ref(key, d)], None, tag="lrcl")
        if name == "intersect":
            d = E
            for a in list(args) + list(kwargs.values()):
                d |= I.deepdeps(st, a)
            d |= frozenset({"grid"})
            mkd = lambda tag: AV(KINT, None, 0.0, INF, False, E, d, E, E, None, frozenset({(tag, 0)}))
            if h.kind == "structured":
                items = [mkd("row"), mkd("col")]
                if "z" in kwargs or len(args) > 2:
                    items = [mkd("lay")] + items
                return I.new_seq(st, node, fr, "tuple", items, None, tag="ix")
            if "z" in kwargs or len(args) > 2:
                return I.new_seq(st, node, fr, "tuple", [mkd("lay"), mkd("node")], None, tag="ix")
            x = mkd("node")
            return x.w(tags=x.tags | {("plain", 0)})
        I.unknown("grid." + name, node)
        d = frozenset({"grid"})
        for a in list(args) + list(kwargs.values()):
            d |= I.deepdeps(st, a)
        return unk(d)

    # ------------------------------------------------------------ calls
    def call_ext(self, I, st, node, fr, fn, args, kwargs, star, kwstar):
        k = fn[0]
        if star is not None:
            args = list(args) + [star]
        if k == "m":
            return self.method(I, st, node, fr, fn[2], fn[1], list(args), dict(kwargs), star)
        if k == "np":
            return self.np_call(I, st, node, fr, fn[1], list(args), dict(kwargs))
        if k == "py":
            return self.py_call(I, st, node, fr, fn[1], list(args), dict(kwargs), star)
        if k == "sm":
            return self.str_method(I, st, node, fr, fn, args, kwargs)
        if k == "nm":
            return self.num_method(I, st, node, fr, fn, args, kwargs)
        if k == "ext":
            return self.ext_call(I, st, node, fr, fn[1], list(args), dict(kwargs))
        if k == "partial":
            return I.call(fn[1], list(fn[2]) + list(args), kwargs, st, node, fr)
        return self.opaque(I, st, node, fr, str(fn), args, kwargs)

    def opaque(self, I, st, node, fr, what, args, kwargs):
        I.unknown("call " + what, node)
        d = st.cd
        for a in list(args) + list(kwargs.values()):
            d |= I.deepdeps(st, a)
        return unk(d)

    def str_method(self, I, st, node, fr, fn, args, kwargs):
        name, const = fn[1], fn[2]
        d = E
        for a in list(args) + list(kwargs.values()):
            d |= I.deepdeps(st, a)
        if const is not None and const[0] == "c" and isinstance(const[2], str) and all(a.cval()[0] for a in args) and not kwargs:
            try:
                r = getattr(const[2], name)(*[a.cval()[1] for a in args])
                if isinstance(r, (str, bool, int)):
                    return cst(r, d)
            except Exception:
                pass
        if name in ("startswith", "endswith", "isdigit", "isalpha", "isupper", "islower"):
            return boolav(d)
        if name in ("find", "index", "count", "rfind"):
            return num("int", deps=d)
        if name in ("split", "rsplit", "splitlines", "partition"):
            return I.new_seq(st, node, fr, "list", (), strav(d), tag="split")
        return strav(d)

    def num_method(self, I, st, node, fr, fn, args, kwargs):
        f = None
        import ast
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            try:
                f = I.ev(node.func.value, st, fr)
            except Dead:
                f = None
        if f is None:
            return unk()
        name = fn[1]
        f = f.w(kinds=f.kinds & NUMK or f.kinds, refs=E) if f.kinds & NUMK else f
        if name in ("item", "copy", "ravel", "tolist", "squeeze", "flatten", "reshape", "min", "max", "sum", "mean", "astype", "conjugate"):
            if name == "astype" and args and args[0].fns and next(iter(args[0].fns))[-1] == "int":
                return f.w(kinds=KINT)
            return f
        if name in ("is_integer", "any", "all"):
            return boolav(f.deps)
        if name in ("bit_length",):
            return num("int", 0.0, deps=f.deps)
        return f.w(term=None, const=None, lo=-INF, hi=INF, tags=E)

    # ---- methods of heap objects
    def method(self, I, st, node, fr, l, name, args, kwargs, star):
        h = st.heap.get(l)
        if isinstance(h, Grid):
            return self.grid_call(I, st, node, fr, l, h, name, args, kwargs)
        if isinstance(h, Arr):
            return self.arr_method(I, st, node, fr, l, h, name, args, kwargs)
        if isinstance(h, Seq):
            return self.seq_method(I, st, node, fr, l, h, name, args, kwargs)
        if isinstance(h, Dct):
            return self.dct_method(I, st, node, fr, l, h, name, args, kwargs)
        if isinstance(h, Ext):
            if h.kind == "file":
                if name in ("write", "read", "readlines", "close", "flush"):
                    d = E
                    for a in args:
                        d |= I.deepdeps(st, a)
                    I.event("filecall", node, fr, l, name)
                    self.fire("filecall", I, st, node, fr, l, h, name, args)
                    if name == "close":
                        st.heap[l] = h._replace(info=h.info[:1] + ("closed",))
                    if name == "read":
                        return AV(KSTR, ("bytes", l, None), deps=d, term=mk("filebytes", l))
                    return unk(d)
            if h.kind == "rec" and name in ("tolist", "copy", "item"):
                fs = self.rec_fields(st, h) or []
                return I.new_seq(st, node, fr, "tuple", [st.heap[b].elem.w(term=None) for _, b in fs], None, tag="rectup")
        return self.opaque(I, st, node, fr, "method " + name, [ref(l)] + args, kwargs)

    def arr_method(self, I, st, node, fr, l, h, name, args, kwargs):
        me = ref(l, term=mk("loc", l))
        np1 = {"copy": "copy", "ravel": "ravel", "min": "min", "max": "max", "sum": "sum", "mean": "mean", "argmin": "argmin",
               "argmax": "argmax", "nonzero": "nonzero", "any": "any", "all": "all", "clip": "clip", "round": "round",
               "argsort": "argsort", "cumsum": "cumsum", "take": "take", "squeeze": "squeeze", "flatten": "copy1d",
               "transpose": "transpose", "prod": "prod", "std": "std", "searchsorted": "searchsorted", "repeat": "repeat",
               "swapaxes": "transpose", "diagonal": "diagonal", "astype": "astype", "reshape": "reshape"}
        if name == "reshape":
            if len(args) > 1:
                s = I.new_seq(st, node, fr, "tuple", args, None, tag="rs")
                return self.np_call(I, st, node, fr, "reshape", [me, s], kwargs)
            return self.np_call(I, st, node, fr, "reshape", [me] + args, kwargs)
        if name in np1:
            return self.np_call(I, st, node, fr, np1[name], [me] + args, kwargs)
        if name == "tolist":
            x = self.ai(I, st, me)
            if h.shape is not None and len(h.shape) == 1:
                if h.cols is not None:
                    return I.new_seq(st, node, fr, "list", h.cols, None, tag="tl")
                return self.madefrom(I, st, I.new_seq(st, node, fr, "list", (), x.elem.w(term=None) if x.elem.const is None else x.elem, tag="tl", ldeps=x.ldeps, lenpoly=h.shape[0]), "of", me, I.stamp(st, me))
            if h.shape is not None and len(h.shape) == 2:
                k = I.key("tl2", node, fr)
                if h.cols is not None and h.axis == 1:
                    k = I.alloc(st, k, Seq("list", tuple(h.cols)))
                else:
                    k = I.alloc(st, k, Seq("list", (), x.elem.w(term=None), x.ldeps, None, 0, True))
                return I.new_seq(st, node, fr, "list", (), ref(k), tag="tl", ldeps=x.ldeps, lenpoly=h.shape[0])
            return I.new_seq(st, node, fr, "list", (), x.elem.w(term=None, kinds=x.elem.kinds | KUNK), tag="tl", ldeps=x.ldeps)
        if name == "view":
            return me
        if name == "item":
            return self.elt(st, l, h).w(term=None)
        if name in ("sort", "partition"):
            for b in bufs_of(h):
                bo = st.heap[b]
                I.event("write", node, fr, bo.owner, "arr", name)
                st.heap[b] = bo._replace(elem=bo.elem.w(term=None), ver=mk("st", node._nid, fr.ctx), nz=E)
            return c_none()
        if name == "fill":
            self.arr_set(I, st, node, fr, l, h, [("slice", c_none(), c_none(), c_none())], args[0], True, False)
            return c_none()
        if name in ("put", "itemset"):
            self.arr_set(I, st, node, fr, l, h, args[:1], args[-1], True, False)
            return c_none()
        if name == "resize":
            for b in bufs_of(h):
                I.event("write", node, fr, st.heap[b].owner, "arr", name)
            return c_none()
        if name in ("dot",):
            return unk(I.deepdeps(st, me))
        if name == "setflags":
            return c_none()
        if name in ("__len__",):
            return self.py_call(I, st, node, fr, "len", [me], {}, None)
        return self.opaque(I, st, node, fr, "array method " + name, [me] + args, kwargs)

    def seq_put(self, I, st, node, fr, l, v, where):
        """Insert a value at 'end', 'front' or 'any'."""
        h = st.heap[l]
        self.seq_write(I, st, node, fr, l, "insert")
        self.fire("push", I, st, node, fr, l, h, v, where)
        I.adds(st, l, ("p", node._nid, fr.ctx), v)
        v = self.guardtags(st.facts, withdeps(v, st.cd))
        ver = mk("st", node._nid, fr.ctx)
        lp = poly_add(h.lenpoly, ONE) if h.lenpoly is not None and not h.multi and h.rest is not None else None
        ld = h.ldeps | st.cd
        if h.kind in ("set", "frozenset"):
            ld = ld | v.deps
        if not h.multi:
            if where == "end" and h.rest is None and len(h.items) < 24:
                st.heap[l] = h._replace(items=h.items + (v,), ver=ver, ldeps=ld)
                return
            if where == "front" and (h.items or h.rest is None) and len(h.items) < 24:
                st.heap[l] = h._replace(items=(v,) + h.items, ver=ver, ldeps=ld, lenpoly=lp)
                return
        v = v.w(term=None) if v.const is None else v
        if where == "front" or where == "any":
            rest = h.rest
            for x in h.items:
                rest = join(rest, x).w(term=None)
            rest = join(rest, v).w(term=None)
            st.heap[l] = h._replace(items=(), rest=rest, ver=ver, ldeps=ld, lenpoly=lp)
        else:
            rest = join(h.rest, v).w(term=None)
            st.heap[l] = h._replace(rest=rest, ver=ver, ldeps=ld, lenpoly=lp)

    def seq_pop(self, I, st, node, fr, l, idx):
        h = st.heap[l]
        self.seq_write(I, st, node, fr, l, "pop")
        ver = mk("st", node._nid, fr.ctx)
        self.fire("pop", I, st, node, fr, l, h, idx)
        if not h.items and h.rest is None and not h.multi:
            raise Dead()
        t = mk("pop", node._nid, fr.ctx)
        if not h.multi and idx is not None and h.items:
            if h.rest is None:
                its = list(h.items)
                try:
                    v = its.pop(idx)
                except IndexError:
                    raise Dead()
                st.heap[l] = h._replace(items=tuple(its), ver=ver)
                return v
            if 0 <= idx < len(h.items):
                its = list(h.items)
                v = its.pop(idx)
                st.heap[l] = h._replace(items=tuple(its), ver=ver, lenpoly=None)
                return v
        v = None
        for x in h.items:
            v = join(v, x).w(term=None) if v is not None else x
        if h.rest is not None:
            v = join(v, h.rest).w(term=None) if v is not None else h.rest
        if h.rest is not None or h.multi:
            # any element may be gone
            rest = v.w(term=None)
            st.heap[l] = h._replace(items=(), rest=rest, ver=ver, lenpoly=None)
        else:
            its = h.items[:-1]
            rest = v.w(term=None) if its else None
            st.heap[l] = h._replace(items=(), rest=rest, ver=ver, lenpoly=None)
        if v.const is None:
            v = self.rename(I, st, v, t, node, fr)
        return withdeps(v, h.ldeps)

    def seq_method(self, I, st, node, fr, l, h, name, args, kwargs):
        me = ref(l)
        if name in ("append", "add", "appendleft", "push"):
            if h.kind in ("set",) and name == "add":
                self.seq_put(I, st, node, fr, l, args[0], "any" if h.rest is not None or len(h.items) >= 8 else "end")
            else:
                self.seq_put(I, st, node, fr, l, args[0], "front" if name == "appendleft" else "end")
            return c_none()
        if name == "insert":
            c = args[0].cval()
            self.seq_put(I, st, node, fr, l, args[1], "front" if c[0] and c[1] == 0 else "any")
            return c_none()
        if name in ("extend", "update", "extendleft", "difference_update", "intersection_update", "symmetric_difference_update"):
            self.seq_write(I, st, node, fr, l, "extend")
            if name in ("extend", "update", "extendleft"):
                for a in args:
                    self.fire("pushall", I, st, node, fr, l, h, a)
                    self.extend(I, st, node, fr, l, a)
            return c_none()
        if name in ("pop", "popleft"):
            if name == "popleft":
                idx = 0
            elif h.kind == "set":
                idx = None
            elif args:
                c = args[0].cval()
                idx = c[1] if c[0] and isinstance(c[1], int) else None
            else:
                idx = -1
            return self.seq_pop(I, st, node, fr, l, idx)
        if name in ("remove", "discard"):
            self.seq_write(I, st, node, fr, l, "remove")
            rest = h.rest
            for x in h.items:
                rest = join(rest, x).w(term=None)
            st.heap[l] = h._replace(items=(), rest=rest, ver=mk("st", node._nid, fr.ctx), ldeps=h.ldeps | args[0].deps, lenpoly=None)
            return c_none()
        if name == "clear":
            self.seq_write(I, st, node, fr, l, "clear")
            st.heap[l] = h._replace(items=(), rest=None, ver=mk("st", node._nid, fr.ctx), lenpoly=None)
            return c_none()
        if name in ("index", "count"):
            p, d = self.seqlen(I, st, me)
            dd = I.deepdeps(st, me) | args[0].deps
            return self.posav(p, dd).w(term=None) if name == "index" else num("int", 0.0, INF, deps=dd)
        if name in ("sort", "reverse"):
            self.seq_write(I, st, node, fr, l, name)
            rest = h.rest
            for x in h.items:
                rest = join(rest, x).w(term=None)
            st.heap[l] = h._replace(items=(), rest=rest, ver=mk("st", node._nid, fr.ctx),
                                    lenpoly=h.lenpoly if h.rest is not None else poly_const(len(h.items))) if rest is not None else h
            return c_none()
        if name == "copy":
            k = I.alloc(st, I.key("cp", node, fr), h._replace(owner=None, multi=False))
            I.elts[k] = dict(I.elts[l]) if I.elts.get(l) is not None else None
            return ref(k, term=mk("loc", k))
        if name in ("union", "difference", "intersection", "symmetric_difference"):
            rest, ld = h.rest, h.ldeps
            for x in h.items:
                rest = join(rest, x).w(term=None)
            for a in args:
                kn, el, d2 = self.iterate(I, st, a, node, fr)
                ld |= d2
                if name in ("union", "symmetric_difference"):
                    for x in kn or ():
                        rest = join(rest, x).w(term=None)
                    if el is not None:
                        rest = join(rest, el).w(term=None)
            return I.new_seq(st, node, fr, h.kind, (), rest, tag="un", ldeps=ld)
        if name in ("issubset", "issuperset", "isdisjoint"):
            return boolav(I.deepdeps(st, me) | I.deepdeps(st, args[0]))
        if name == "__len__":
            return self.py_call(I, st, node, fr, "len", [me], {}, None)
        return self.opaque(I, st, node, fr, "sequence method " + name, [me] + args, kwargs)

    def dct_update(self, I, st, node, fr, l, args, kwargs):
        for a in args:
            for dl in a.refs:
                d = st.heap.get(dl)
                if isinstance(d, Dct):
                    for k, v in d.known:
                        self.dct_set(I, st, node, fr, l, st.heap[l], cst(k[2]), v, True)
                    if d.key is not None:
                        self.dct_set(I, st, node, fr, l, st.heap[l], d.key, d.val, True)
                else:
                    self.dct_set(I, st, node, fr, l, st.heap[l], unk(), unk(I.deepdeps(st, a)), True)
        for k, v in kwargs.items():
            self.dct_set(I, st, node, fr, l, st.heap[l], cst(k), v, True)

    def dct_method(self, I, st, node, fr, l, h, name, args, kwargs):
        me = ref(l, term=mk("loc", l))
        if name == "get":
            d = args[1] if len(args) > 1 else c_none()
            return self.dct_get(I, st, node, fr, l, h._replace(default=None), [args[0]], default=d, haskey=True)
        if name in ("items", "keys", "values"):
            return self.mkiter(I, st, node, fr, name, me)
        if name == "setdefault":
            d = args[1] if len(args) > 1 else c_none()
            k = args[0]
            if k.const is not None and any(kk == k.const for kk, _ in h.known):
                return self.dct_get(I, st, node, fr, l, h, [k])
            had = h.key is not None or h.known
            t = d.term
            old = self.dct_get(I, st, node, fr, l, h._replace(default=None), [k], default=d) if had else d
            self.dct_set(I, st, node, fr, l, h, k, d if not had else old, True, "first")
            if I.dputs.get(l) is not None:
                I.dputs[l][("first", node._nid, fr.ctx)] = ("first", st.facts, k.term, t)
            return old
        if name == "pop":
            I.event("write", node, fr, h.owner, "dict", "pop")
            d = args[1] if len(args) > 1 else None
            k = args[0]
            if k.const is not None and k.const[0] == "c":
                for kk, v in h.known:
                    if kk == k.const:
                        st.heap[l] = h._replace(known=tuple(x for x in h.known if x[0] != kk), ver=mk("st", node._nid, fr.ctx))
                        I.dputs[l] = None
                        return v
                if h.key is None and not h.multi:
                    if d is not None:
                        return d
            r = self.dct_get(I, st, node, fr, l, h._replace(default=None), [k], default=d)
            st.heap[l] = st.heap[l]._replace(ver=mk("st", node._nid, fr.ctx))
            I.dputs[l] = None
            return r
        if name == "update":
            self.dct_update(I, st, node, fr, l, args, kwargs)
            return c_none()
        if name == "copy":
            k = I.alloc(st, I.key("cp", node, fr), h._replace(owner=None, multi=False))
            I.dputs[k] = dict(I.dputs[l]) if I.dputs.get(l) is not None else None
            return ref(k, term=mk("loc", k))
        if name == "clear":
            I.event("write", node, fr, h.owner, "dict", "clear")
            I.dputs[l] = None
            st.heap[l] = h._replace(known=(), key=None, val=None, ver=mk("st", node._nid, fr.ctx))
            return c_none()
        if name == "popitem":
            I.event("write", node, fr, h.owner, "dict", "pop")
            I.dputs[l] = None
            return self.tup(I, st, node, fr, "pi", [h.key or unk(), h.val or unk()])
        return self.opaque(I, st, node, fr, "dict method " + name, [me] + args, kwargs)

    # ---- builtins
    def py_call(self, I, st, node, fr, name, args, kwargs, star):
        d = E
        for a in list(args) + list(kwargs.values()):
            d |= a.deps
        if name == "noop" or name == "print":
            for a in args:
                if a.refs:
                    pass
            return c_none()
        if name in EXCNAMES:
            return unk(d)
        if name == "len":
            p, dd = self.seqlen(I, st, args[0])
            if not args[0].refs and args[0].kinds and args[0].kinds <= NUMK | KNONE:
                I.event("deferr", node, fr, "object has no len()", definite=True)
                I.do_raise(st.copy(), "TypeError", node, fr)
                raise Dead()
            if args[0].cval()[0] and isinstance(args[0].cval()[1], str):
                return cst(len(args[0].cval()[1]), d)
            if p is not None:
                return polyav(p, dd)
            t = None
            if len(args[0].refs) == 1:
                l, = args[0].refs
                o = st.heap.get(l)
                ver = getattr(o, "ver", 0)
                if isinstance(o, Arr):
                    ver = st.heap[bufs_of(o)[0]].ver
                t = mk("len", l, ver)
            return num("int", float(self.minlen(st, args[0])), INF, deps=dd, term=t)
        if name == "range":
            a = list(args)
            start, stop, step = cst(0), None, cst(1)
            if len(a) == 1:
                stop = a[0]
            elif len(a) >= 2:
                start, stop = a[0], a[1]
                if len(a) > 2:
                    step = a[2]
            if stop is None or (stop.refs and not (stop.kinds & NUMK)):
                if stop is not None and stop.refs and "unk" not in stop.kinds:
                    x = self.ai(I, st, stop)
                    if x.isarr and x.shape is not None and len(x.shape) and poly_int(psize(x.shape) or E) != 1:
                        I.event("deferr", node, fr, "an array is used as a range bound", definite=True)
                        I.do_raise(st.copy(), "TypeError", node, fr)
                        raise Dead()
                stop = unk(d)
            return self.mkiter(I, st, node, fr, "range", start, stop, step)
        if name == "enumerate":
            s = args[1] if len(args) > 1 else kwargs.get("start", cst(0))
            return self.mkiter(I, st, node, fr, "enumerate", args[0], s)
        if name == "zip":
            return self.mkiter(I, st, node, fr, "zip", tuple(args))
        if name == "reversed":
            return self.mkiter(I, st, node, fr, "reversed", args[0])
        if name in ("map", "filter"):
            if name == "map" and len(args) == 2:
                return self.mkiter(I, st, node, fr, "map", args[1], args[0])
            if name == "filter":
                return self.mkiter(I, st, node, fr, "reversed", args[1])
            return unk(d)
        if name == "iter":
            return args[0]
        if name == "next":
            kn, el, ld = self.iterate(I, st, args[0], node, fr)
            for k in kn or ():
                el = join(el, k).w(term=None)
            if len(args) > 1:
                el = join(el, args[1]).w(term=None) if el is not None else args[1]
            return withdeps(el, ld) if el is not None else unk(ld)
        if name in ("list", "tuple", "set", "frozenset", "sorted"):
            kind = "list" if name == "sorted" else name
            if not args:
                return I.new_seq(st, node, fr, kind, (), None, tag="py")
            kn, el, ld = self.iterate(I, st, args[0], node, fr)
            lp, _ = self.seqlen(I, st, args[0])
            if kind in ("set", "frozenset"):
                lp = None
                for k in kn or ():
                    ld |= k.deps
                if el is not None:
                    ld |= el.deps
            if name in ("list", "tuple") and len(args[0].refs) == 1 and args[0].kinds <= frozenset({"ref"}):
                o = st.heap.get(next(iter(args[0].refs)))
                if isinstance(o, Seq) and o.kind in ("list", "tuple") and o.items and o.rest is not None and not o.multi:
                    return I.carry(st, I.new_seq(st, node, fr, kind, o.items, o.rest, tag="py", ldeps=ld, lenpoly=lp), args[0].refs)
            if kn is not None and name not in ("sorted",):
                return I.new_seq(st, node, fr, kind, kn, None, tag="py", ldeps=ld)
            for k in kn or ():
                el = join(el, k).w(term=None)
            if kwargs.get("key") is not None and el is not None and kwargs["key"].fns:
                I.call(kwargs["key"], [el], {}, st, node, fr)
            if el is not None and el.const is None and not (args[0].refs and self.is_arr(st, args[0])):
                el = el.w(term=None)
            if el is None:
                return I.new_seq(st, node, fr, kind, (), None, tag="py", ldeps=ld)
            # the generic element of an array keeps its name through list()
            if el.refs or name == "sorted":
                el = el.w(term=None) if el.const is None else el
            r = I.carry(st, I.new_seq(st, node, fr, kind, (), el, tag="py", ldeps=ld, lenpoly=lp), args[0].refs if not kn else E)
            if name == "sorted" and not kwargs:
                return self.madefrom(I, st, r, "sorted", args[0], I.stamp(st, args[0]))
            return self.madefrom(I, st, r, "of", args[0], I.stamp(st, args[0])) if name in ("list", "tuple") else r
        if name == "dict":
            known, key, val, ld = {}, None, None, E
            puts = {}
            if args:
                for l in args[0].refs:
                    o = st.heap.get(l)
                    if isinstance(o, Dct):
                        known.update(dict(o.known))
                        if o.key is not None:
                            key, val = join(key, o.key).w(term=None), join(val, o.val).w(term=None)
                        ld |= o.ldeps
                        puts = {**puts, **I.dputs[l]} if puts is not None and I.dputs.get(l) is not None else None
                    else:
                        kn, el, d2 = self.iterate(I, st, args[0], node, fr)
                        ld |= d2
                        puts = {} if puts is None else puts
                        if el is not None and not kn:
                            fe = self.fresh_iter(I, st, el, node, fr, args[0])
                            el = fe if fe.refs and all(isinstance(st.heap.get(k), Seq) for k in fe.refs) else el
                        for x in list(kn or []) + ([el] if el is not None else []):
                            p = self.unpack_values(I, st, x, 2, node, fr, None)
                            puts[("set", node._nid, len(puts))] = ("set", st.facts, p[0].term, p[1].term)
                            if p[0].const is not None and p[0].const[0] == "c" and kn is not None:
                                known[p[0].const] = p[1]
                            else:
                                key, val = join(key, p[0]).w(term=None), join(val, p[1]).w(term=None)
            for k, v in kwargs.items():
                known[("c", "str", k)] = v
            loc = I.alloc(st, I.key("dd", node, fr), Dct(tuple(known.items()), key, val, ld, None, mk("w", node._nid, fr.ctx)))
            I.dputs[loc] = puts if not kwargs else None
            return ref(loc, st.cd, term=mk("loc", loc))
        if name in ("min", "max"):
            vals = list(args)
            if len(args) == 1:
                kn, el, ld = self.iterate(I, st, args[0], node, fr)
                vals = list(kn or []) + ([el] if el is not None else [])
                d |= ld
                if "default" in kwargs:
                    vals.append(kwargs["default"])
                t = None
                if "default" not in kwargs and self.is_arr(st, args[0]):
                    el0 = self.ai(I, st, args[0]).elem
                    t = mk("red", name, el0.term) if el0.term is not None else None
                elif "default" not in kwargs:
                    lt = self.listterm(st, args[0])
                    t = mk("red", name, lt) if lt is not None else None
                elif kn is None and el is not None and el.term is not None:
                    t = mk("red", name, el.term)
                if not vals:
                    raise Dead()
            else:
                t = None
            return self.minmax(I, st, name, vals, d, t, len(args) > 1)
        if name == "sum":
            x = self.ai(I, st, args[0])
            return self.reduce(I, st, node, fr, "sum", args[0], {})
        if name == "abs":
            if args[0].refs and self.is_arr(st, args[0]):
                return self.np_call(I, st, node, fr, "abs", args, {})
            return self.sc_abs(args[0])
        if name == "round" and len(args) == 2 and not args[0].refs:
            return self.cast(I, st, args[0], "float").w(term=mkop("round", args[0].term, args[1].term))
        if name in ("int", "round", "float", "bool"):
            if not args:
                return cst({"int": 0, "round": 0, "float": 0.0, "bool": False}[name])
            return self.cast(I, st, args[0], {"int": "int", "round": "int" if len(args) < 2 else "float", "float": "float", "bool": "bool"}[name])
        if name in ("str", "repr", "format", "chr", "hex", "bin"):
            c = args[0].cval() if args else (True, "")
            if name == "str" and c[0] and isinstance(c[1], (str, int)) and not isinstance(c[1], bool):
                return cst(str(c[1]), d)
            dd = d
            for a in args:
                dd |= I.deepdeps(st, a)
            return strav(dd)
        if name in ("id", "hash"):
            I.event("nondet", node, fr, name)
            return num("int", deps=d | frozenset({"nondet:" + name}))
        if name == "isinstance":
            return self.isinstance_(I, st, args[0], args[1])
        if name in ("any", "all"):
            kn, el, ld = self.iterate(I, st, args[0], node, fr)
            vals = list(kn or []) + ([el] if el is not None else [])
            d |= ld
            rs = []
            for v in vals:
                d |= v.deps
                rs.append(I.truth(v, st))
            if name == "any":
                if kn is not None and all(r is False for r in rs):
                    return cst(False, d)
                if kn is not None and any(r is True for r in rs):
                    return cst(True, d)
                if kn is None and all(r is False for r in rs):
                    return cst(False, d)
            else:
                if all(r is True for r in rs):
                    return cst(True, d)
                if kn is not None and any(r is False for r in rs):
                    return cst(False, d)
            t = None
            if kn is None and el is not None and el.term is not None:
                t = mk("quant", name, el.term)
            elif kn is not None and len(vals) == 1:
                t = vals[0].term
            elif kn and all(v.term is not None for v in vals) and len(vals) <= 4:
                t = vals[0].term
                for v in vals[1:]:
                    t = mkop("or" if name == "any" else "and", t, v.term)
            return boolav(d, t)
        if name == "getattr":
            c = args[1].cval()
            if c[0]:
                if len(args) > 2:
                    s2 = st.copy()
                    I.raise_sinks.append([])
                    try:
                        r = I.getattr(s2, args[0], c[1], node, fr)
                        I.raise_sinks.pop()
                        st.become(s2)
                        return r
                    except Dead:
                        I.raise_sinks.pop()
                        I.events.pop(("deferr", node._nid, fr.ctx, ""), None)
                        return args[2]
                return I.getattr(st, args[0], c[1], node, fr)
            return unk(I.deepdeps(st, args[0]) | args[1].deps | (I.deepdeps(st, args[2]) if len(args) > 2 else E))
        if name == "setattr":
            c = args[1].cval()
            if c[0]:
                I.setattr(st, args[0], c[1], withdeps(args[2], st.cd), node, fr)
            else:
                for l in args[0].refs:
                    I.event("write", node, fr, getattr(st.heap[l], "owner", None), "attr", "?")
            return c_none()
        if name == "hasattr":
            c = args[1].cval()
            if c[0] and len(args[0].refs) == 1:
                o = st.heap.get(next(iter(args[0].refs)))
                if isinstance(o, Obj):
                    if o.get(c[1]) is not None or I.prog.find_method(o.cls, c[1]) is not None or I.prog.find_attr(o.cls, c[1]) is not None:
                        return cst(True, d)
                    return cst(False, d) if not o.multi else boolav(d)
            return boolav(d)
        if name == "type":
            if len(args[0].refs) == 1:
                o = st.heap.get(next(iter(args[0].refs)))
                if isinstance(o, Obj):
                    return fnav("cls", o.cls)
            return unk(d)
        if name == "open":
            m = args[1] if len(args) > 1 else kwargs.get("mode", cst("r"))
            k = I.alloc(st, I.key("file", node, fr), Ext("file", (m, "open")))
            self.fire("open", I, st, node, fr, k, args[0] if args else None, m)
            I.event("open", node, fr, k, mode=m)
            return ref(k, d)
        if name == "slice":
            return unk(d)
        if name == "divmod":
            q = scalar_binop("FloorDiv", args[0], args[1])
            r = scalar_binop("Mod", args[0], args[1])
            return self.tup(I, st, node, fr, "dm", [q, r])
        if name == "pow":
            import ast
            return I.binop(ast.Pow(), args[0], args[1], st, node, fr)
        if name == "callable":
            return boolav(d)
        if name == "vars":
            for l in args[0].refs if args else ():
                o = st.heap.get(l)
                if isinstance(o, Obj):
                    return I.ref_attr(st, l, o, "__dict__", node, fr, args[0])
            return unk(d)
        if name == "object":
            return unk(d)
        if name in ("input", "globals", "locals", "__import__"):
            I.event("nondet", node, fr, name)
            return unk(d | frozenset({"nondet:" + name}))
        if name.startswith("dict.fromkeys"):
            kn, el, ld = self.iterate(I, st, args[0], node, fr)
            for k in kn or ():
                el = join(el, k).w(term=None)
            v = args[1] if len(args) > 1 else c_none()
            loc = I.alloc(st, I.key("dd", node, fr), Dct((), el, v if el is not None else None, ld, None, mk("w", node._nid, fr.ctx)))
            return ref(loc, term=mk("loc", loc))
        return self.opaque(I, st, node, fr, "builtin " + name, args, kwargs)

    def minmax(self, I, st, name, vals, d, t, binary):
        out = vals[0]
        for v in vals[1:]:
            out = join(out, v).w(term=None)
        if binary and all(v.kinds and v.kinds <= NUMK for v in vals):
            lo = (max if name == "max" else min)(v.lo for v in vals)
            hi = (max if name == "max" else min)(v.hi for v in vals)
            tt = vals[0].term
            for v in vals[1:]:
                tt = mkop(name, tt, v.term)
            cs = [v.cval() for v in vals]
            if all(c[0] for c in cs) and all(isinstance(c[1], (int, float)) for c in cs):
                return cst((max if name == "max" else min)(c[1] for c in cs), d)
            return out.w(lo=lo, hi=hi, term=tt, deps=out.deps | d, const=None, tags=out.tags)
        return out.w(term=t, deps=out.deps | d) if out.const is None else withdeps(out, d)

    def sc_abs(self, a):
        c = a.cval()
        if c[0] and isinstance(c[1], (int, float)) and c[1] != "nan":
            return cst(abs(c[1]), a.deps)
        if not (a.kinds & NUMK) and "unk" not in a.kinds:
            return unk(a.deps)
        l, h = -INF, INF
        if a.lo >= 0:
            l, h = a.lo, a.hi
        elif a.hi <= 0:
            l, h = -a.hi, -a.lo
        else:
            l, h = 0.0, max(-a.lo, a.hi)
        return AV(a.kinds & NUMK or KNUM, None, l, h, a.nan, E, a.deps, E, E, mkop("abs", a.term))

    def cast(self, I, st, a, kind):
        if a.refs:
            a = a.w(kinds=(a.kinds - KREF) | KUNK, refs=E, deps=I.deepdeps(st, a))
        c = a.cval()
        if c[0] and isinstance(c[1], (int, float, bool)) and c[1] != "nan":
            try:
                return cst({"int": int, "float": float, "bool": bool}[kind](c[1]), a.deps)
            except (OverflowError, ValueError):
                return unk(a.deps)
        if kind == "bool":
            t = I.truth(a, st)
            if t is not None:
                return cst(t, a.deps)
            return boolav(a.deps, I.truth_term(a))
        if kind == "int" and a.kinds <= frozenset({"int", "bool"}) and a.kinds:
            if a.const is not None and a.const[0] == "p":
                return a
            return a.w(kinds=KINT)
        if kind == "float" and a.kinds & NUMK:
            return a.w(kinds=KFLOAT, const=None)
        lo, hi = a.lo, a.hi
        if not (a.kinds & NUMK):
            lo, hi = -INF, INF
        lo = math.floor(lo) if abs(lo) != INF else lo
        hi = math.ceil(hi) if abs(hi) != INF else hi
        return AV(frozenset({kind}), None, float(lo), float(hi), False, a.marks, a.deps, E, E,
                  mkop("cast" + kind, a.term), a.tags)

    def typenames(self, st, t):
        names, ok = set(), True
        for f in t.fns:
            if f[0] == "py":
                names.add(f[1])
            elif f[0] == "np":
                names.add(f[1].split(".")[-1])
            elif f[0] == "cls":
                names.add(f[1])
            elif f[0] == "ext":
                names.add(f[1].split(".")[-1])
            else:
                ok = False
        for l in t.refs:
            o = st.heap.get(l)
            if isinstance(o, Seq) and o.rest is None:
                for x in o.items:
                    n, k = self.typenames(st, x)
                    names |= n
                    ok = ok and k
            else:
                ok = False
        if t.kinds - {"ref", "fn"}:
            ok = False
        return names, ok

    def isinstance_(self, I, st, v, t):
        names, ok = self.typenames(st, t)
        d = v.deps
        if not ok:
            return boolav(d)
        types = frozenset(names)
        res = set()
        for k in v.kinds:
            if k == "ref":
                for l in v.refs:
                    res.add(I.ref_isa(l, types, st))
            else:
                res.add(I.kind_isa(k, types))
        if len(res) == 1 and None not in res:
            return cst(next(iter(res)), d)
        return boolav(d, mk("isa", v.term, types) if v.term is not None else None)

    # ---- flopy and standard library
    def ext_call(self, I, st, node, fr, name, args, kwargs):
        last = name.rsplit(".", 1)[-1]
        root = name.split(".")[0]
        if root in NONDET_MODS or name.startswith("numpy.random"):
            I.event("nondet", node, fr, name)
            d = frozenset({"nondet:" + name})
            for a in args:
                d |= I.deepdeps(st, a)
            return unk(d)
        if name in ("copy.copy", "copy.deepcopy"):
            return self.deepcopy(I, st, node, fr, args[0], name.endswith("deepcopy"))
        if name in ("collections.defaultdict", "collections.OrderedDict", "collections.Counter"):
            default = None
            if last == "defaultdict" and args and not args[0].is_none:
                default = args[0]
                args = args[1:]
            elif last == "Counter":
                default = fnav("py", "int")
            r = self.py_call(I, st, node, fr, "dict", args, kwargs, None)
            l, = r.refs
            st.heap[l] = st.heap[l]._replace(default=default)
            return r
        if name == "collections.deque":
            return self.py_call(I, st, node, fr, "list", args[:1], {}, None)
        if name.startswith("heapq."):
            if last == "heappush":
                for l in args[0].refs:
                    if isinstance(st.heap.get(l), Seq):
                        self.seq_put(I, st, node, fr, l, args[1], "any")
                return c_none()
            if last == "heappop":
                out = None
                for l in sorted(args[0].refs, key=str):
                    if isinstance(st.heap.get(l), Seq):
                        v = self.seq_pop(I, st, node, fr, l, None)
                        out = join(out, v) if out is not None else v
                return out if out is not None else unk()
            if last == "heapify":
                for l in args[0].refs:
                    h = st.heap.get(l)
                    if isinstance(h, Seq):
                        self.seq_write(I, st, node, fr, l, "heapify")
                        rest = h.rest
                        for x in h.items:
                            rest = join(rest, x).w(term=None)
                        st.heap[l] = h._replace(items=(), rest=rest, ver=mk("st", node._nid, fr.ctx)) if rest is not None else h
                return c_none()
        if name.startswith("pickle."):
            if last in ("dump", "dumps", "load", "loads"):
                self.fire("pickle", I, st, node, fr, last, args, kwargs)
                I.event("pickle", node, fr, last)
                if last == "dumps":
                    return AV(KSTR, ("bytes", "dumps", args[0].term), deps=I.deepdeps(st, args[0]))
                if last in ("load", "loads"):
                    return unk(I.deepdeps(st, args[0]) if args else E, term=mk("loaded", next(iter(args[0].refs), None) if args else None,
                                                                                  args[0].term if args and not args[0].refs else None))
                return c_none()
        if name.endswith("irregular_shape_patch"):
            xs = []
            for i, a in enumerate(args[:2]):
                x = self.ai(I, st, a)
                xs.append(I.new_arr(st, node, fr, x.elem.w(term=None), x.shape, f"isp{i}", x.ldeps))
            return I.new_seq(st, node, fr, "tuple", xs, None, tag="isp")
        if last in ("GeoSpatialUtil", "GeoSpatialCollection"):
            d = I.deepdeps(st, args[0]) if args else E
            xy = [num("float", deps=d), num("float", deps=d)]
            pk = I.alloc(st, I.key("gpt", node, fr), Seq("tuple", tuple(xy)))
            pt = ref(pk, d)
            if last == "GeoSpatialCollection":
                pt = I.new_seq(st, node, fr, "list", (), pt, tag="gpts", ldeps=d)
            k = I.alloc(st, I.key("geo", node, fr), Ext("geo", (pt,)))
            return ref(k, d)
        if last in ("get_empty_reach_data", "get_empty_segment_data"):
            reach = last == "get_empty_reach_data"
            n = kwargs.get("nreaches" if reach else "nsegments", args[0] if args else cst(0))
            fields = []
            for f in (REACH_DTYPE if reach else SEG_DTYPE):
                k = I.key(("ef", f), node, fr)
                isint = f in (REACH_INT if reach else SEG_INT)
                k = I.alloc(st, k, Buf(cst(0) if isint else cst(0.0), None, mk("w", node._nid, fr.ctx, f)))
                fields.append((f, k))
            bk = I.alloc(st, I.key("efb", node, fr), Buf(unk(), None, mk("w", node._nid, fr.ctx), tuple(fields), False, ("table", "reach" if reach else "segment")))
            ak = I.alloc(st, I.key("efa", node, fr), Arr(bk, (n.poly(),), n.deps))
            self.fire("table", I, st, node, fr, "reach" if reach else "segment", n)
            return ref(ak, n.deps, term=mk("loc", ak))
        if root in ("warnings", "logging"):
            return c_none()
        if name in ("functools.partial",) and args and args[0].fns:
            return AV(KFN, fns=frozenset(("partial", args[0], tuple(args[1:])) for _ in [0]))
        if name.startswith("itertools."):
            if last == "chain":
                rest, ld = None, E
                for a in args:
                    kn, el, d2 = self.iterate(I, st, a, node, fr)
                    ld |= d2
                    for k in kn or ():
                        rest = join(rest, k).w(term=None)
                    if el is not None:
                        rest = join(rest, el).w(term=None)
                return I.new_seq(st, node, fr, "list", (), rest, tag="chain", ldeps=ld)
            if last == "repeat":
                return I.new_seq(st, node, fr, "list", (), args[0], tag="rep")
            if last == "count":
                return I.new_seq(st, node, fr, "list", (), num("int", args[0].lo if args else 0.0, INF), tag="cnt")
        return self.opaque(I, st, node, fr, name, args, kwargs)

    def deepcopy(self, I, st, node, fr, v, deep):
        memo = {}
        base = I.key("dc", node, fr)

        def cp(l):
            if l in memo:
                return memo[l]
            o = st.heap.get(l)
            if o is None:
                return l
            k = base + (("src", l),)
            memo[l] = k
            st.heap[k] = o
            o = o._replace(**({"owner": None} if hasattr(o, "owner") and not isinstance(o, Grid) else {}))
            st.heap[k] = conv(o)
            return k

        def av(x):
            if not x.refs:
                return x
            return x.w(refs=frozenset(cp(l) for l in x.refs))

        def conv(o):
            if isinstance(o, Arr):
                bs = [cp(b) for b in bufs_of(o)]
                return o._replace(buf=bs[0] if len(bs) == 1 else ("U",) + tuple(bs))
            if isinstance(o, Buf):
                return o._replace(elem=av(o.elem), fields=tuple((n, cp(b)) for n, b in o.fields) if o.fields else None)
            if isinstance(o, Seq):
                return o._replace(items=tuple(av(x) for x in o.items), rest=av(o.rest) if o.rest is not None else None)
            if isinstance(o, Dct):
                return o._replace(known=tuple((k, av(x)) for k, x in o.known), key=av(o.key) if o.key is not None else None,
                                  val=av(o.val) if o.val is not None else None)
            if isinstance(o, (Obj, Grid)):
                return o._replace(fields=tuple((k, av(x)) for k, x in o.fields))
            return o
        if deep:
            r = av(v)
        else:
            refs = set()
            for l in v.refs:
                o = st.heap.get(l)
                if isinstance(o, Arr):
                    refs.add(cp(l))
                    continue
                k = base + (("src", l),)
                st.heap[k] = o._replace(**({"owner": None} if hasattr(o, "owner") and not isinstance(o, Grid) else {})) if o is not None else o
                refs.add(k)
            r = v.w(refs=frozenset(refs))
        return r.w(term=mk("loc", base) if r.refs else r.term)

    # ---- numpy
    def shape_arg(self, I, st, v):
        """Shape from an int or a tuple of ints; None entries when unknown."""
        if not v.refs:
            if "unk" in v.kinds:
                return None
            return (v.poly(),)
        out = None
        for l in v.refs:
            o = st.heap.get(l)
            if isinstance(o, Seq) and o.rest is None and not o.multi:
                s = tuple(x.poly() for x in o.items)
            elif isinstance(o, Arr) and o.cols is not None:
                s = tuple(x.poly() for x in o.cols)
            else:
                return None
            if out is None:
                out = s
            elif out != s:
                return None
        return out

    def dtype_kind(self, st, v):
        if v is None or v.is_none:
            return None
        for f in v.fns:
            n = f[1].split(".")[-1] if isinstance(f[1], str) else ""
            if n.startswith(("int", "uint")):
                return "int"
            if n.startswith("float") or n == "double":
                return "float"
            if n.startswith("bool"):
                return "bool"
            if n == "object":
                return "object"
            if n.startswith("str"):
                return "str"
        c = v.cval()
        if c[0] and isinstance(c[1], str):
            s = c[1].lstrip("<>=|")
            if s.startswith(("int", "i", "u")):
                return "int"
            if s.startswith(("float", "f", "d")):
                return "float"
            if s.startswith(("bool", "?")):
                return "bool"
        return None

    def ecast(self, I, st, e, kind):
        if kind is None or kind == "object" or not e.kinds:
            return e
        if kind in ("int", "float"):
            if e.kinds == frozenset({kind}):
                return e
            if kind == "float" and e.kinds <= NUMK and e.kinds:
                c = e.cval()
                if c[0]:
                    return cst(float(c[1]) if c[1] != "nan" else float("nan"), e.deps)
                return e.w(kinds=KFLOAT, const=None)
            r = self.cast(I, st, e.w(refs=E), kind)
            # integer casts keep ordering with the original for integral values
            if e.const is None and e.kinds <= frozenset({"int", "bool"}):
                r = r.w(term=e.term)
            return r
        if kind == "bool":
            return self.cast(I, st, e, "bool")
        return e

    def struct_fields(self, I, st, dt):
        """(name, kind) pairs of a structured dtype argument, or None."""
        if dt is None:
            return None
        for l in dt.refs:
            o = st.heap.get(l)
            if isinstance(o, Seq) and o.kind in ("list", "tuple") and o.rest is None and len(dt.refs) == 1:
                out = []
                for x in o.items:
                    r = self.row_items(st, x)
                    if r is None or len(r) < 2 or not r[0].cval()[0]:
                        return None
                    out.append((r[0].cval()[1], self.dtype_kind(st, r[1])))
                return out
            if isinstance(o, Ext) and o.kind == "dtype":
                return self.struct_fields(I, st, o.info[0])
        return None

    def array_from(self, I, st, node, fr, v, dt, tag="arr", copy=True):
        sf = self.struct_fields(I, st, dt)
        x = self.ai(I, st, v)
        if sf is None and dt is not None and dt.refs and self.dtype_kind(st, dt) is None:
            self.fire("structarray", I, st, node, fr, None, v)
        if sf is not None:
            cols = None
            if x.arrs and not x.cols:
                cols = None
            elif x.cols is not None:
                cols = x.cols
            else:
                cols = self.seq_cols(I, st, v)
            if cols is not None and len(cols) != len(sf):
                I.event("deferr", node, fr, f"records of {len(cols)} values for {len(sf)} fields", definite=True)
            fields = []
            for i, (n, k) in enumerate(sf):
                e = cols[i] if cols is not None and i < len(cols) else unk(I.deepdeps(st, v))
                e = e if k == "object" or e.refs else self.ecast(I, st, e, k)
                key = I.alloc(st, I.key(("sf", n), node, fr), Buf(e.w(term=None) if e.const is None else e, None, mk("w", node._nid, fr.ctx, n)))
                fields.append((n, key))
            bk = I.alloc(st, I.key("sfb", node, fr), Buf(unk(), None, mk("w", node._nid, fr.ctx), tuple(fields)))
            n, d = self.seqlen(I, st, v)
            ak = I.alloc(st, I.key("sfa", node, fr), Arr(bk, (n,), x.ldeps | d))
            self.fire("structarray", I, st, node, fr, sf, v)
            return ref(ak, term=mk("loc", ak))
        kind = self.dtype_kind(st, dt)
        if len(x.arrs) == 1 and not (v.kinds - {"ref"}) and st.heap[bufs_of(x.arrs[0][1])[0]].fields:
            return self.rec_copy(I, st, node, fr, x.arrs[0][0])
        if not v.refs and x.shape == ():
            return I.new_arr(st, node, fr, self.ecast(I, st, x.elem, kind), (), tag) if "unk" not in v.kinds else I.new_arr(st, node, fr, v, None, tag)
        e = x.elem
        if not e.kinds:
            e = num("float")
        e = self.ecast(I, st, e, kind)
        cols = tuple(self.ecast(I, st, c, kind) for c in x.cols) if x.cols is not None else None
        r = I.new_arr(st, node, fr, e, x.shape, tag, x.ldeps, x.src, cols, x.axis)
        if len(v.refs) == 1 and isinstance(st.heap.get(next(iter(v.refs))), Seq):
            k = st.heap[next(iter(r.refs))].buf
            I.arrof[k] = (st.heap[k].ver, v, I.stamp(st, v))
        if cols is not None and len(v.refs) == 1:
            I.colsrc[st.heap[next(iter(r.refs))].buf] = next(iter(v.refs))
        return r

    def seq_cols(self, I, st, v):
        cols = None
        for l in v.refs:
            o = st.heap.get(l)
            if not isinstance(o, Seq):
                return None
            for x in list(o.items) + ([o.rest] if o.rest is not None else []):
                r = self.row_items(st, x)
                if r is None:
                    return None
                if cols is None:
                    cols = r
                elif len(cols) != len(r):
                    return None
                else:
                    cols = [join(p, q).w(term=None) for p, q in zip(cols, r)]
        return tuple(cols) if cols is not None else None

    def rec_copy(self, I, st, node, fr, l):
        o = st.heap[l]
        fields = []
        b0 = st.heap[bufs_of(o)[0]]
        for n, fb in b0.fields:
            key = I.alloc(st, I.key(("rc", n), node, fr), st.heap[fb]._replace(owner=None, multi=False))
            fields.append((n, key))
        bk = I.alloc(st, I.key("rcb", node, fr), b0._replace(fields=tuple(fields), owner=None, multi=False))
        ak = I.alloc(st, I.key("rca", node, fr), o._replace(buf=bk, multi=False))
        return ref(ak, term=mk("loc", ak))

    def reduce(self, I, st, node, fr, name, v, kwargs, axis=None):
        x = self.ai(I, st, v)
        base = name[3:] if name.startswith("nan") and name != "nan" else name
        isnan = name.startswith("nan")
        e = x.elem
        d = e.deps | x.ldeps | v.deps
        ax = kwargs.get("axis", axis)
        has_axis = ax is not None and not ax.is_none
        if not e.kinds:
            e = num("float")
        num_ok = bool(e.kinds & NUMK) and "unk" not in e.kinds
        et = e.term if e.term is not None else self.listterm(st, v)
        base = {"amin": "min", "amax": "max"}.get(base, base)
        t = mk("red", base if not isnan or base == "sum" and not e.nan else name, et) if et is not None and not has_axis else None
        nan = e.nan and not isnan
        if base in ("max", "min", "amax", "amin", "median", "mean", "average"):
            if isnan and e.nan:
                nan = True      # all-nan input
            kinds = e.kinds & NUMK or KNUM
            if base in ("mean", "median", "average"):
                kinds = KFLOAT
                if x.shape is not None and any(p is None for p in x.shape) is False:
                    pass
            lo, hi = (e.lo, e.hi) if num_ok else (-INF, INF)
            r = AV(kinds, None, lo, hi, nan, e.marks if base in ("max", "min") else E, d, E, E, t, e.tags if base in ("max", "min", "amax", "amin") else E)
            if e.const is not None and e.const[0] == "c" and base in ("max", "min", "amax", "amin"):
                r = e.w(deps=d)
        elif base in ("sum", "cumsum", "prod", "cumprod"):
            lo = 0.0 if e.lo >= 0 and num_ok else -INF
            hi = 0.0 if e.hi <= 0 and num_ok and base != "prod" else INF
            if base in ("prod", "cumprod"):
                lo = 0.0 if e.lo >= 0 else -INF
            kinds = e.kinds & NUMK or KNUM
            if kinds == KBOOL:
                kinds = KINT
            r = AV(kinds, None, lo, hi, nan, E, d, E, E, t)
        elif base in ("std", "var", "ptp"):
            r = num("float", 0.0, INF, nan, d, term=t)
        elif base in ("argmax", "argmin"):
            p = x.size if not has_axis else None
            r = self.posav(p, d, mk("red", name, et) if et is not None and not has_axis else None)
            r = r.w(tags=r.tags | frozenset({("arg", (base, e.term))}) if e.term is not None else r.tags)
        elif base in ("any", "all"):
            tv = I.truth(e, st)
            if base == "all" and tv is True:
                r = cst(True, d)
            elif base == "any" and tv is False:
                r = cst(False, d)
            else:
                r = boolav(d, mk("quant", base, e.term) if e.term is not None and not has_axis else None)
        elif base == "count_nonzero":
            r = num("int", 0.0, INF, deps=d, term=mk("red", name, e.term) if e.term is not None else None)
        else:
            r = unk(d)
        if has_axis and x.shape is not None and len(x.shape) > 1:
            c = ax.cval()
            sh, t = None, None
            if c[0] and isinstance(c[1], int) and -len(x.shape) <= c[1] < len(x.shape):
                k = c[1] % len(x.shape)
                kd = kwargs.get("keepdims")
                if k == len(x.shape) - 1 and len(x.shape) == 2 and e.term is not None and base in ("min", "max", "amin", "amax", "argmin", "argmax"):
                    t = mkop("redx", name, e.term)
                sh = x.shape[:k] + ((ONE,) if kd is not None and kd.cval() == (True, True) else ()) + x.shape[k + 1:]
            return I.new_arr(st, node, fr, r.w(term=t), sh, "red", x.ldeps)
        if has_axis and x.shape is None:
            return I.new_arr(st, node, fr, r.w(term=None), None, "red", x.ldeps)
        if name in ("cumsum", "cumprod"):
            return I.new_arr(st, node, fr, r.w(term=None), x.shape, "red", x.ldeps)
        return r

    UNARY = {"sqrt": (0.0, INF), "abs": None, "absolute": None, "fabs": None, "cos": (-1.0, 1.0), "sin": (-1.0, 1.0), "tan": (-INF, INF),
             "arctan": (-math.pi / 2, math.pi / 2), "exp": (0.0, INF), "log": (-INF, INF), "log10": (-INF, INF), "floor": None, "ceil": None,
             "degrees": None, "radians": None, "rad2deg": None, "deg2rad": None, "square": None, "negative": None, "sign": (-1.0, 1.0),
             "isnan": None, "isfinite": None, "isinf": None, "logical_not": None, "invert": None, "rint": None, "around": None,
             "round": None, "nan_to_num": None, "arccos": (0.0, math.pi), "arcsin": (-math.pi / 2, math.pi / 2), "trunc": None, "positive": None,
             "bitwise_not": None}
    BINARY = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "power": "Pow", "mod": "Mod",
              "remainder": "Mod", "floor_divide": "FloorDiv", "bitwise_and": "BitAnd", "bitwise_or": "BitOr", "bitwise_xor": "BitXor"}
    CMP = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}

    def un_elem(self, I, st, name, e):
        if name in ("abs", "absolute", "fabs"):
            return self.sc_abs(e)
        if name in ("degrees", "rad2deg"):
            return scalar_binop("Mult", e, cst(180 / math.pi))
        if name in ("radians", "deg2rad"):
            return scalar_binop("Mult", e, cst(math.pi / 180))
        if name == "square":
            return scalar_binop("Pow", e, cst(2))
        if name == "negative":
            return scalar_unary("USub", e)
        if name in ("logical_not", "invert", "bitwise_not"):
            if name == "logical_not":
                tv = I.truth(e, st)
                if tv is not None:
                    return cst(not tv, e.deps)
                return boolav(e.deps, mkop("not", I.truth_term(e)))
            return scalar_unary("Invert", e)
        if name == "isnan":
            c = e.cval()
            if c[0]:
                return cst(c[1] == "nan", e.deps)
            if e.kinds and e.kinds <= NUMK and not e.nan:
                return cst(False, e.deps)
            if e.kinds == KNONE or (e.kinds & KNONE and not e.kinds & NUMK):
                pass
            t = mk("isnan", e.term) if e.term is not None else None
            if t is not None and ("nan", e.term) in st.facts:
                return cst(True, e.deps)
            if t is not None and ("nn", e.term) in st.facts:
                return cst(False, e.deps)
            return boolav(e.deps, t)
        if name in ("isfinite", "isinf"):
            return boolav(e.deps, mk(name, e.term) if e.term is not None else None)
        if name in ("floor", "ceil", "rint", "around", "round", "trunc"):
            c = e.cval()
            lo = math.floor(e.lo) if abs(e.lo) != INF else e.lo
            hi = math.ceil(e.hi) if abs(e.hi) != INF else e.hi
            return AV(e.kinds & NUMK or KFLOAT, None, float(lo), float(hi), e.nan, E, e.deps, E, E, mkop(name, e.term))
        if name == "nan_to_num":
            t = mkop("ite", mkop("isnan", e.term), mk("c", "float", 0.0), e.term)
            return e.w(nan=False, term=t, lo=min(e.lo, 0.0), hi=max(e.hi, 0.0), const=None, tags=E)
        if name == "positive":
            return e
        rng = self.UNARY.get(name)
        lo, hi = rng if rng else (-INF, INF)
        nan = e.nan or "unk" in e.kinds
        if name == "sqrt":
            nan = nan or e.lo < 0
            if e.hi >= 0 and e.hi != INF:
                hi = math.sqrt(e.hi)
            if e.lo > 0 and e.lo != INF:
                lo = math.sqrt(e.lo)
            c = e.cval()
            if c[0] and isinstance(c[1], (int, float)) and c[1] >= 0:
                return cst(math.sqrt(c[1]), e.deps)
        if name in ("log", "log10"):
            nan = nan or e.lo < 0
        if name in ("cos", "sin", "tan") and (abs(e.lo) == INF or abs(e.hi) == INF):
            nan = True if e.nan else nan
        return AV(KFLOAT, None, lo, hi, nan, E, e.deps, E, E, mkop(name, e.term))

    def where3(self, I, st, node, fr, c, a, b, tag="wh"):
        xc, xa, xb = self.ai(I, st, c), self.ai(I, st, a), self.ai(I, st, b)
        shape = self.broadcast(I, st, node, fr, xc.shape, xa.shape, xb.shape)
        e = self.select(I, st, node, fr, xc.elem, xa.elem, xb.elem)
        ld = xc.ldeps | xa.ldeps | xb.ldeps
        return self.result(I, st, node, fr, e, shape, tag, ld) if (c.refs or a.refs or b.refs) else e

    def select(self, I, st, node, fr, c, a, b):
        """Elementwise choice, each branch narrowed by the condition."""
        tv = I.truth(c, st)
        if tv is True:
            return self.addmark(I, withdeps(a, c.deps), a, node, fr)
        if tv is False:
            return self.addmark(I, withdeps(b, c.deps), b, node, fr)
        tt = I.truth_term(c)
        na, nb = a, b
        if tt is not None:
            s2 = State()
            s2.facts, s2.heap = st.facts, st.heap
            I.assume(s2, tt, True)
            na = I.narrow(a, s2)
            s3 = State()
            s3.facts, s3.heap = st.facts, st.heap
            I.assume(s3, tt, False)
            nb = I.narrow(b, s3)
        e = join(self.addmark(I, na, na, node, fr), self.addmark(I, nb, nb, node, fr)).w(term=None)
        e = self.addmark(I, self.addmark(I, e, na, node, fr), nb, node, fr)
        t = mkop("ite", tt, a.term, b.term)
        if a.term is not None and a.term == b.term:
            t = a.term
        if e.const is not None:
            t = e.term if e.const[0] != "c" else mk(*e.const)
        e = e.w(term=t)
        if t is not None and e.kinds & NUMK and e.const is None:
            TT.leafinfo(t, e.lo, e.hi, e.nan)
        return withdeps(e, c.deps)

    def maybe_same(self, I, st, a, kind, copy):
        """A conversion that only copies when the element type differs."""
        ek = self.ai(I, st, a).elem.kinds
        if kind is None or ek == frozenset({kind}):
            return a
        if kind in ek or "unk" in ek:
            return join(a, copy())
        return copy()

    def np_call(self, I, st, node, fr, name, args, kwargs):
        d = E
        for a in list(args) + list(kwargs.values()):
            d |= I.deepdeps(st, a)
        name = {"amax": "max", "amin": "min", "absolute": "abs", "concat": "concatenate", "float64": "float64"}.get(name, name)

        def arg(i, k, default=None):
            if i < len(args):
                return args[i]
            return kwargs.get(k, default)
        out = kwargs.get("out")
        if name.startswith("random") or name.startswith("random."):
            I.event("nondet", node, fr, "numpy." + name)
            return unk(d | frozenset({"nondet:numpy." + name}))
        # constructors
        if name in ("zeros", "ones", "empty", "full"):
            sh = self.shape_arg(I, st, arg(0, "shape", unk()))
            ld = I.deepdeps(st, arg(0, "shape", unk()))
            kind = self.dtype_kind(st, arg(2 if name == "full" else 1, "dtype"))
            sfd = self.struct_fields(I, st, arg(2 if name == "full" else 1, "dtype"))
            if sfd is not None:
                fields = []
                for n, k in sfd:
                    key = I.alloc(st, I.key(("sf", n), node, fr), Buf(cst(0) if k == "int" else cst(0.0), None, mk("w", node._nid, fr.ctx, n)))
                    fields.append((n, key))
                bk = I.alloc(st, I.key("sfb", node, fr), Buf(unk(), None, mk("w", node._nid, fr.ctx), tuple(fields)))
                ak = I.alloc(st, I.key("sfa", node, fr), Arr(bk, sh, ld))
                return ref(ak, term=mk("loc", ak))
            if name == "full":
                fv = arg(1, "fill_value", unk())
                if fv.refs:
                    xe = self.ai(I, st, fv).elem
                else:
                    xe = fv
                e = self.ecast(I, st, xe, kind)
            elif name == "empty":
                e = num(kind or "float", nan=True)
            else:
                v = 0 if name == "zeros" else 1
                e = cst({"int": int, "bool": bool}.get(kind, float)(v))
            return I.new_arr(st, node, fr, e, sh, "np", ld)
        if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
            x = self.ai(I, st, args[0])
            kind = self.dtype_kind(st, kwargs.get("dtype"))
            if name == "full_like":
                e = self.ecast(I, st, arg(1, "fill_value", unk()), kind)
            elif name == "empty_like":
                e = num("float", nan=True)
            else:
                v = 0 if name == "zeros_like" else 1
                kk = kind or ("int" if x.elem.kinds == KINT else "bool" if x.elem.kinds == KBOOL else "float")
                e = cst({"int": int, "bool": bool}.get(kk, float)(v))
            return I.new_arr(st, node, fr, e, x.shape, "np", x.ldeps)
        if name == "arange":
            start, stop = cst(0), args[0] if args else unk()
            if len(args) >= 2:
                start, stop = args[0], args[1]
            p = None
            if stop.poly() is not None and start.poly() is not None and len(args) < 3:
                p = poly_add(stop.poly(), start.poly(), -1)
            lo = start.lo
            hi = stop.hi - 1 if stop.kinds <= NUMK else INF
            tags = self.lentag(stop.poly()) if start.lo >= 0 and len(args) < 3 else E
            e = AV(KINT, None, lo, max(hi, lo), False, E, d, E, E, mk("arange", stop.term) if start.cval() == (True, 0) and stop.term is not None else None, tags)
            if e.term is not None:
                TT.leafinfo(e.term, e.lo, e.hi, False)
            return I.new_arr(st, node, fr, e, (p,), "np", d)
        if name == "linspace":
            return I.new_arr(st, node, fr, num("float", min(args[0].lo, args[1].lo), max(args[0].hi, args[1].hi), deps=d), (None,), "np", d)
        if name in ("array", "asarray", "ascontiguousarray", "asanyarray", "atleast_1d"):
            a = args[0]
            dt = arg(1, "dtype")
            x = [st.heap.get(l) for l in a.refs]
            cp = kwargs.get("copy")
            nocopy = name != "array" or (cp is not None and cp.cval()[0] and not cp.cval()[1])
            if nocopy and x and all(isinstance(o, Arr) for o in x) and not (a.kinds - {"ref"}):
                return self.maybe_same(I, st, a, self.dtype_kind(st, dt), lambda: self.array_from(I, st, node, fr, a, dt))
            return self.array_from(I, st, node, fr, a, dt)
        if name in ("copy", "copy1d", "require"):
            x = [l for l in args[0].refs if isinstance(st.heap.get(l), Arr)]
            if len(x) == 1 and len(args[0].refs) == 1 and st.heap[bufs_of(st.heap[x[0]])[0]].fields:
                return self.rec_copy(I, st, node, fr, x[0])
            a = self.ai(I, st, args[0])
            sh, cols, ax = a.shape, a.cols, a.axis
            if name == "copy1d" and self.unordered(arg(1, "order"), a.shape):
                a.elem = a.elem.w(term=mk("sel", a.elem.term, mk("F", None)) if a.elem.term is not None and a.elem.const is None else None)
                a.src = None
            if name == "copy1d":
                sh = (psize(sh),)
                if cols is not None and len(a.shape or ()) != 1:
                    cols = None
            return I.new_arr(st, node, fr, a.elem, sh, "cp", a.ldeps, a.src, cols, ax if cols is not None else 0)
        if name == "astype":
            a = self.ai(I, st, args[0])
            kind = self.dtype_kind(st, arg(1, "dtype"))
            e = self.ecast(I, st, a.elem, kind)
            cp = kwargs.get("copy")
            if cp is not None and cp.cval()[0] and not cp.cval()[1] and args[0].refs:
                return self.maybe_same(I, st, args[0], kind, lambda: I.new_arr(st, node, fr, e, a.shape, "as", a.ldeps, a.src, a.cols, a.axis))
            return I.new_arr(st, node, fr, e, a.shape, "as", a.ldeps, a.src, a.cols, a.axis)
        if name == "ravel":
            return self.reshape(I, st, node, fr, args[0], None, ravel=True, order=arg(1, "order"))
        if name == "reshape":
            return self.reshape(I, st, node, fr, args[0], arg(1, "shape", kwargs.get("newshape", unk())), order=arg(2, "order"))
        if name in ("expand_dims", "squeeze", "transpose", "atleast_2d", "broadcast_to", "flip", "flipud", "fliplr", "roll"):
            x = self.ai(I, st, args[0])
            l = x.arrs[0] if x.arrs else None
            sh = None
            if x.shape is not None:
                if name == "expand_dims":
                    c = arg(1, "axis", unk()).cval()
                    if c[0] and isinstance(c[1], int):
                        k = c[1] if c[1] >= 0 else len(x.shape) + 1 + c[1]
                        sh = x.shape[:k] + (ONE,) + x.shape[k:]
                elif name == "squeeze":
                    sh = tuple(p for p in x.shape if p is None or poly_int(p) != 1)
                elif name == "transpose":
                    sh = tuple(reversed(x.shape)) if len(args) < 2 else None
                elif name == "broadcast_to":
                    sh = self.shape_arg(I, st, args[1])
                elif name in ("flip", "flipud", "fliplr", "roll"):
                    sh = x.shape
            if name in ("flip", "flipud", "fliplr", "roll"):
                if l is None or name == "roll":
                    return I.new_arr(st, node, fr, x.elem.w(term=None), sh, "fl", x.ldeps)
                return I.new_view(st, node, fr, l[1], sh, mk("flip", l[1].view, node._nid), "fl")
            if l is None or len(x.arrs) != 1:
                return I.new_arr(st, node, fr, x.elem.w(term=None) if x.elem.const is None else x.elem, sh, "xd", x.ldeps)
            return I.new_view(st, node, fr, l[1], sh, l[1].view if name in ("expand_dims", "squeeze") else mk(name, l[1].view), "xd")
        if name == "where":
            if len(args) == 1:
                return self.nonzero(I, st, node, fr, args[0])
            return self.where3(I, st, node, fr, args[0], args[1], args[2])
        if name == "nonzero":
            return self.nonzero(I, st, node, fr, args[0])
        if name in ("flatnonzero", "argwhere"):
            x = self.ai(I, st, args[0])
            n = psize(x.shape)
            e = self.nz_elem(I, st, x, n)
            r = I.new_arr(st, node, fr, e, (self.nz_len(I, st, x, n),) if name == "flatnonzero" else (None, poly_const(len(x.shape)) if x.shape else None), "nz", x.ldeps | x.elem.deps)
            if name == "flatnonzero" and e.term is not None:
                k, = r.refs
                I.nzinfo[k] = I.nzinfo[st.heap[k].buf] = TT.node[e.term][1]
            return r
        if name in ("max", "min", "nanmax", "nanmin", "mean", "nanmean", "median", "nanmedian", "sum", "nansum", "prod", "std", "nanstd",
                    "var", "ptp", "argmax", "argmin", "nanargmax", "nanargmin", "any", "all", "count_nonzero", "average", "cumsum", "cumprod"):
            r = self.reduce(I, st, node, fr, name, args[0], kwargs, args[1] if len(args) > 1 else None)
            self.fire("reduce", I, st, node, fr, name, args[0], r)
            return r
        if name in self.UNARY:
            f = lambda e: self.un_elem(I, st, name, e)
            r = self.ew(I, st, node, fr, f, [args[0]], "un")
            return self.into(I, st, node, fr, out, r)
        if name in self.BINARY:
            on = self.BINARY[name]
            w = kwargs.get("where")
            f = lambda x, y: scalar_binop(on, x, y, I)
            r = self.ew(I, st, node, fr, f, args[:2], "bn")
            if on == "Div":
                self.norm_src(I, st, args[0], args[1], r)
            if w is not None and out is not None:
                r = self.where3(I, st, node, fr, w, r, out, "bw")
            return self.into(I, st, node, fr, out, r)
        if name in self.CMP:
            return self.ew(I, st, node, fr, lambda x, y: scalar_compare(self.CMP[name], x, y), args[:2], "cm")
        if name == "isclose" and len(args) >= 2:
            tol = [kwargs.get(k, args[i] if len(args) > i else cst(d)) for k, i, d in (("rtol", 2, 1e-05), ("atol", 3, 1e-08))]

            def near(x, y):
                gap = mkop("abs", mkop("-", x.term, y.term))
                lim = mkop("+", tol[1].term, mkop("*", tol[0].term, mkop("abs", y.term)))
                return boolav(x.deps | y.deps | tol[0].deps | tol[1].deps, mkop("le", gap, lim))
            return self.ew(I, st, node, fr, near, args[:2], "ic")
        if name in ("logical_and", "logical_or", "logical_xor"):
            def f(x, y):
                tx, ty = I.truth(x, st), I.truth(y, st)
                dd = x.deps | y.deps
                bx = boolav(dd, I.truth_term(x)) if tx is None else cst(tx, dd)
                by = boolav(dd, I.truth_term(y)) if ty is None else cst(ty, dd)
                return scalar_binop({"logical_and": "BitAnd", "logical_or": "BitOr", "logical_xor": "BitXor"}[name], bx, by)
            return self.ew(I, st, node, fr, f, args[:2], "lg")
        if name in ("maximum", "minimum", "fmax", "fmin"):
            nm = "max" if "max" in name else "min"
            r = self.ew(I, st, node, fr, lambda x, y: self.minmax(I, st, nm, [x, y], E, None, True).w(nan=(x.nan or y.nan) if name[0] == "m" else (x.nan and y.nan)), args[:2], "mm")
            return self.into(I, st, node, fr, out, r)
        if name == "clip":
            x = args[0]
            lo = arg(1, "a_min", kwargs.get("min", c_none()))
            hi = arg(2, "a_max", kwargs.get("max", c_none()))
            r = x
            if not lo.is_none:
                r = self.ew(I, st, node, fr, lambda p, q: self.minmax(I, st, "max", [p, q], E, None, True).w(nan=p.nan), [r, lo], "cl1")
            if not hi.is_none:
                r = self.ew(I, st, node, fr, lambda p, q: self.minmax(I, st, "min", [p, q], E, None, True).w(nan=p.nan), [r, hi], "cl2")
            return self.into(I, st, node, fr, out, r)
        if name in ("hypot",):
            def f(x, y):
                return AV(KFLOAT, None, 0.0, INF, x.nan or y.nan, E, x.deps | y.deps, E, E, mkop("hypot", x.term, y.term))
            return self.ew(I, st, node, fr, f, args[:2], "hy")
        if name in ("arctan2", "atan2"):
            def f(x, y):
                return AV(KFLOAT, None, -math.pi, math.pi, x.nan or y.nan, E, x.deps | y.deps, E, E, mkop("arctan2", x.term, y.term))
            return self.ew(I, st, node, fr, f, args[:2], "at")
        if name in ("isin", "in1d"):
            x = self.ai(I, st, args[0])
            return self.result(I, st, node, fr, boolav(d, mk("isin", x.elem.term, args[1].term) if x.elem.term is not None and args[1].term is not None else None),
                               x.shape, "in", x.ldeps)
        if name in ("add.at", "subtract.at", "multiply.at", "maximum.at", "minimum.at"):
            on = {"add": "Add", "subtract": "Sub", "multiply": "Mult"}.get(name.split(".")[0])
            v = self.ai(I, st, args[2]).elem if len(args) > 2 else cst(1)
            for l in args[0].refs:
                h = st.heap.get(l)
                if isinstance(h, Arr):
                    e = self.elt(st, l, h)
                    nv = scalar_binop(on, e, v, I).w(term=None) if on else v.w(term=None)
                    if on == "Add" and v.lo >= 0:
                        nv = nv.w(hi=INF)
                    elif on:
                        nv = nv.w(lo=-INF, hi=INF)
                    self.arr_set(I, st, node, fr, l, h, [args[1]], nv, len(args[0].refs) == 1, True)
            return c_none()
        if name == "bincount":
            ml = kwargs.get("minlength")
            p = ml.poly() if ml is not None else None
            w = kwargs.get("weights", args[1] if len(args) > 1 else None)
            x = self.ai(I, st, args[0])
            if x.elem.lo < 0 and x.elem.marks:
                self.fire("index", I, st, node, fr, None, None, [x.elem], False)
            e = num("int", 0.0, INF, deps=d) if w is None else num("float", 0.0 if self.ai(I, st, w).elem.lo >= 0 else -INF, INF, deps=d)
            return I.new_arr(st, node, fr, e, (p,), "bc", d)
        if name == "unique":
            x = self.ai(I, st, args[0])
            e = x.elem.w(term=None)
            r = I.new_arr(st, node, fr, e, (None,), "uq", x.ldeps | e.deps)
            extra = [k for k in ("return_index", "return_inverse", "return_counts") if k in kwargs and kwargs[k].cval() == (True, True)]
            if extra:
                items = [r]
                for k in extra:
                    items.append(I.new_arr(st, node, fr, num("int", 0.0 if k != "return_counts" else 1.0, INF, deps=d), (None,), "uq" + k, d))
                return I.new_seq(st, node, fr, "tuple", items, None, tag="uq")
            return r
        if name in ("concatenate", "append", "hstack", "vstack", "stack", "column_stack", "insert", "pad", "delete", "repeat", "tile"):
            return self.concat(I, st, node, fr, name, args, kwargs, d)
        if name in ("sort", "argsort", "lexsort"):
            x = self.ai(I, st, args[0])
            if name == "sort":
                return I.new_arr(st, node, fr, x.elem.w(term=None), x.shape, "so", x.ldeps)
            n = x.shape[0] if x.shape else None
            return I.new_arr(st, node, fr, self.posav(n, d), x.shape, "so", x.ldeps)
        if name == "take":
            i = args[1]
            return self.getitem(I, st, node, fr, args[0], [i])
        if name in ("searchsorted", "digitize"):
            x = self.ai(I, st, args[1])
            return self.result(I, st, node, fr, num("int", 0.0, INF, deps=d), x.shape, "ss")
        if name == "errstate" or name == "seterr" or name == "printoptions":
            return unk()
        if name in ("int64", "int32", "int_", "intp", "int16", "int8", "uint8"):
            return self.cast(I, st, args[0], "int") if not (args and args[0].refs) else self.np_call(I, st, node, fr, "astype", [args[0], fnav("py", "int")], {})
        if name in ("float64", "float32", "float_"):
            return self.cast(I, st, args[0], "float") if not (args and args[0].refs) else self.np_call(I, st, node, fr, "astype", [args[0], fnav("py", "float")], {})
        if name in ("bool_",):
            return self.cast(I, st, args[0], "bool")
        if name in ("size",):
            x = self.ai(I, st, args[0])
            return polyav(x.size, x.ldeps) if x.size is not None else num("int", 0.0, INF, deps=x.ldeps)
        if name in ("shape",):
            return self.ref_attr(I, st, next(iter(args[0].refs)), st.heap[next(iter(args[0].refs))], "shape", node, fr) if args[0].refs else unk()
        if name in ("ndim",):
            x = self.ai(I, st, args[0])
            return cst(len(x.shape)) if x.shape is not None else num("int", 0.0)
        if name in ("array_equal", "allclose", "array_equiv", "may_share_memory", "shares_memory"):
            return boolav(d)
        if name in ("isscalar", "iterable"):
            a = args[0]
            ho = [type(st.heap[l]) for l in a.refs]
            if ho and not a.kinds - {"ref"} and all(x in (Arr, Seq, Dct, Obj, Grid) for x in ho):
                if name == "isscalar" or all(x in (Arr, Seq, Dct) for x in ho):
                    return cst(name != "isscalar")
            if not ho and not a.refs and not a.fns and a.kinds and a.kinds <= (KINT | KFLOAT | KBOOL | KSTR):
                return cst(name == "isscalar" or a.kinds == KSTR) if name == "isscalar" or not a.kinds & KSTR else boolav(d)
            return boolav(d)
        if name in ("dtype",):
            k = I.alloc(st, I.key("dtype", node, fr), Ext("dtype", (args[0],)))
            return ref(k)
        if name in ("unravel_index",):
            sh = self.shape_arg(I, st, args[1])
            x = self.ai(I, st, args[0])
            n = len(sh) if sh is not None else 2
            tg = ["row", "col"] if n == 2 else ["lay", "row", "col"][:n]
            items = [self.result(I, st, node, fr, AV(KINT, None, 0.0, INF, False, E, d, E, E, None, frozenset({(tg[i], 0)})), x.shape, f"ui{i}") for i in range(n)]
            return I.new_seq(st, node, fr, "tuple", items, None, tag="ui")
        if name in ("ravel_multi_index",):
            return AV(KINT, None, 0.0, INF, False, E, d, E, E, None, self.lentag(self.ncell))
        if name == "copyto":
            for l in args[0].refs:
                h = st.heap.get(l)
                if isinstance(h, Arr):
                    w = kwargs.get("where")
                    self.arr_set(I, st, node, fr, l, h, [w] if w is not None else [("slice", c_none(), c_none(), c_none())], args[1], len(args[0].refs) == 1, False)
            return c_none()
        if name in ("put", "place", "putmask"):
            for l in args[0].refs:
                h = st.heap.get(l)
                if isinstance(h, Arr):
                    self.arr_set(I, st, node, fr, l, h, [args[1]], args[2], len(args[0].refs) == 1, False)
            return c_none()
        if name in ("fill_diagonal",):
            for l in args[0].refs:
                h = st.heap.get(l)
                if isinstance(h, Arr):
                    for b in bufs_of(h):
                        I.event("write", node, fr, st.heap[b].owner, "arr", name)
            return c_none()
        if name in ("ndenumerate",):
            x = self.ai(I, st, args[0])
            t = self.tup(I, st, node, fr, "nd", [unk(), x.elem])
            return I.new_seq(st, node, fr, "list", (), t, tag="nd", ldeps=x.ldeps)
        if name in ("fromiter",):
            return self.array_from(I, st, node, fr, args[0], arg(1, "dtype"))
        if name in ("ix_", "meshgrid", "dot", "cross", "einsum", "outer", "diff", "interp", "gradient"):
            if name == "diff":
                x = self.ai(I, st, args[0])
                return I.new_arr(st, node, fr, num("float", deps=d, nan=x.elem.nan), None, "df", x.ldeps)
            return self.opaque(I, st, node, fr, "numpy." + name, args, kwargs)
        if name in ("rec.array", "rec.fromarrays", "core.records.fromarrays", "rec.fromrecords"):
            return self.opaque(I, st, node, fr, "numpy." + name, args, kwargs)
        return self.opaque(I, st, node, fr, "numpy." + name, args, kwargs)

    def into(self, I, st, node, fr, out, r):
        """Result of a call with an `out` argument."""
        if out is None or out.is_none:
            return r
        for l in out.refs:
            h = st.heap.get(l)
            if isinstance(h, Arr):
                self.arr_set(I, st, node, fr, l, h, [("slice", c_none(), c_none(), c_none())], r, len(out.refs) == 1, False)
        return out

    def concat(self, I, st, node, fr, name, args, kwargs, d):
        if name in ("repeat", "tile", "pad", "delete", "insert"):
            x = self.ai(I, st, args[0])
            e = x.elem
            if name == "insert" and len(args) > 2:
                e = join(e, self.ai(I, st, args[2]).elem).w(term=None)
            sh = None
            if x.shape is not None and len(x.shape) <= 1:
                sh = (None,)
                if name == "tile" and args[1].poly() is not None and x.size is not None:
                    sh = (poly_mul(x.size, args[1].poly()),)
            return I.new_arr(st, node, fr, withdeps(e.w(term=None) if e.const is None else e, d), sh, "ct", d)
        if name == "append":
            parts = list(args[:2])
            ravel = len(args) < 3 and "axis" not in kwargs
        else:
            kn, el, ld = self.iterate(I, st, args[0], node, fr)
            parts = kn if kn is not None else None
            ravel = False
            if parts is None:
                x = self.ai(I, st, el) if el is not None else None
                return I.new_arr(st, node, fr, (x.elem.w(term=None) if x is not None else unk(d)), None, "ct", d)
        xs = [self.ai(I, st, p) for p in parts]
        e, n, ld = None, ZERO, E
        shape = None
        for x in xs:
            ld |= x.ldeps
            if x.elem.kinds:
                e = join(e, x.elem).w(term=None) if e is not None else x.elem
            if n is not None:
                sz = x.size if (ravel or (x.shape is not None and len(x.shape) <= 1)) else None
                n = poly_add(n, sz) if sz is not None else None
        if ravel or all(x.shape is not None and len(x.shape) <= 1 for x in xs):
            shape = (n,)
        if name in ("stack", "vstack", "column_stack"):
            shape = None
            if all(x.shape is not None and len(x.shape) == 1 for x in xs):
                inner = xs[0].shape[0]
                shape = (poly_const(len(xs)), inner) if name != "column_stack" else (inner, poly_const(len(xs)))
                if name == "stack" and kwargs.get("axis", cst(0)).cval() not in ((True, 0),):
                    shape = (inner, poly_const(len(xs)))
                ax = 0 if shape[0] == poly_const(len(xs)) and shape[0] != inner else 1
                return I.new_arr(st, node, fr, (e.w(term=None) if len(xs) > 1 else e) if e is not None else num("float"), shape, "ct", ld, None,
                                 tuple(x.elem for x in xs), ax)
        if e is None:
            e = num("float")
        return I.new_arr(st, node, fr, e.w(term=None) if len(xs) > 1 and e.const is None else e, shape, "ct", ld)

    def nz_len(self, I, st, x, n):
        tv = I.truth(x.elem, st)
        if tv is True:
            return n
        if tv is False:
            return ZERO
        return None

    def nz_elem(self, I, st, x, n):
        d = x.elem.deps
        tags = self.lentag(n)
        t = None
        tt = I.truth_term(x.elem)
        if tt is not None:
            tags = tags | frozenset({("where", (tt,))})
            t = mk("nz", tt)
            TT.leafinfo(t, 0.0, INF, False)
        r = self.posav(n, d, t)
        return r.w(tags=tags)

    def nonzero(self, I, st, node, fr, v):
        x = self.ai(I, st, v)
        if x.shape is None:
            return I.new_seq(st, node, fr, "tuple", (I.new_arr(st, node, fr, num("int", 0.0, INF, deps=x.elem.deps), (None,), "nz0", x.ldeps | x.elem.deps),),
                             None, tag="nz")
        items = []
        for i, n in enumerate(x.shape):
            e = self.nz_elem(I, st, x, n)
            if len(x.shape) > 1:
                e = e.w(term=None, tags=self.lentag(n))
            ln = self.nz_len(I, st, x, n) if len(x.shape) == 1 else None
            items.append(I.new_arr(st, node, fr, e, (ln,), f"nz{i}", x.ldeps | x.elem.deps))
            if e.term is not None and len(x.shape) == 1:
                I.nzinfo[next(iter(items[-1].refs))] = I.nzinfo[st.heap[next(iter(items[-1].refs))].buf] = TT.node[e.term][1]
        return I.new_seq(st, node, fr, "tuple", items, None, tag="nz")

    def unordered(self, order, shape):
        """May the order of the elements change (column-major reading)?"""
        if order is None or shape is not None and len(shape) <= 1:
            return False
        c = order.cval()
        return not c[0] or c[1] not in ("C", "A", "K", None)

    def reshape(self, I, st, node, fr, v, shv, ravel=False, order=None):
        x = self.ai(I, st, v)
        size = x.size
        ld = x.ldeps
        if ravel:
            shape = (size,)
        else:
            shape = self.shape_arg(I, st, shv)
            ld = ld | I.deepdeps(st, shv)
            neg = None
            if shape is not None:
                for i, p in enumerate(shape):
                    if p is not None and poly_int(p) == -1:
                        neg = i
                if neg is not None:
                    rest = [p for i, p in enumerate(shape) if i != neg]
                    q = None
                    if size is not None and all(p is not None for p in rest):
                        r = ONE
                        for p in rest:
                            r = poly_mul(r, p)
                        q = poly_div(size, r)
                    shape = shape[:neg] + (q,) + shape[neg + 1:]
                elif size is not None and psize(shape) is not None and differ(size, psize(shape)):
                    I.event("deferr", node, fr, f"array of {poly_str(size)} elements cannot be reshaped to {self.shp([shape])}", definite=True)
                    I.do_raise(st.copy(), "ValueError", node, fr)
                    raise Dead()
        out = None
        rest = v.kinds - {"ref"}
        for l, a in x.arrs:
            view = a.view
            if self.unordered(order, a.shape) or not ravel and self.unordered(order, shape):
                view = mk("F", view)
            cols = None
            if view == a.view and a.cols is not None and a.shape is not None and shape is not None and len(a.shape) == len(shape) == 1:
                cols = a.cols
            r = I.new_view(st, node, fr, a, shape, view, "rs", ldeps=a.ldeps | ld, cols=cols)
            out = r if out is None else join(out, r)
        if not x.arrs or (rest and rest != KNONE):
            e = x.elem
            if not x.arrs and e.const is None and (self.unordered(order, x.shape) or not ravel and self.unordered(order, shape)):
                e = e.w(term=mk("sel", e.term, mk("F", None)) if e.term is not None else None)
            r = I.new_arr(st, node, fr, e, shape, "rsn", ld)
            out = r if out is None else join(out, r)
        return out
