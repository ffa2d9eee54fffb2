"""Abstract values, terms and polynomials for the dany analyser.

A value is described by the kinds of Python object it may be, an interval with
a nan flag, the negative *marker* constants it may still carry, the labels of
the inputs it depends on, the heap locations it may refer to, and a value
number ("term") that lets two occurrences of the same value be recognised.
"""
import math
from typing import NamedTuple, Optional, FrozenSet, Any

INF = float("inf")
E = frozenset()


# ---------------------------------------------------------------- terms
class Terms:
    """Hash-consing table: a term is an int, children are term ints."""

    def __init__(self):
        self.tab = {}
        self.node = []
        self.depth = []
        self.base = {}

    def mk(self, *node):
        t = self.tab.get(node)
        if t is None:
            d = 1
            for c in node[1:]:
                if type(c) is T:
                    d = max(d, self.depth[c] + 1)
            t = T(len(self.node))
            self.tab[node] = t
            self.node.append(node)
            self.depth.append(d)
        return t

    def leafinfo(self, t, lo, hi, nan):
        o = self.base.get(t)
        if o is not None:
            lo, hi, nan = min(lo, o[0]), max(hi, o[1]), nan or o[2]
        self.base[t] = (lo, hi, nan)


class T(int):
    __slots__ = ()


TT = Terms()


def mk(*node):
    return TT.mk(*node)


def mkop(op, *ts):
    """Composite term, or None when an operand is unnamed or nesting is deep."""
    for t in ts:
        if t is None or type(t) is T and TT.depth[t] > 20:
            return None
    return TT.mk(op, *ts)


def subst(t, a, b, depth=0):
    """The term with one subterm replaced."""
    if t == a:
        return b
    n = TT.node[t]
    if depth > 8 or n[0] == "c":
        return t
    cs = tuple(subst(x, a, b, depth + 1) if type(x) is T else x for x in n[1:])
    if cs == n[1:]:
        return t
    r = mk(n[0], *cs)
    if t in TT.base and r not in TT.base:
        TT.base[r] = TT.base[t]
    return r


# ---------------------------------------------------------------- polynomials
def poly_const(n):
    return frozenset({((), n)}) if n else E


def poly_sym(s):
    return frozenset({((s,), 1)})


def poly_add(a, b, sb=1):
    d = dict(a)
    for m, c in b:
        d[m] = d.get(m, 0) + sb * c
    return frozenset((m, c) for m, c in d.items() if c)


def poly_mul(a, b):
    d = {}
    for m, c in a:
        for n, e in b:
            k = tuple(sorted(m + n))
            d[k] = d.get(k, 0) + c * e
    return frozenset((m, c) for m, c in d.items() if c)


def poly_int(p):
    """The integer a polynomial denotes, or None."""
    if not p:
        return 0
    if len(p) == 1:
        (m, c), = p
        if m == ():
            return c
    return None


def poly_div(a, b):
    """a / b when b is a monomial dividing every monomial of a, else None."""
    if len(b) != 1:
        return poly_const(1) if a == b and a else None
    (mb, cb), = b
    out = {}
    for m, c in a:
        m = list(m)
        for s in mb:
            if s not in m:
                return None
            m.remove(s)
        if c % cb:
            return None
        out[tuple(m)] = c // cb
    return frozenset(out.items())


def poly_str(p):
    if p is None:
        return "?"
    if not p:
        return "0"
    parts = []
    for m, c in sorted(p, key=lambda x: (-len(x[0]), x)):
        s = "*".join(m)
        parts.append((str(c) if not m else (s if c == 1 else f"{c}*{s}")))
    return "+".join(parts).replace("+-", "-")


# ---------------------------------------------------------------- values
class AV(NamedTuple):
    kinds: FrozenSet[str] = E        # int float bool str None ref fn unk
    const: Any = None                # ('c', type, value) or ('p', poly)
    lo: float = -INF
    hi: float = INF
    nan: bool = False
    marks: FrozenSet = E             # of (site, value)
    deps: FrozenSet[str] = E
    refs: FrozenSet = E
    fns: FrozenSet = E
    term: Optional[int] = None
    tags: FrozenSet = E              # what the value certainly is: (kind, offset)

    def w(self, **k):
        return self._replace(**k)

    @property
    def is_none(self):
        return self.kinds == KNONE

    @property
    def may_none(self):
        return "None" in self.kinds

    def cval(self):
        """(True, value) when the Python constant is known."""
        if self.const is not None and self.const[0] == "c":
            return True, self.const[2]
        return False, None

    def poly(self):
        if self.const is None:
            return None
        if self.const[0] == "p":
            return self.const[1]
        if self.const[1] in ("int", "bool"):
            return poly_const(int(self.const[2]))
        return None


KNONE = frozenset({"None"})
KINT = frozenset({"int"})
KFLOAT = frozenset({"float"})
KBOOL = frozenset({"bool"})
KSTR = frozenset({"str"})
KREF = frozenset({"ref"})
KFN = frozenset({"fn"})
KUNK = frozenset({"unk"})
KNUM = frozenset({"int", "float"})
NUMK = frozenset({"int", "float", "bool"})
NUMNONE = frozenset({"int", "float", "bool", "None"})


def c_none():
    return AV(KNONE, ("c", "None", None), term=mk("c", "None", None))


def cst(v, deps=E):
    if v is None:
        return AV(KNONE, ("c", "None", None), deps=deps, term=mk("c", "None", None))
    if isinstance(v, bool):
        return AV(KBOOL, ("c", "bool", v), float(v), float(v), deps=deps, term=mk("c", "bool", v))
    if isinstance(v, int):
        return AV(KINT, ("c", "int", v), float(v), float(v), deps=deps, term=mk("c", "int", v))
    if isinstance(v, float):
        if v != v:
            return AV(KFLOAT, ("c", "float", "nan"), 0.0, 0.0, True, deps=deps, term=mk("c", "float", "nan"))
        return AV(KFLOAT, ("c", "float", v), v, v, deps=deps, term=mk("c", "float", v))
    if isinstance(v, str):
        return AV(KSTR, ("c", "str", v), deps=deps, term=mk("c", "str", v))
    if isinstance(v, bytes):
        return AV(KSTR, ("c", "bytes", v), deps=deps, term=mk("c", "bytes", v))
    if v is Ellipsis:
        return AV(frozenset({"ellipsis"}), ("c", "ellipsis", None), deps=deps)
    return AV(KUNK, deps=deps)


def polyav(p, deps=E):
    n = poly_int(p)
    if n is not None:
        return cst(n, deps)
    lo = 1.0 if all(c > 0 for _, c in p) else -INF
    if lo == 1.0 and () in dict(p):
        lo += dict(p)[()]
    elif lo != 1.0 and len(p) == 2 and dict(p).get((), 0) == -1 and all(c > 0 for m, c in p if m):
        lo = 0.0
    return AV(KINT, ("p", p), lo, INF, deps=deps, term=mk("p", p))


def unk(deps=E, term=None):
    return AV(KUNK, None, -INF, INF, True, E, deps, E, E, term)


def num(kind="float", lo=-INF, hi=INF, nan=False, deps=E, marks=E, term=None):
    return AV(frozenset({kind}), None, lo, hi, nan, marks, deps, E, E, term)


def boolav(deps=E, term=None):
    return AV(KBOOL, None, 0.0, 1.0, False, E, deps, E, E, term)


def strav(deps=E, term=None):
    return AV(KSTR, deps=deps, term=term)


def ref(loc, deps=E, term=None):
    return AV(KREF, deps=deps, refs=frozenset({loc}), term=term)


def fnav(*f, deps=E):
    return AV(KFN, deps=deps, fns=frozenset({f}), term=mk("fn", f))


def jtags(a, b):
    """Tags common to both; a constant does not spoil where the values are from."""
    if a.tags == b.tags and a.lo >= 0 and b.lo >= 0:
        return a.tags
    oa, ob = (frozenset(t for t in x.tags if t[0] == "of") for x in (a, b))
    if not oa and not ob:
        return jtags1(a, b)
    out = jtags1(a.w(tags=a.tags - oa), b.w(tags=b.tags - ob))
    return out | (oa & ob) | (oa if scalar(b) else E) | (ob if scalar(a) else E)


def scalar(v):
    """A constant, or one number computed from a whole array."""
    return v.const is not None or v.term is not None and aggregate(v.term, 4)


def aggregate(t, d):
    if type(t) is not T:
        return True
    n = TT.node[t]
    return n[0] in ("red", "c", "p", "len", "size") or d > 0 and n[0] in ("+", "-", "*", "/", "neg") and all(aggregate(c, d - 1) for c in n[1:])


def jtags1(a, b):
    """Tags common to both; a marker constant or None does not spoil them."""
    ta, tb = a.tags, b.tags
    if a.lo >= 0 and b.lo >= 0 and ta == tb:
        return ta
    oa, ob = nnoff(a), nnoff(b)
    ta, tb = nonn(ta), nonn(tb)
    if ta == tb:
        out = ta
    elif plain_marker(a):
        out = tb
    elif plain_marker(b):
        out = ta
    else:
        out = ta & tb
    if oa is not None and ob is not None and min(a.lo, b.lo) < 0:
        o = min(oa, ob)
        if o != INF:
            out = out | {("nn", int(o))}
    return out


def nonn(tags):
    return frozenset(t for t in tags if t[0] != "nn") if any(t[0] == "nn" for t in tags) else tags


def nnoff(a):
    """Least value other than a marker, or None when unknown."""
    if a.kinds == KNONE:
        return INF
    if not a.kinds <= NUMNONE:
        return None
    for t, o in a.tags:
        if t == "nn":
            return o
    if a.lo >= 0:
        return math.floor(a.lo) if a.lo != INF else INF
    if a.kinds == KINT and a.hi < 0 and a.marks:
        return INF
    return None


def plain_marker(a):
    if a.kinds == KNONE:
        return True
    return a.kinds == KINT and a.hi < 0 and not a.tags


def dtof(kinds):
    if "float" in kinds and kinds <= NUMK:
        return "float"
    if kinds == KBOOL:
        return "bool"
    if "int" in kinds and kinds <= NUMK:
        return "int"
    return None


def shift_tags(tags, d):
    return frozenset((k, o + d) for k, o in tags if isinstance(o, int))


def join(a, b, term=None):
    """Least upper bound; `term` names the result when the terms differ."""
    if a is b or a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if not a.kinds:
        return b
    if not b.kinds:
        return a
    an = a.kinds & NUMK or "unk" in a.kinds
    bn = b.kinds & NUMK or "unk" in b.kinds
    if an and bn:
        lo, hi, nan = min(a.lo, b.lo), max(a.hi, b.hi), a.nan or b.nan
    elif an:
        lo, hi, nan = a.lo, a.hi, a.nan
    elif bn:
        lo, hi, nan = b.lo, b.hi, b.nan
    else:
        lo, hi, nan = -INF, INF, False
    return AV(a.kinds | b.kinds, a.const if a.const == b.const else None, lo, hi, nan,
              a.marks | b.marks, a.deps | b.deps, a.refs | b.refs, a.fns | b.fns,
              a.term if a.term == b.term else term, jtags(a, b))


def widen(old, new):
    if old is None or old == new or not old.kinds:
        return new
    on, nn = [t for t in old.tags if t[0] == "nn"], [t for t in new.tags if t[0] == "nn"]
    if on and nn and on != nn:
        new = new.w(tags=nonn(new.tags))
    lo = new.lo if new.lo >= old.lo else (0.0 if new.lo >= 0 else -INF)
    hi = new.hi if new.hi <= old.hi else INF
    if (lo, hi) != (new.lo, new.hi):
        return new.w(lo=lo, hi=hi)
    return new


def withdeps(a, deps):
    if deps <= a.deps:
        return a
    return a.w(deps=a.deps | deps)


# ---------------------------------------------------------------- heap objects
class Buf(NamedTuple):
    """Storage of an array.  Views share the Buf, copies get a new one."""
    elem: AV
    owner: Optional[str] = None
    ver: int = 0
    fields: Any = None          # tuple of (name, AV): a record array
    multi: bool = False
    src: Any = None             # provenance tag, e.g. ('norm',), ('ratio', ..)
    dt: Optional[str] = None    # kind of number the storage holds, when certain
    nz: Any = E                 # masks of older versions whose cells are still not zero


class Arr(NamedTuple):
    buf: Any
    shape: Any = None           # tuple of poly|None, or None when unknown
    ldeps: FrozenSet[str] = E
    view: Any = None            # term of the slice that made it, for alignment
    multi: bool = False
    cols: Any = None            # tuple of AV: known distinct rows/columns
    axis: int = 0               # axis along which `cols` are laid out


class Seq(NamedTuple):
    kind: str                   # list tuple set frozenset deque
    items: tuple = ()           # known prefix
    rest: Optional[AV] = None   # any further element; None = exactly `items`
    ldeps: FrozenSet[str] = E
    owner: Optional[str] = None
    ver: int = 0
    multi: bool = False
    lenpoly: Any = None


class Dct(NamedTuple):
    known: tuple = ()           # of (const key, AV)
    key: Optional[AV] = None
    val: Optional[AV] = None
    ldeps: FrozenSet[str] = E
    owner: Optional[str] = None
    ver: int = 0
    multi: bool = False
    default: Any = None         # default factory AV


class Obj(NamedTuple):
    cls: str
    fields: tuple = ()          # of (name, AV), kept as sorted tuple
    multi: bool = False
    owner: Optional[str] = None

    def get(self, k):
        for n, v in self.fields:
            if n == k:
                return v
        return None

    def put(self, k, v):
        d = dict(self.fields)
        d[k] = v
        return self._replace(fields=tuple(sorted(d.items())))


class Grid(NamedTuple):
    kind: str                   # structured vertex unstructured
    fields: tuple = ()
    owner: str = "grid"
    ncache: Optional[str] = None
    multi: bool = False

    get = Obj.get
    put = Obj.put


class Ext(NamedTuple):
    kind: str                   # file, geocollection, module-like things
    info: Any = None
    multi: bool = False
    owner: Optional[str] = None
