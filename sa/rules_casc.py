"""Rules on lists of links: the arrays they are made from are written out for a
representative network, and the links read off it."""
import math
from .av import *
from .tour import *
from .rules_base import halted, hist, method_nid, KINDS
from .rules_value import named
from .rules_num import subterms
from .rules_term import Unsure, apply, close, elem_term, truthy, NAN
from .rules_table import Row, free


def lift(f, xs):
    """Apply a function of numbers to arrays (nested lists), element by element."""
    lists = [x for x in xs if isinstance(x, list)]
    if not lists:
        return f(*xs)
    deep = [x for x in lists if x and isinstance(x[0], list)]
    if deep:
        n, k = len(deep[0]), len(deep[0][0])
        if n == k or any(len(x) != n or any(len(y) != k for y in x) for x in deep):
            raise Unsure
        ys = []
        for x in xs:
            if isinstance(x, list) and x not in deep:
                if len(x) not in (n, k):
                    raise Unsure
                x = [[v] * k for v in x] if len(x) == n else [x] * n
            ys.append(x)
        return [lift(f, [y[i] if isinstance(y, list) else y for y in ys]) for i in range(n)]
    n = {len(x) for x in lists}
    if len(n) != 1:
        raise Unsure
    return [f(*[x[i] if isinstance(x, list) else x for x in xs]) for i in range(n.pop())]


def pick(x, i):
    """Elements of an array at (an array of) positions."""
    if isinstance(i, list):
        if i and isinstance(i[0], bool):
            if len(i) != len(x):
                raise Unsure
            return [a for a, b in zip(x, i) if b]
        return [pick(x, j) for j in i]
    if isinstance(i, bool) or not isinstance(i, int) or not isinstance(x, list):
        raise Unsure
    if not -len(x) <= i < len(x):
        raise IndexError
    return x[i]


class Whole(Row):
    """Terms read as whole arrays of a representative network; leaves: contents
    of named arrays."""

    def __init__(self, I, st, base, sizes, log, spoilt=()):
        Row.__init__(self, I, st, {}, ())
        self.base, self.sizes, self.log, self.spoilt = base, sizes, log, spoilt
        self.deep, self.memo, self.done, self.used, self.asof = 0, {}, {}, set(), {}

    # ---- leaves
    def leaf(self, t):
        """A named array, by term or by what it is known to hold."""
        if t in self.base:
            return self.base[t]
        n = TT.node[t]
        if n[0] == "input":
            return self.base.get(n[1])
        if n[0] == "grid":
            return self.base.get(n[1] + ":" + n[2])
        if n[0] == "elt":
            b = self.st.heap.get(n[1])
            if not isinstance(b, Buf) or b.multi or b.elem is None:
                return None
            if "grid:neigh" in b.elem.deps and not b.elem.deps & {"grid:xcenters", "grid:ycenters"} and b.elem.kinds == {"int"} and not b.fields \
                    and b.elem.term in (None, t) and any(isinstance(h, Arr) and h.buf == n[1] and h.view is None and h.shape is not None and len(h.shape) == 2 for h in self.st.heap.values()):
                return self.base.get("neighbors")
            for x in [x for k, x in b.elem.tags if k == "of"]:
                if x in self.base and x != "xstrm":
                    return self.sized(n[1], self.base[x])
        return None

    def sized(self, buf, x):
        """An array of the grid, with the padding at its end if it has one."""
        n = self.sizes[""]
        for h in self.st.heap.values():
            if isinstance(h, Arr) and h.buf == buf and h.view is None and h.shape is not None and len(h.shape) == 1 and h.shape[0] is not None:
                k = self.poly(h.shape[0])
                if k in (n, n + 1):
                    return x[:k]
        raise Unsure

    def poly(self, p):
        v = 0
        for m, c in p:
            for s in m:
                if s not in self.sizes:
                    raise Unsure
                c *= self.sizes[s]
            v += c
        return v

    # ---- contents of things in memory
    def held(self, l, ver=None):
        """Elements of a list or array."""
        if ver is None:
            ver = self.asof.get(l)
        if isinstance(self.st.heap.get(l), Arr):
            return self.contents(l, ver)
        return self.once((l, ver, id(self.st)), lambda: self.contents(l, ver))

    def contents(self, l, ver):
        if self.deep > 40 or l in self.spoilt:
            raise Unsure
        self.deep += 1
        try:
            h = self.st.heap.get(l)
            if isinstance(h, Arr):
                x = self.held(h.buf)
                return self.seen(x, h.view) if h.view is not None else x
            if isinstance(h, Buf):
                src = self.I.arrof.get(l)
                if src is not None and src[0] == ver:
                    return self.value(src[1], src[2])
                if ver is not None and ver != h.ver or h.multi or h.fields:
                    raise Unsure
                here = mk("elt", l, h.ver)
                x = self.leaf(here)
                if x is not None:
                    return x
                if src is not None and src[0] == h.ver:
                    return self.value(src[1], src[2])
                e = h.elem
                if e is not None and e.term is not None and e.term != here:
                    m = TT.node[e.term]
                    x = self.guess(m[1]) if m[0] == "nz" else None
                    if isinstance(x, bool):      # one answer for all positions
                        return [i for i, y in enumerate(self.spread(l, x)) if y]
                    x = self.ev(e.term)
                    if not isinstance(x, list):
                        x = self.spread(l, x)
                    return x
                raise Unsure
            if isinstance(h, Seq):
                if h.rest is None and not h.multi and l not in self.log:
                    return [self.value(x) for x in h.items]
                made = self.I.seqof.get(l)
                if made is not None and (ver is None or made[0] == ver) and (made[0] == h.ver or h.multi and l not in self.log):
                    return self.made(made)
                if ver is not None and ver != h.ver:
                    raise Unsure
                if l in self.log:
                    return self.pushed(l)
                s = self.I.slinfo.get(l)
                if s is not None and s[0] == h.ver and s[1] is not None and "?" not in s[2]:
                    return self.ev(s[1])[slice(*s[2])]
            raise Unsure
        finally:
            self.deep -= 1

    def spread(self, l, x):
        for h in self.st.heap.values():
            if isinstance(h, Arr) and h.buf == l and h.view is None and h.shape is not None and len(h.shape) == 1 and h.shape[0] is not None:
                return [x] * self.poly(h.shape[0])
        raise Unsure

    def value(self, v, stamp=None):
        """What an abstract value stands for here (or stood for, when the things
        it refers to had the versions stamped)."""
        if stamp is not None:
            keep, self.asof = self.asof, stamp
            try:
                return self.value(v)
            finally:
                self.asof = keep
        if v.const is not None and v.const[0] == "c" and not v.refs:
            return self.ev(mk(*v.const))
        if v.term is not None and TT.node[v.term][0] != "loc":
            try:
                return self.ev(v.term)
            except Unsure:
                if not v.refs:
                    raise
        if len(v.refs) == 1 and not v.kinds - {"ref"}:
            return self.held(next(iter(v.refs)))
        raise Unsure

    def made(self, m):
        if m[1] == "of":
            x = self.value(m[2], m[3])
            if not isinstance(x, list):
                raise Unsure
            return list(x)
        if m[1] == "rep":
            n = self.value(m[3])
            if isinstance(n, bool) or not isinstance(n, int):
                raise Unsure
            return [self.value(x) for x in m[2]] * n
        if m[1] == "cat":
            return [y for x, old in zip(m[2::2], m[3::2]) for y in self.value(x, old)]
        if m[1] == "comp":
            out = []
            for _ in self.over(m[4]):
                if self.holds([a for a in m[3] if self.about(a, m[4])]):
                    out.append(self.value(m[2]))
            return out
        raise Unsure

    def about(self, a, its):
        return any(type(y) is T and any(x in its or TT.node[x][0] == "iti" and TT.node[x][1] in its for x in subterms(y)) for y in a[1:])

    def over(self, its):
        """Run through nested iterations, setting their elements."""
        if not its:
            yield
            return
        base = its[0]
        keep = self.picks
        for new in self.domain(base):
            self.picks = {**keep, **new}
            try:
                yield from self.over(its[1:])
            finally:
                self.picks = keep

    def domain(self, base):
        """The values an iteration's terms take, in order."""
        v, stamp = self.I.iterof.get(base, (None, None))
        if v is None or len(v.refs) != 1:
            raise Unsure
        h = self.st.heap.get(next(iter(v.refs)))
        at = mk("iti", base, 99)
        if isinstance(h, Ext) and h.kind == "iter":
            k = h.info[0]
            if k == "enumerate":
                x = self.value(h.info[1], stamp)
                s = self.value(h.info[2], stamp)
                return [{mk("iti", base, 1): i + s, mk("iti", base, 2): y} for i, y in enumerate(x)]
            if k == "zip":
                xs = [self.value(y, stamp) for y in h.info[1]]
                return [{at: i, **{mk("iti", base, j + 1): y for j, y in enumerate(r)}} for i, r in enumerate(zip(*xs))]
            if k == "range":
                a, b, c = (self.value(y, stamp) for y in h.info[1:4])
                return [{base: i} for i in range(a, b, c)]
            raise Unsure
        x = self.value(v, stamp)
        if not isinstance(x, list):
            raise Unsure
        return [{base: y, at: i} for i, y in enumerate(x)]

    def pushed(self, l):
        """A list filled in loops: what is added in each turn, in order."""
        if l in self.done:
            if self.done[l] is None:
                raise Unsure
            return self.done[l]
        sites = self.log[l]
        its = None
        for how, st, v in sites:
            xs = [a for f in st.facts for y in f[1:] if type(y) is T for a in self.bases(y)] + [a for y in self.inside(st, v) for a in self.bases(y)]
            mine = self.nest(xs)
            its = mine if its is None or its[:len(mine)] == mine else its if mine[:len(its)] == its else None
            if its is None:
                raise Unsure
        if not its:
            raise Unsure
        its = its[:1]
        out, old = [], self.st
        if its[0] in self.picks:
            raise Unsure
        self.done[l] = None
        for _ in self.over(its):
            for how, st, v in sites:
                self.st = st
                try:
                    if not self.holds([a for a in st.facts if a[0] != "rng" and self.about(a, its)]):
                        continue
                    x = self.value(v)
                finally:
                    self.st = old
                if how == "push":
                    out.append(x)
                elif isinstance(x, list):
                    out += x
                else:
                    raise Unsure
            if self.left(its):
                break
        self.done[l] = out
        return out

    def left(self, its):
        """Is the loop left at the element at hand?"""
        _, nid, ctx = TT.node[its[0]][:3]
        old = self.st
        for (_, c), st in self.I.exits.get(nid, {}).items():
            if c != ctx:
                continue
            fs = [a for a in st.facts if a[0] != "rng" and self.about(a, its)]
            self.st = st
            try:
                if self.holds(fs):
                    if any(a[0] == "?" for a in st.facts):
                        raise Unsure
                    return True
            finally:
                self.st = old
        return False

    def bases(self, t):
        return {x if TT.node[x][0] == "it" else TT.node[x][1] for x in subterms(t) if TT.node[x][0] in ("it", "iti")}

    def inside(self, st, v):
        """Terms a value is made from."""
        out, todo = [], [v]
        seen = set()
        while todo:
            v = todo.pop()
            if v.term is not None:
                out.append(v.term)
                todo += [AV(KREF, refs=frozenset({TT.node[x][1]})) for x in subterms(v.term) if TT.node[x][0] in ("elt", "loc", "len") and TT.node[x][1] not in seen]
            for l in v.refs - seen:
                seen.add(l)
                m = self.I.seqof.get(l)
                todo += [x for x in m[2:] if isinstance(x, AV)] + [x for y in m[2:] if isinstance(y, tuple) for x in y if isinstance(x, AV)] if m else []
                h = st.heap.get(l)
                if isinstance(h, Arr):
                    b = st.heap.get(h.buf)
                    todo += [b.elem] if isinstance(b, Buf) and b.elem is not None and b.elem.term is not None else []
                    if h.buf in self.I.arrof:
                        todo.append(self.I.arrof[h.buf][1])
        return out

    def nest(self, xs):
        """The loops (not comprehensions) the terms vary with."""
        prog = self.I.prog
        xs = {x for x in xs if type(prog.nodes[TT.node[x][1]]).__name__ != "comprehension"}
        return tuple(sorted(xs, key=lambda x: len(prog.nodes[TT.node[x][1]]._loops)))

    # ---- expressions
    def seen(self, x, view):
        if view is None:
            return x
        n = TT.node[view]
        if n[0] == "row":
            x = self.seen(x, n[1])
            return pick(x, self.ev(n[2]))
        if n[0] in ("expand_dims", "squeeze"):
            return self.seen(x, n[1]) if len(n) > 1 else x
        if n[0] == "slv" and n[2] == 0:
            x = self.seen(x, n[1])
            s = TT.node[n[3]]
            if s[0] != "sl" or not isinstance(x, list):
                raise Unsure
            return x[slice(*[None if TT.node[y] == ("c", "None", None) else self.ev(y) for y in s[1:]])]
        if n[0] == "mask":
            return pick(x, self.ev(n[1]))
        raise Unsure

    def ev(self, t):
        if t in self.picks:
            self.used.add(t)
            return self.picks[t]
        return self.once((t, id(self.st)), lambda: self.ev1(t))

    def once(self, k, f):
        """A value that was read before, if the elements it was read for are the same."""
        if k in self.memo:
            x, on = self.memo[k]
            if all(p in self.picks and self.picks[p] is y for p, y in on):
                self.used.update(p for p, _ in on)
                return x
        keep, self.used = self.used, set()
        try:
            x = f()
            self.memo[k] = x, [(p, self.picks[p]) for p in self.used if p in self.picks]
            return x
        finally:
            keep |= self.used
            self.used = keep

    def ev1(self, t):
        n = TT.node[t]
        k = n[0]
        x = self.leaf(t)
        if x is not None:
            return x
        if k == "c":
            if n[1] == "None":
                return None
            if n[1] not in ("int", "float", "bool"):
                raise Unsure
            return NAN if n[2] == "nan" else n[2]
        if k == "p":
            return self.poly(n[1])
        if k == "phi":
            return self.ev(self.taken(t))
        if k in ("elt", "loc"):
            return self.held(n[1], n[2] if k == "elt" else None)
        if k == "eltm":
            return self.ev(n[1])
        if k == "sq":
            return pick(self.held(n[1], n[2]), self.ev(n[3]))
        if k == "el":
            x = self.ev(mk("elt", n[1], n[2]))
            x = self.seen(x, n[3])
            for i in n[4:]:
                x = pick(x, self.ev(i))
            return x
        if k == "gath":
            x = self.ev(n[1])
            ix = [self.ev(i) for i in n[2:]]
            if len(ix) == 1:
                return pick(x, ix[0])
            if len(ix) == 2 and not isinstance(ix[0], list):
                return pick(pick(x, ix[0]), ix[1])
            raise Unsure
        if k == "sel":
            return self.seen(self.ev(n[1]), n[2])
        if k == "nz":
            x = self.ev(n[1])
            if not isinstance(x, list) or x and isinstance(x[0], list):
                raise Unsure
            return [i for i, y in enumerate(x) if truthy(y)]
        if k == "mask" and len(n) == 2:
            x = self.ev(n[1])
            return lift(truthy, [x])
        if k == "arange":
            n = self.poly(n[1]) if not type(n[1]) is T else self.ev(n[1])
            return list(range(n))
        if k in ("len", "size"):
            return len(self.held(n[1], n[2] if len(n) > 2 and type(n[2]) is T else None))
        if k == "memb":
            return self.ev(n[1]) in self.held(n[2], n[3] if len(n) > 3 else None)
        if k == "red" and len(n) == 3:
            return self.reduced(n[1], self.ev(n[2]))
        if k == "quant":
            x = self.ev(n[2])
            return (any if n[1] == "any" else all)(truthy(y) for y in x)
        if k == "isnone":
            return self.none(n[1])
        if k == "inset":
            return lift(lambda x: x in n[2], [self.ev(n[1])])
        if k == "ite":
            c = self.ev(n[1])
            if not isinstance(c, list):
                return self.ev(n[2] if truthy(c) else n[3])
            return lift(lambda c, a, b: a if truthy(c) else b, [c, self.ev(n[2]), self.ev(n[3])])
        if k in ("and", "or") and not any(isinstance(self.guess(x), list) for x in n[1:]):
            return Row.ev(self, t)
        xs = [self.ev(x) for x in n[1:] if type(x) is T]
        if k in ("castint",):
            return lift(lambda x: NAN if x != x else math.trunc(x), xs)

        def one(*ys):
            try:
                return apply(k, list(ys))
            except (ValueError, OverflowError):
                return NAN
        return lift(one, xs)

    def guess(self, x):
        try:
            return self.ev(x)
        except (Unsure, TypeError, ArithmeticError, LookupError):
            return None

    def reduced(self, name, x):
        if not isinstance(x, list) or x and isinstance(x[0], list):
            raise Unsure
        if name.startswith("nan"):
            x, name = [y for y in x if y == y], name[3:]
        if name in ("sum",):
            return sum(x)
        if name == "count_nonzero":
            return sum(truthy(y) for y in x)
        if name in ("any", "all"):
            return (any if name == "any" else all)(truthy(y) for y in x)
        if name in ("max", "min", "mean", "amax", "amin") and x:
            if any(y != y for y in x):
                return NAN
            return sum(x) / len(x) if name == "mean" else (max if "max" in name else min)(x)
        raise Unsure


# ------------------------------------------------------------------ C17
ROWS, COLS = 4, 5
# elevations of a valley that drains to the right, with a ridge and a pit
DEM = [31.0, 29.0, 27.5, 27.3, 25.8,
       25.0, 22.0, 20.3, 17.0, 15.2,
       21.0, 18.4, 16.9, 13.6, 11.0,
       18.4004, 24.9, 23.0, 21.7, 18.95]
X = [10.0, 13.0, 15.0, 18.0, 22.0]
Y = [40.0, 37.0, 33.0, 31.0]
STREAM = {11: 4, 12: 2, 13: 3, 14: 1, 7: 5, 3: 6, 1: 7}       # 3 and 1 drain to no stream
OUTSIDE = {4, 9, 14, 19, 0}


def network():
    """Arrays of a representative network."""
    n = ROWS * COLS
    xs = [X[i % COLS] for i in range(n)]
    ys = [Y[i // COLS] for i in range(n)]
    nbs = []
    for i in range(n):
        r, c = divmod(i, COLS)
        near = [a * COLS + b for a in (r - 1, r, r + 1) for b in (c - 1, c, c + 1) if (a, b) != (r, c) and 0 <= a < ROWS and 0 <= b < COLS]
        nbs.append(near + [n] * (8 - len(near)))

    def drop(i, j):
        return (DEM[j] - DEM[i]) / math.hypot(xs[i] - xs[j], ys[i] - ys[j])
    down = []
    for i in range(n):
        j = min((j for j in nbs[i] if j < n), key=lambda j: drop(i, j))
        down.append(j if drop(i, j) < 0 else -1)
    down[6], down[15], down[17], down[0], down[1] = 11, -2, 13, -1, 0        # not always the steepest
    return nbs, xs, ys, down, drop


def wanted(many, bounded):
    """(from, to) -> (fraction, stream number) of every link."""
    nbs, xs, ys, down, drop = network()
    n = ROWS * COLS
    active = set(range(n)) - (OUTSIDE if bounded else set())
    out = {}
    for i in sorted(active):
        to = down[i] if down[i] >= 0 else i
        if to not in active:
            to = i
        links = {to: 1.0}
        if many and i not in STREAM:
            links = {j: -drop(i, j) for j in nbs[i] if j in active and drop(i, j) < 0}
            tot = sum(links.values())
            links = {j: v for j, v in links.items() if v / tot > 0.01}
            tot = sum(links.values())
            links = {j: v / tot for j, v in links.items()}
        for j, v in links.items():
            out[i + 1, j + 1] = (v, STREAM.get(j, 0))
    return out


def c17_units(tier):
    return [(k,) for k in KINDS]


def c17(prog, unit, tier, r):
    kind, = unit
    rule = "cascade links follow the flow directions inside the basin, with their fractions and streams"
    t = Tour(prog, kind)
    S, I = t.S, t.S.I
    log, spoilt = {}, set()

    def add(how):
        def on(I, st, node, fr, l, h, v, *where):
            if how == "push" and where and where[0] != "end":
                spoilt.add(l)
                return
            k = (node._nid if node is not None else 0, fr.ctx if fr is not None else 0, how)
            log.setdefault(l, {})[k] = (how, st.copy(), v)
        return on

    def on_write(I, st, node, fr, l, what):
        if what not in ("insert", "extend"):
            spoilt.add(l)
    f = t.make_fd()
    t.do(f, fdir_ops(kind)[0])
    t.do(f, facc_ops()[0])
    s = t.prop(f, "flow_direction_array")
    fdir = elem_term(I, s.out.state, s.out.value) if s.out.returns else None
    o = t.make_streams("PrmsStreams")
    t.do(o, arr_ops("PrmsStreams")[0])
    base = t.save()
    S.hook("push", add("push"))
    S.hook("pushall", add("pushall"))
    S.hook("seqwrite", on_write)
    for ready in (False, True):
        for op in strm_ops("PrmsStreams", kind):
            if op[1] not in ("get_cascades", "get_pygsflow_builder_object"):
                continue
            t.restore(base)
            if ready:
                if op[0].endswith(":x"):
                    continue
                t.do(o, ("get_stream_connectivity", "get_stream_connectivity", lambda i: {}))
            log.clear()
            spoilt.clear()
            s = t.do(o, op)
            nid = method_nid(prog, s) or s.node
            ob = f"{kind} {op[0]}" + (" with connectivity" if ready else "")
            if halted(prog, r, rule, s, ob):
                continue
            st = s.out.state
            a = t.prop(o, "stream_array")
            arr = elem_term(I, a.out.state, a.out.value) if a.out.returns else None
            vals = [S.field(s.out.value, x) for x in ("hru_up_id", "hru_down_id", "hru_pct_up", "hru_strmseg_down_id")] if op[1] != "get_cascades" else items(st, s.out.value)
            links(prog, r, rule, t, I, kind, op, s, st, ob, nid, vals, fdir, arr, log, spoilt)
    r.count("operations", len(t.steps))


def items(st, v):
    if len(v.refs) != 1:
        return None
    h = st.heap.get(next(iter(v.refs)))
    return list(h.items) if isinstance(h, Seq) and h.rest is None and not h.multi else None


def links(prog, r, rule, t, I, kind, op, s, st, ob, nid, vals, fdir, arr, log, spoilt):
    nbs, xs, ys, down, _ = network()
    n = ROWS * COLS
    given = op[2](t.i)
    many, bounded = "m2m" in op[0], "basin_boundary" in given
    if vals is None or len(vals) != 4 or None in vals or fdir is None or arr is None:
        return r.unknown(ob, "result not understood")
    strm = [STREAM.get(i, 0) for i in range(n)]
    base = {fdir: down, arr: strm, "dem": DEM + [1e10], "grid:xcenters": xs + [46.1], "grid:ycenters": ys + [77.7], "neighbors": nbs, "burn": 1e-6,
            "boundary": [0 if i in OUTSIDE else 1 for i in range(n)], "xstrm": [int(i in STREAM) for i in range(n)]}
    sizes = {"R": ROWS, "C": COLS, "N": n, "": n}
    W = Whole(I, st, base, sizes, {l: list(d.values()) for l, d in log.items()}, frozenset(spoilt))
    try:
        got = [W.value(v) for v in vals]
    except (Unsure, TypeError, ArithmeticError, LookupError) as e:
        return r.unknown(ob, "links not evaluated")
    if any(not isinstance(x, list) for x in got):
        return r.unknown(ob, "links not understood")
    if len({len(x) for x in got}) != 1:
        return r.bad(prog, rule, nid, "the lists of links have different lengths", hist(s), extra=op[0])
    have = {}
    for u, d, p, g in zip(*got):
        if (u, d) in have and many:
            return r.bad(prog, rule, nid, f"the link from HRU {u} to HRU {d} is listed twice", hist(s), extra=op[0])
        have.setdefault((u, d), set()).add((p, g))
    want = wanted(many, bounded)
    for k in sorted(set(want) | set(have)):
        if k not in have:
            return r.bad(prog, rule, nid, f"no link from HRU {k[0]} to HRU {k[1]}{', the basin outlet' if k[0] == k[1] else ''}", hist(s), extra=op[0])
        if k not in want:
            return r.bad(prog, rule, nid, f"a link from HRU {k[0]} to HRU {k[1]}, which it does not drain to", hist(s), extra=op[0])
        for p, g in have[k]:
            if not close(p, want[k][0]):
                return r.bad(prog, rule, nid, f"the link from HRU {k[0]} to HRU {k[1]} has fraction {p:.6g} instead of {want[k][0]:.6g}", hist(s), extra=op[0])
            if g != want[k][1]:
                return r.bad(prog, rule, nid, f"the link to HRU {k[1]} has stream number {g} instead of {want[k][1]}", hist(s), extra=op[0])
    r.good(ob)
    r.count("links", len(want))
