"""Rules on tables and lists of links: each row decided as an expression over
the reach, cell or link it is made from."""
import copy
import ast
import itertools
import math
import random
from .av import *
from .tour import *
from .rules_base import halted, hist, method_nid, opname
from .rules_value import named
from .rules_num import subterms
from .rules_term import World, Unsure, truthy, NAN, apply, close, elem_term, HOLDS


class Row(World):
    """Terms read at chosen values of a row's own quantities (picks); values
    that depend on a branch are read on the branch taken."""

    def __init__(self, I, st, picks, q=(), **k):
        World.__init__(self, I, st, dict(q), picks=picks, **k)

    def ev(self, t):
        if t in self.picks:
            return self.picks[t]
        n = TT.node[t]
        if n[0] == "phi":
            return self.ev(self.taken(t))
        if n[0] == "isnone":
            return self.none(n[1])
        if n[0] in ("and", "or"):
            on, dunno = n[0] == "or", False
            for c in n[1:]:
                try:
                    if truthy(self.ev(c)) == on:
                        return on
                except Unsure:
                    dunno = True
            if dunno:
                raise Unsure
            return not on
        if n[0] == "inset":
            return self.ev(n[1]) in n[2]
        if n[0] == "castint":
            x = self.ev(n[1])
            return NAN if x != x else math.trunc(x)
        return World.ev(self, t)

    def taken(self, t):
        """The value merged here on the path taken."""
        d = self.I.phidef.get(t)
        if d is None or None in d:
            raise Unsure
        if d[0] == "alts":
            on = {x for fs, x in d[1] if self.holds(fs)}
            if len(on) != 1 or None in on:
                raise Unsure
            return next(iter(on))
        return d[1] if truthy(self.ev(d[0])) else d[2]

    def holds(self, fs):
        """Do all facts of a path hold?  One that does not settles it, even if
        others cannot be evaluated."""
        err = None
        for a in fs:
            try:
                if not self.fact(a):
                    return False
            except (Unsure, ArithmeticError, LookupError, TypeError) as e:
                err = err or e
        if err is not None:
            raise err
        return True

    def none(self, t):
        n = TT.node[t]
        if n[0] == "c":
            return n[1] == "None"
        if n[0] == "phi" and t not in self.picks:
            return self.none(self.taken(t))
        if n[0] == "ite":
            return self.none(n[2] if truthy(self.ev(n[1])) else n[3])
        return self.ev(t) is None

    def fact(self, a):
        """Does a fact of a path hold here?  None if it says nothing."""
        k = a[0]
        if k in ("t", "f"):
            return truthy(self.ev(a[1])) == (k == "t")
        if k in ("none", "notnone"):
            return self.none(a[1]) == (k == "none")
        if k in ("lt", "le", "nlt", "nle", "eq", "ne"):
            x, y = self.ev(a[1]), self.ev(a[2])
            return {"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y, "nlt": not x < y, "nle": not x <= y}[k]
        if k in ("nan", "nn"):
            x = self.ev(a[1])
            return (x != x) == (k == "nan")
        raise Unsure


def others(I, l, n):
    """Terms (with the facts they are added under) of the elements of a
    sequence after its first n, None if not known."""
    d = I.elts.get(l)
    if d is None:
        return None
    d = {k: x for k, x in d.items() if not (k[0] == "i" and k[-1] < n)}
    return [(v.term, fs) for fs, v in d.values()] if all(v.term is not None for _, v in d.values()) else None


def rows_of(I, s):
    """(node, listed first elements, other elements) of each kind of row of a
    list of rows that is returned."""
    out = []
    for l in s.out.value.refs:
        for key, (fs, v) in (I.elts.get(l) or {}).items():
            for k in v.refs:
                o = s.out.state.heap.get(k)
                if isinstance(o, Seq):
                    out.append((key[1], o.items, others(I, k, len(o.items)) if o.rest is not None else []))
                else:
                    return []
    return out


LEAVES = {"it", "iti", "elt", "el", "eltm", "dv", "sq", "sqm", "input", "v", "pop", "red", "memb", "gath", "sel", "phi"}


def leafs(t, stop):
    """The smallest subterms of a term that are in stop."""
    if t in stop:
        return {t}
    return set().union(*[leafs(c, stop) for c in TT.node[t][1:] if type(c) is T])


def opens(I, t):
    """Leaves of a term that are no constants: rows, elements, inputs."""
    n = TT.node[t]
    if n[0] == "c":
        return set()
    if n[0] == "phi" and t in I.phidef and None not in I.phidef[t]:
        d = I.phidef[t]
        ts = {x for fs, v in d[1] for x in {v} | {y for a in fs for y in a[1:] if type(y) is T} if x is not None} if d[0] == "alts" else set(d)
        return set().union(*[opens(I, x) for x in ts])
    if n[0] in LEAVES:
        return {t}
    return set().union(*[opens(I, c) for c in n[1:] if type(c) is T])


def var(I, ts):
    """The one quantity some terms are made from."""
    xs = set().union(*[opens(I, t) for t in ts])
    x = next(iter(xs), None)
    return x if len(xs) == 1 and TT.node[x][0] not in ("phi", "v") else None


def guards(st, about):
    """Facts of a path that mention one of the terms, and tests not understood."""
    fs = [a for a in st.facts if any(type(x) is T and about & set(subterms(x)) for x in a[1:])]
    return fs, [a for a in st.facts if a[0] == "?"]


def ended(prog, I, nid, w, on=frozenset()):
    """Where a loop around a statement is left at the elements at hand, None if
    it goes on."""
    vs = set(w.picks)
    for l in prog.nodes[nid]._loops:
        for (b, _), st in sorted(I.exits.get(l, {}).items()):
            fs = [a for a in st.facts if a[0] == "?" and a not in on or a[0] != "rng" and any(type(y) is T and vs & free(I, y) for y in a[1:])]
            x = copy.copy(w)
            x.st = st
            if x.holds([a for a in fs if a[0] != "?"]):
                if any(a[0] == "?" for a in fs):
                    raise Unsure
                return b, l
    return None


def unreached(prog, I, sites, reps):
    """(statement, what) of the first row that is not put in the table.  Sites:
    (statement, facts) of rows put there; reps: (what, row, the loops it is the
    last of)."""
    for case, w, last in reps:
        vs = set(w.picks)
        on = [(nid, fs) for nid, fs in sites if w.holds([a for a in fs if a[0] not in ("rng", "?") and any(type(y) is T and vs & free(I, y) for y in a[1:])])]
        if not on:
            return sites[0][0], f"{case} has no row"
        for nid, fs in on:
            b = ended(prog, I, nid, w, fs)
            if b is not None and b[1] not in last and None not in last:
                return b[0], f"the rows after {case} are left out"
    return None


# ------------------------------------------------------------------ C18
LINKS = [(1, 2), (3, 2), (5, 9), (4, 0), (7, 7), (12, 15), (100001, 300007)]


def c18_units(tier):
    return [(k,) for k in KINDS]


def pairs(I, ts):
    """(key, value) terms of items of a dictionary among terms, or read at a key."""
    out = {p for p in I.dpair if set(p) & ts}
    for a in ts:
        n = TT.node[a]
        if n[0] == "dv":
            out.add((n[3], a))
        out |= {(a, b) for b in ts if TT.node[b][0] == "dv" and TT.node[b][3] == a}
    return out


def c18(prog, unit, tier, r):
    kind, = unit
    rule = "connection data list every connection once at each of its two reaches"
    t = Tour(prog, kind)
    S, I = t.S, t.S.I
    ent = {}

    def on_push(I, st, node, fr, l, h, v, where, key=None):
        f = getattr(node, "func", node)
        rv = I.recv.get((f._nid, fr.ctx)) if hasattr(f, "_nid") else None
        if rv is not None and TT.node[rv][0] == "dv":
            ent[key or ("p", node._nid, fr.ctx)] = (st.copy(), TT.node[rv], v, l)

    def on_all(I, st, node, fr, l, h, x):
        known = I.models.iterate(I, st, x, node, fr)[0]
        for i, v in enumerate(known or ()):
            on_push(I, st, node, fr, l, h, v, "end", ("x", node._nid, fr.ctx, i))

    S.hook("pushall", on_all)
    S.hook("push", on_push)
    f = t.make_fd()
    t.do(f, fdir_ops(kind)[0])
    t.do(f, facc_ops()[0])
    o = t.make_streams("Sfr6")
    base = t.save()
    for prep in arr_ops("Sfr6"):
        for op in strm_ops("Sfr6", kind):
            if not op[1] == "connectiondata":
                continue
            t.restore(base)
            t.do(o, prep)
            ent.clear()
            s = t.do(o, op, (prep[0],))
            if halted(prog, r, rule, s, op[0]):
                continue
            links(prog, r, rule, I, s, ent, f"{kind} {prep[0]} {op[0]}")
    r.count("operations", len(t.steps))


def links(prog, r, rule, I, s, ent, ob):
    mine = rows_of(I, s)
    if not ent or not mine:
        return r.unknown(ob, "how connections are collected was not understood")
    # (1) what is put on the list of each reach
    got = {c: [] for c in LINKS}
    done = {}
    if any(I.elts.get(l) is None or set(I.elts[l]) - set(ent) for _, _, _, l in ent.values()):
        return r.unknown(ob, "other entries are added in ways not understood")
    def full(st, l):
        """Is this path only taken while the list is shorter than some number?"""
        isl = lambda x: type(x) is T and TT.node[x][0] == "len" and TT.node[x][1] == l
        num = lambda x: type(x) is T and TT.node[x][0] == "c"
        return any(a[0] in ("lt", "le", "eq") and len(a) == 3 and isl(a[1]) and num(a[2]) or a[0] in ("nlt", "nle", "eq") and len(a) == 3 and num(a[1]) and isl(a[2])
                   for a in st.facts)
    roles = {}
    for (_, nid, *_), (st, rv, v, l) in sorted(ent.items(), key=str):
        roles.setdefault((rv[3], v.term), []).append((nid, full(st, l), l))
    for sites in roles.values():
        on = {l for *_, l in sites}
        if all(x for _, x, _ in sites) and any(on & {l for *_, l in o} for o in roles.values() if o is not sites):
            return r.bad(prog, rule, sites[0][0], "a connection is only listed while the list of its reach is short enough", hist(s), extra="full")
    for (_, nid, *_), (st, rv, v, _) in sorted(ent.items(), key=str):
        k, at = rv[3], nid
        ts = opens(I, k) | opens(I, v.term) if v.term is not None else set()
        ab = next(iter(pairs(I, ts)), None)
        if ab is None:
            return r.unknown(ob, "entry not understood")
        fs, opaque = guards(st, set(ab))
        if opaque:
            return r.unknown(ob, "condition not understood")
        for a, b in LINKS:
            w = Row(I, st, {ab[0]: a, ab[1]: b})
            try:
                out = ended(I.prog, I, at, w, st.facts)
                if out is not None and a < 100:
                    return r.bad(prog, rule, out[0], f"the reaches after reach {a} flowing into {'nothing' if not b else 'itself' if a == b else 'reach ' + str(b)} are left out", hist(s), extra="end")
            except (Unsure, TypeError, LookupError, ArithmeticError):
                return r.unknown(ob, "end of the loop not understood")
            try:
                if w.holds(fs):
                    got[(a, b)].append((w.ev(k), w.ev(v.term), nid))
            except Unsure:
                return r.unknown(ob, "condition not understood")
            except TypeError:
                return r.unknown(ob, "entry not understood")
    # (2) how a row is written from a reach and its list
    vals = {v.term for _, _, v, _ in ent.values()}
    for nid, items, alts in mine:
        first = items[0] if len(items) == 1 else AV()
        if alts is None or first.term is None:
            return r.unknown(ob, "row not understood")
        if {x for x, _ in alts} == vals:
            x = mk("it", 0, "entry")        # the list as it was collected
            alts = [(x, frozenset())]
        hd, el = var(I, [first.term]), var(I, [x for x, _ in alts])
        if hd is None or el is None:
            return r.unknown(ob, "row not understood")

        def row(k, e):
            w = Row(I, s.out.state, {el: e})
            on = [x for x, fs in alts if w.holds([a for a in fs if el in set().union(*[subterms(y) for y in a[1:] if type(y) is T])])]
            if len(on) != 1:
                raise Unsure
            return Row(I, s.out.state, {hd: k}).ev(first.term), w.ev(on[0])
        for a, b in LINKS:
            want = [(a - 1, 1 - b), (b - 1, a - 1)] if b and a != b else []
            try:
                have = [row(k, e) + (n,) for k, e, n in got[(a, b)]]
            except (Unsure, TypeError):
                return r.unknown(ob, "row not understood")
            extra = [x for x in have if x[:2] not in want]
            miss = [x for x in want if x not in [y[:2] for y in have]]
            case = f"reach {a} flowing into {'nothing' if not b else 'itself' if a == b else 'reach ' + str(b)}"
            if extra:
                r.bad(prog, rule, extra[0][2], f"{case} gives reach {extra[0][0]} (counting from zero) an entry {extra[0][1]}", hist(s), extra="entry")
            elif miss:
                r.bad(prog, rule, got[LINKS[0]][0][2] if got[LINKS[0]] else nid, f"{case} gives no entry {miss[0][1]} in the row of reach {miss[0][0]} (counting from zero)", hist(s), extra="missing")
            elif len(have) != len(want):
                r.bad(prog, rule, have[0][2], f"{case} is listed {len(have)} times instead of {len(want)}", hist(s), extra="twice")
            else:
                r.good(f"{ob}: {case}")


# ------------------------------------------------------------------ C19
NR, NC = 4, 5
CELLS = NR * NC
#  cell -> the reach it holds; reach -> the next one (0: none)
REACHES = {17: 1, 12: 2, 7: 3, 4: 4, 8: 5, 6: 6, 1: 7, 0: 8, 19: 9, 13: 10, 15: 11, 10: 12}
FLOWS = {1: 2, 2: 3, 3: 6, 4: 5, 5: 6, 6: 7, 7: 8, 8: 0, 9: 10, 10: 0, 11: 11, 12: 0}
#  the same as segments: rows of cell, segment, reach
SEGROWS = [(6, 3, 1), (1, 3, 2), (0, 3, 3), (17, 1, 1), (12, 1, 2), (7, 1, 3), (4, 2, 1), (8, 2, 2), (19, 4, 1), (13, 4, 2), (15, 5, 1), (10, 6, 1)]
SEGS = {1: 3, 2: 3, 3: 0, 4: 0, 5: 5, 6: 0}
DOWN = {**{c: next((d for d in REACHES if REACHES[d] == FLOWS[k]), -1) for c, k in REACHES.items()}}
HOLD = dict(HOLDS, **{"grid:delr": "delr", "grid:delc": "delc", "grid:top": "z"})


def _cells(wide, high, base):
    g = random.Random(7)
    q = {}
    for c in range(CELLS):
        q[("z", c)] = base + high * g.random() * c
        q[("x", c)] = wide * (10.0 * (c % NC) + 4.0 * g.random())
        q[("y", c)] = wide * (90.0 - 12.0 * (c // NC) + 5.0 * g.random())
        q[("fdir", c)] = DOWN.get(c, c - 1)
        q[("strm", c)] = REACHES.get(c, 0)
    q["side", 0] = wide * 31.7
    for i in range(NC):
        q[("delr", i)] = q[("delr", i - NC)] = wide * (9.0 + i)
    for i in range(NR):
        q[("delc", i)] = q[("delc", i - NR)] = wide * (21.0 + 2 * i)
    return q


#  metres, degrees below sea level, and far apart with hardly any relief
PLACES = [_cells(1.0, 5.0, 100.0), _cells(2e-4, 40.0, -900.0), _cells(3e3, 1e-3, 2.0)]


class Net(Row):
    """Terms read on one small concrete stream network."""

    def __init__(self, I, st, picks, strm, fdir, q, segcols=None):
        Row.__init__(self, I, st, picks, q)
        self.strm, self.fd, self.segcols, self.links = strm, fdir, segcols, None

    def what(self, base):
        if base == self.strm:
            return "strm"
        if base == self.fd:
            return "fdir"
        n = TT.node[base]
        if n[0] == "elt":
            b = self.st.heap.get(n[1])
            for k, x in getattr(getattr(b, "elem", None), "tags", ()):
                if k == "of" and x in HOLD and not b.multi:
                    return HOLD[x]
        return World.what(self, base)

    def read(self, base, cell):
        n = TT.node[base]
        if n[0] == "elt" and n[2] in self.I.colinfo:
            buf, ver, view, c = self.I.colinfo[n[2]]
            return self.rows(buf, ver, view)[cell][c]
        w = self.what(base)
        if type(w) is T:
            return self.at(w, cell)
        if (w, cell) not in self.q:
            raise Unsure
        return self.q[(w, cell)]

    def size_of(self, mask):
        """How many elements there are to test."""
        out = set()
        for t in subterms(mask):
            n = TT.node[t]
            if n[0] == "elt":
                if n[2] in self.I.colinfo:
                    out.add(len(self.rows(*self.I.colinfo[n[2]][:3])))
                else:
                    self.what(t)
                    out.add(CELLS)
        if len(out) != 1:
            raise Unsure
        return out.pop()

    def chosen(self, mask):
        return [c for c in range(self.size_of(mask)) if truthy(self.at(mask, c))]

    def rows(self, buf, ver, view):
        """The rows of a table."""
        if view is not None:
            raise Unsure
        g = self.I.gathinfo.get(ver)
        if g is not None:
            src = self.rows(*g[:3])
            how, x = g[3]
            return [src[i] for i in (self.chosen(x) if how == "mask" else self.taken_by(x))]
        if self.segcols is not None and self.segcols(buf):
            return [tuple(r[k] for k in self.segcols(buf)) for r in SEGROWS]
        raise Unsure

    def taken_by(self, buf):
        if buf not in self.I.nzinfo:
            raise Unsure
        return self.chosen(self.I.nzinfo[buf])

    def ev(self, t):
        n = TT.node[t]
        if t in self.picks:
            return self.picks[t]
        if n[0] == "lrc":
            c = self.ev(n[2])
            return {"lay": 0, "row": c // NC, "col": c % NC}[n[1]]
        if n[0] == "nodeof":
            return self.ev(n[1]) * NC + self.ev(n[2])
        if n[0] == "nz":
            raise Unsure
        if n[0] == "len":
            b = self.st.heap.get(n[1])
            if isinstance(b, Arr):
                if b.buf in self.I.nzinfo:
                    return len(self.taken_by(b.buf))
                return len(self.rows(b.buf, self.st.heap[b.buf].ver, b.view))
            if isinstance(b, Seq) and len(b.items) == 1 and b.rest is not None and self.links is not None:
                return 1 + self.links       # the row of connections of the reach
            raise Unsure
        if n[0] == "red" and n[1] in ("mean", "nanmean", "median", "max", "min", "sum"):
            e = TT.node[n[2]]
            d = self.I.elts.get(e[1]) if e[0] == "elt" else None
            if d is None or any(v.term is None for _, v in d.values()):
                raise Unsure
            at = {TT.node[x][1] for _, v in d.values() for x in subterms(v.term) if TT.node[x][0] == "el"}
            if at and all(("of", "grid:verts") in getattr(getattr(self.st.heap.get(b), "elem", None), "tags", ()) for b in at):
                return self.q["side", 0]        # a size of the cell itself, whatever it is exactly
            if n[1] not in ("mean", "nanmean"):
                raise Unsure
            xs = [self.ev(v.term) for fs, v in d.values()]
            return sum(xs) / len(xs)
        if n[0] == "el":
            idx = [self.ev(x) for x in n[4:] if type(x) is T]
            if any(not isinstance(i, int) for i in idx):
                raise Unsure
            if n[1] in self.I.nzinfo and n[3] is None and len(idx) == 1:
                return self.taken_by(n[1])[idx[0]]
            if n[2] in self.I.gathinfo or self.segcols is not None and self.segcols(n[1]):
                view, tab = n[3], self.rows(n[1], n[2], None)
                if view is not None:
                    v = TT.node[view]
                    if v[0] != "row" or v[1] is not None:
                        raise Unsure
                    i = self.ev(v[2])
                    idx = [i] + idx
                if len(idx) != 2:
                    raise Unsure
                return tab[idx[0]][idx[1]]
            base = mk("elt", n[1], n[2])
            if n[2] in self.I.colinfo and len(idx) == 1 and n[3] is None:
                return self.read(base, idx[0])
            if not self.same(n[3]):
                raise Unsure
            if len(idx) == 2:
                if self.what(base) in ("delr", "delc"):
                    raise Unsure
                if not (0 <= idx[0] < NR and 0 <= idx[1] < NC):
                    raise Unsure
                return self.read(base, idx[0] * NC + idx[1])
            if len(idx) == 1:
                return self.read(base, idx[0])
            raise Unsure
        return Row.ev(self, t)


def free(I, t, seen=None):
    """Quantities of a loop a term is made from."""
    seen = set() if seen is None else seen
    if t in seen:
        return set()
    seen.add(t)
    n = TT.node[t]
    kids = [c for c in n[1:] if type(c) is T]
    if n[0] == "phi" and t in I.phidef and None not in I.phidef[t]:
        d = I.phidef[t]
        kids = [x for fs, v in d[1] for x in {v} | {y for a in fs for y in a[1:] if type(y) is T} if x is not None] if d[0] == "alts" else list(d)
    elif n[0] == "el":
        kids = [x for x in n[4:] if type(x) is T] + ([n[3]] if n[3] is not None else [])
        kids += [I.nzinfo[n[1]]] if n[1] in I.nzinfo else []
        g = I.gathinfo.get(n[2])
        while g is not None:
            kids += [g[3][1]] if g[3][0] == "mask" else [I.nzinfo[g[3][1]]] if g[3][1] in I.nzinfo else []
            g = I.gathinfo.get(g[1])
    elif n[0] in ("elt", "eltm", "sel", "red", "len"):
        return set()
    elif n[0] in LEAVES:
        return {t}
    return set().union(*[free(I, c, seen) for c in kids])


def c19_units(tier):
    return [(k, "Sfr6") for k in KINDS] + [("structured", "Sfr2005")]


def c19(prog, unit, tier, r):
    kind, cls = unit
    rule = "each row of a reach table describes the reach's own cell and its step to the next reach"
    t = Tour(prog, kind)
    S, I = t.S, t.S.I
    tabs, fields = [], {}

    def on_struct(I, st, node, fr, sf, v):
        tabs.append((node._nid, st.copy(), [n for n, _ in sf] if sf else [], v))

    def on_store(I, st, node, fr, b, bo, arr, idx, v, how, field):
        if field is not None and bo.owner is None:
            fields.setdefault((b, field), {})[node._nid if node is not None else 0] = (st.copy(), v)
    reads = {}

    def on_read(I, st, node, fr, l, h, i):
        if h.rest is not None and any(isinstance(x, Seq) for v in h.items + (h.rest,) for x in map(st.heap.get, v.refs)):
            reads[node._nid, fr.ctx] = (st.copy(), l, i)
    S.hook("seqread", on_read)
    S.hook("structarray", on_struct)
    S.hook("store", on_store)
    f = t.make_fd()
    t.do(f, fdir_ops(kind)[0])
    t.do(f, facc_ops()[0])
    s = t.prop(f, "flow_direction_array")
    fdir = elem_term(I, s.out.state, s.out.value) if s.out.returns else None
    o = t.make_streams(cls)
    base = t.save()
    for prep in arr_ops(cls):
        for op in strm_ops(cls, kind):
            if op[1] not in ("packagedata", "reach_data", "segment_data"):
                continue
            t.restore(base)
            t.do(o, prep)
            tabs.clear()
            fields.clear()
            reads.clear()
            s = t.do(o, op, (prep[0],))
            if halted(prog, r, rule, s, op[0]):
                continue
            q = t.prop(o, "stream_array")
            strm = elem_term(I, q.out.state, q.out.value) if q.out.returns else None
            ob = f"{kind} {cls} {prep[0]} {op[0]}"
            if op[1] == "packagedata":
                for nid, st, names, v in tabs:
                    package(prog, r, rule, I, s, nid, st, names, v, strm, fdir, kind, ob, reads)
                if not tabs:
                    r.unknown(ob, "table not understood")
            else:
                mf2005(prog, r, rule, I, s, fields, strm, fdir, ob)
    r.count("operations", len(t.steps))


def allrows(I, st, v):
    """(pushing node, facts, items) of the rows of a list of rows."""
    out = []
    for l in v.refs:
        d = I.elts.get(l)
        if d is None:
            return None
        for key, (fs, x) in d.items():
            for k in x.refs:
                h = st.heap.get(k)
                if not isinstance(h, Seq):
                    return None
                out.append((key[1], fs, h.items))
    return out


def counter(prog, t):
    """The value in the first turn of a variable that counts the turns of a loop."""
    n = TT.node[t]
    if n[0] != "phi" or type(n[1]) is not tuple or n[1][:1] != ("loop",) or type(n[-1]) is not str:
        return None
    loop, name = prog.nodes.get(n[1][1]), n[-1]
    if not isinstance(loop, ast.For):
        return None
    steps = [x for x in ast.walk(loop) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
    step = [x for x in loop.body if isinstance(x, ast.AugAssign) and isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1
            and x.target in steps]
    if len(steps) != 1 or len(step) != 1 or any(isinstance(x, ast.Continue) and x._loops[-1] == loop._nid for x in ast.walk(loop)):
        return None
    for q in prog.nodes.values():
        for block in (getattr(q, "body", None), getattr(q, "orelse", None)):
            if isinstance(block, list) and loop in block:
                before = [x for x in block[:block.index(loop)] if any(isinstance(y, ast.Name) and y.id == name and isinstance(y.ctx, ast.Store) for y in ast.walk(x))]
                try:
                    x = ast.literal_eval(before[-1].value) if before and isinstance(before[-1], ast.Assign) else None
                except ValueError:
                    x = None
                if type(x) is int:
                    return x
    return None


def order(I, st, v, deep=0):
    """In which order something is gone through: "sorted", the places that fill
    a dictionary with numbers looked up elsewhere, or None."""
    if len(v.refs) != 1 or v.kinds != KREF or deep > 8:
        return None
    l, = v.refs
    o = st.heap.get(l)
    if isinstance(o, Ext) and o.kind == "iter" and o.info[0] in ("items", "keys", "enumerate"):
        return order(I, st, o.info[1], deep + 1)
    if isinstance(o, Dct):
        p = I.dputs.get(l)
        if o.known or not p or len(p) != 1:
            return None
        (site, (_, _, k, _)), = p.items()
        n = TT.node[k] if k is not None else ("",)
        while n[0] == "iti" and n[2] in (0, 1):
            k, n = n[1], TT.node[n[1]]
        if n[0] == "it":
            return order(I, st, I.iterof[k][0], deep + 1) if k in I.iterof else None
        return ("filled", site[1]) if n[0] in ("dv", "dg") else None
    made = I.seqof.get(l)
    if isinstance(o, Seq) and made is not None and made[0] == o.ver and not o.multi:
        return "sorted" if made[1] == "sorted" else order(I, st, made[2], deep + 1) if made[1] == "of" else None
    return None


def orders(I, st, loop):
    """The orders in which a loop may go."""
    return {order(I, st, v) for b, (v, _) in I.iterof.items() if TT.node[b][1] == loop and all(l in st.heap for l in v.refs)} or {None}


def package(prog, r, rule, I, s, nid, st, names, v, strm, fdir, kind, ob, reads={}):
    rows = allrows(I, st, v)
    if not rows or not names:
        return r.unknown(ob, "rows not understood")
    for node, fs, items in rows:
        if len(items) != len(names):
            r.unknown(ob, "row not understood")
            continue
        row = dict(zip(names, items))
        own = row.get("ifno", AV()).term
        vs = set().union(*[free(I, x.term) for x in items if x.term is not None and not x.refs])
        ab = next(iter(pairs(I, vs)), None)
        if own is None or ab is None:
            r.unknown(ob, "row not understood")
            continue
        got = []
        cell = row["cellid"]
        parts = [x for k in cell.refs for x in getattr(st.heap.get(k), "items", ())] if cell.refs else []
        for q, (a, b) in itertools.product(PLACES, FLOWS.items()):
            w = Net(I, st, {ab[0]: a, ab[1]: b}, strm, fdir, q)
            n = next(c for c in REACHES if REACHES[c] == a)
            d = next((c for c in REACHES if REACHES[c] == b), None)
            far = math.hypot(q["x", n] - q["x", d], q["y", n] - q["y", d]) if d is not None else None
            w.links = sum(y == a for x, y in FLOWS.items() if x != a) + (b not in (0, a))
            want = {"ifno": a - 1, "ncon": w.links, "rtp": q["z", n], "rlen": 1.5 * far if far else None,
                    "rgrd": (q["z", n] - q["z", d]) / far / 1.5 if far else 0.0}
            have = {k: row[k].term for k in want if k in row and want[k] is not None}
            loc = {"structured": [0, n // NC, n % NC], "vertex": [0, n], "unstructured": [n]}[kind]
            if len(parts) != len(loc) and len(cell.refs) == 1 and cell.kinds == KREF and isinstance(st.heap.get(next(iter(cell.refs))), Seq) \
                    and st.heap[next(iter(cell.refs))].rest is None:
                return r.bad(prog, rule, node, f"the cell id has {len(parts)} parts instead of {len(loc)} on a {kind} grid", hist(s), extra="cellid")
            if len(parts) == len(loc):
                have.update({("cellid", i): p.term for i, p in enumerate(parts)})
                want.update({("cellid", i): p for i, p in enumerate(loc)})
            got.append((f"reach {a} at cell {n}" + (f", flowing into cell {d}" if b else ", an outlet"), w, have, want, node))
        compare(prog, r, rule, s, got, ob)
        # the row of connections counted is the one of the reach
        cons = {TT.node[x][1] for x in subterms(row["ncon"].term) if TT.node[x][0] == "len"} if "ncon" in row and row["ncon"].term is not None else set()
        at = [(k, x) for k, x in reads.items() if any(cons & e.refs for e in x[0].heap[x[1]].items + (x[0].heap[x[1]].rest,))]
        if len(at) == 1 and at[0][1][2].term is not None:
            (k, _), (st1, _, i) = at[0]
            for case, w, _, want, _ in got:
                w1 = Net(I, st1, w.picks, strm, fdir, w.q)
                a = want["ifno"]
                w1.picks = {**w.picks, **{c: m + a for c in subterms(i.term) for m in [counter(prog, c)] if m is not None}}
                try:
                    x = w1.ev(i.term)
                except (Unsure, TypeError, ArithmeticError, LookupError):
                    r.unknown(f"{ob}: connections counted", "position not understood")
                    break
                if x != a and x != a - len(REACHES):
                    r.bad(prog, rule, k, f"the connections counted for reach {a + 1} are those in row {x}", hist(s), extra="ncon row")
                    break
            else:
                # and both tables are made in the same order
                turn = [TT.node[c][1][1] for c in subterms(i.term) if counter(prog, c) is not None]
                made = [prog.nodes[key[1]]._loops for key in I.elts.get(at[0][1][1]) or ()]
                if len(turn) == 1 and len(made) == 1 and len(made[0]) == 1:
                    mine, theirs = orders(I, st1, turn[0]), orders(I, st1, made[0][0])
                    if len(mine) == 1 and len(theirs) == 1 and None not in mine | theirs and mine != theirs and "sorted" in mine | theirs:
                        r.bad(prog, rule, turn[0] if mine != {"sorted"} else made[0][0], "the reaches are gone through as they were found, the connections by reach number" if mine != {"sorted"} else
                              "the connections are listed as the reaches were found, the reaches by number", hist(s), extra="ncon order")
                r.good(f"{ob}: connections counted")
        complete(prog, r, rule, I, s, [(node, fs)], [(c, w, {None} if i == len(FLOWS) - 1 else ()) for i, (c, w, *_) in enumerate(got[:len(FLOWS)])], ob)


def complete(prog, r, rule, I, s, sites, reps, ob):
    try:
        gone = unreached(prog, I, sites, reps)
    except (Unsure, TypeError, ArithmeticError, LookupError):
        return r.unknown(f"{ob}: all rows", "condition not understood")
    if gone:
        r.bad(prog, rule, gone[0], gone[1], hist(s), extra="rows")
    else:
        r.good(f"{ob}: all rows")


def trial(got):
    """Each field of each representative row against its definition:
    field -> (first deviation, why it was not decided, cases agreed)."""
    out = {}
    for field in sorted({k for g in got for k in g[2]}, key=str):
        name = field if isinstance(field, str) else f"{field[0]}[{field[1]}]"
        n, bad, why = 0, None, None
        for case, w, have, want, node in got:
            if field not in have:
                continue
            rows = have[field] if isinstance(have[field], list) else [(node, frozenset(), have[field])]
            try:
                if have[field] is None or any(t is None for _, _, t in rows):
                    raise Unsure
                if len(rows) > 1:
                    mine = set(w.picks)
                    rows = [x for x in rows if w.holds([a for a in x[1] if any(type(y) is T and mine & free(w.I, y) for y in a[1:])])]
                    if len(rows) != 1:
                        raise Unsure
                x = w.ev(rows[0][2])
            except Unsure:
                why = "expression not understood"
                continue
            except (TypeError, ArithmeticError, IndexError, KeyError):
                why = "expression not evaluated"
                continue
            if not close(x, want[field]):
                bad = bad or (rows[0][0] or node[field], f"{name} of {case} is {x:.6g} instead of {want[field]:.6g}")
            else:
                n += 1
        out[name] = (bad, why, n)
    return out


def compare(prog, r, rule, s, got, ob):
    for name, (bad, why, n) in trial(got).items():
        if bad:
            r.bad(prog, rule, bad[0], bad[1], hist(s), extra=name)
        elif why:
            r.unknown(f"{ob}: {name}", why)
        else:
            r.good(f"{ob}: {name}")
            r.count("cases", n)


def segcols(I):
    """Ways to read the table of cells, segments and reaches: (array -> order of
    its columns) for each order."""
    return [lambda buf, p=p: p if buf in I.colsrc else None for p in itertools.permutations(range(3))]


def ends(t, on):
    """The loop a term counts, if it is at its end."""
    while t is not None and TT.node[t][0] == "iti":
        t = TT.node[t][1]
    return {TT.node[t][1]} if on and t is not None and TT.node[t][0] == "it" else set()


def swap(t, pairs):
    if any(q is None for _, q in pairs):
        return None
    for x, q in pairs:
        t = subst(t, x, q)
    return t


def column(I, st, t):
    """(pushing node, facts, term) of the rows a column was made from."""
    n = TT.node[t]
    if n[0] == "c":
        return [(None, frozenset(), t)]
    if n[0] != "elt":
        cs = [x for x in subterms(t) if TT.node[x][0] == "elt"]
        srcs = {I.colinfo[TT.node[x][2]][:3] if TT.node[x][2] in I.colinfo else None for x in cs}
        if len(srcs) != 1 or None in srcs or any(TT.node[x][0] in LEAVES - {"elt"} for x in subterms(t)):
            return None
        cols = [column(I, st, x) for x in cs]
        if None in cols:
            return None
        return [(rs[0][0], rs[0][1], swap(t, [(x, q) for x, (_, _, q) in zip(cs, rs)])) for rs in zip(*cols)]
    if n[2] in I.colinfo:
        buf, ver, view, c = I.colinfo[n[2]]
        l = I.colsrc.get(buf)
        rows = allrows(I, st, ref(l)) if l is not None else None
        return [(k, fs, items[c].term if c < len(items) else None) for k, fs, items in rows] if rows else None
    d = I.elts.get(n[1])
    if d and isinstance(st.heap.get(n[1]), Seq) and not any(x.refs for _, x in d.values()):
        return [(key[1], fs, x.term) for key, (fs, x) in d.items()]
    return None


def mf2005(prog, r, rule, I, s, fields, strm, fdir, ob):
    mine = {b for l in s.out.value.refs for b in (bufs_of(s.out.state.heap[l]) if isinstance(s.out.state.heap.get(l), Arr) else ())}
    mine = {fb for b in mine for _, fb in getattr(s.out.state.heap.get(b), "fields", None) or ()}
    cols, node = {}, {}
    for (b, f), d in fields.items():
        if b not in mine:
            continue
        if len(d) > 1:
            r.unknown(f"{ob}: {f}", "stored at several places")
            continue
        (nid, (st, v)), = d.items()
        cols[f] = column(I, st, v.term) if v.term is not None else None
        node[f] = nid
    if not cols:
        return r.unknown(ob, "table not understood")
    terms = [x for d in cols.values() for _, _, x in d or () if x is not None]
    vs = set().union(*[free(I, x) for x in terms])
    ab = pairs(I, vs)
    segs = "nseg" in cols
    best = None
    for way in ([None] if segs else segcols(I)):
        got = []
        for p in ab:
            for ix in [None] if segs else sorted(vs - set(p)):
                if ix is not None and TT.node[ix][0] not in ("iti", "it"):
                    continue
                one = []
                for q, (cell, seg, rch) in itertools.product(PLACES, SEGROWS):
                    if segs and rch != 1:
                        continue
                    picks = {p[0]: seg, p[1]: SEGS[seg]}
                    if ix is not None:
                        picks[ix] = rch - 1
                    w = Net(I, s.out.state, picks, strm, fdir, q, way)
                    nxt = next((c for c, a, b in SEGROWS if (a, b) == (seg, rch + 1)), None)
                    if nxt is None:
                        nxt = next((c for c, a, b in SEGROWS if (a, b) == (SEGS[seg], 1)), None)
                    far = math.hypot(q["x", cell] - q["x", nxt], q["y", cell] - q["y", nxt]) if nxt is not None else None
                    want = {"nseg": seg, "outseg": SEGS[seg]} if segs else {
                        "node": cell, "k": 0, "i": cell // NC, "j": cell % NC, "iseg": seg, "ireach": rch, "strtop": q["z", cell],
                        "rchlen": 1.5 * (far if far else (q["delr", cell % NC] + q["delc", cell // NC]) / 2),
                        "slope": (q["z", cell] - q["z", nxt]) / far / 1.5 if far else None}
                    want = {k: x for k, x in want.items() if x is not None}
                    case = f"segment {seg}" if segs else f"reach {rch} of segment {seg} at cell {cell}"
                    have = {k: cols[k] for k in want if k in cols}
                    one.append((case, w, have, want, node))
                if one:
                    res = trial(one)
                    bad = sum(x[0] is not None for x in res.values())
                    # a way to read the table that agrees somewhere and deviates nowhere wins
                    fine = not bad and any(x[2] for f, x in res.items() if f != "k")
                    k = (not fine, sum(x[1] is not None for x in res.values()) + bad)
                    if best is None or k < best[0]:
                        best = (k, res, [(c, w, ends(p[0], seg == max(SEGS)) | ends(ix, (seg, rch + 1) not in {x[1:] for x in SEGROWS}))
                                         for (c, w, *_), (_, seg, rch) in zip(one, [x for x in SEGROWS if not segs or x[2] == 1])])
    if best is None:
        return r.unknown(ob, "rows not understood")
    for name, (bad, why, n) in sorted(best[1].items()):
        if bad:
            r.bad(prog, rule, bad[0], bad[1], hist(s), extra=name)
        elif why:
            r.unknown(f"{ob}: {name}", why)
        else:
            r.good(f"{ob}: {name}")
            r.count("cases", n)
    sites = sorted({(k, fs) for d in cols.values() for k, fs, _ in d or () if k is not None}, key=str)
    if sites:
        complete(prog, r, rule, I, s, sites, best[2], ob)
