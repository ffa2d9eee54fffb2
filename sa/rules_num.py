"""Rules that compare a stored value with the value it replaces, or with the
decision that led to the store."""
from .tour import *
from .av import TT, T, mk, subst
from .interp import bufs_of, State
from .rules_base import halted, opname, hist, method_nid, deps_at

NEGOP = {"lt": "nlt", "le": "nle"}


class Order:
    """Linear order reasoning over the facts of one program point."""

    def __init__(self, I, st):
        self.I, self.st = I, st
        self.ineqs = []             # (larger, smaller, strict)
        for a in st.facts:
            self.ineqs += self.of(a)
        for a in st.facts:
            self.ineqs += self.everywhere(a)

    @staticmethod
    def of(a):
        k = a[0]
        if k in ("lt", "le"):
            return [(a[2], a[1], k == "lt")]
        if k in ("nlt", "nle"):
            return [(a[1], a[2], k == "nle")]
        if k == "eq":
            return [(a[1], a[2], False), (a[2], a[1], False)]
        return []

    def everywhere(self, a):
        """A mask without a single hit is false in every cell."""
        loc = None
        if a[0] in ("f", "t"):
            n = TT.node[a[1]]
            if n[0] == "quant" and (a[0], n[1]) in (("f", "any"), ("t", "all")):
                m = TT.node[n[2]]
                if m[0] in NEGOP:
                    return [x + (True,) for x in self.of((NEGOP[m[0]] if a[0] == "f" else m[0], m[1], m[2]))]
            return []
        for big, small, strict in self.of(a):
            n = TT.node[small]
            if n[0] == "len" and not strict and TT.node[big] == ("c", "int", 0):
                loc = n[1]
        if loc is None:
            return []
        m = TT.node[self.I.nzinfo[loc]] if loc in self.I.nzinfo else ("",)
        out = self.of((NEGOP[m[0]], m[1], m[2])) if m[0] in NEGOP else []
        return [x + (True,) for x in out]

    # ------------------------------------------------------------ forms
    def lin(self, t, k=1, out=None, depth=0):
        out = {} if out is None else out
        n = TT.node[t]
        if n[0] == "c" and n[1] in ("int", "float", "bool") and n[2] != "nan":
            out[None] = out.get(None, 0) + k * float(n[2])
        elif n[0] in ("+", "-") and len(n) == 3 and depth < 10:
            self.lin(n[1], k, out, depth + 1)
            self.lin(n[2], k if n[0] == "+" else -k, out, depth + 1)
        elif n[0] == "neg" and depth < 10:
            self.lin(n[1], -k, out, depth + 1)
        else:
            out[t] = out.get(t, 0) + k
        return {a: c for a, c in out.items() if c}

    @staticmethod
    def comb(a, b, s):
        d = dict(a)
        for k, c in b.items():
            d[k] = d.get(k, 0) + s * c
        return {k: c for k, c in d.items() if c}

    def least(self, f):
        lo = f.get(None, 0)
        for t, c in f.items():
            if t is None:
                continue
            l, h = self.I.base_iv(t, self.st.facts)
            lo += c * l if c > 0 else c * h
            if lo != lo or lo == -INF:
                return -INF
        return lo

    def ge(self, a, b, depth=0):
        """Is a >= b certain?"""
        if a == b:
            return True
        if depth < 4:
            na, nb = TT.node[a], TT.node[b]
            if na[0] == "max" and any(self.ge(x, b, depth + 1) for x in na[1:] if type(x) is T):
                return True
            if na[0] == "min" and all(self.ge(x, b, depth + 1) for x in na[1:] if type(x) is T):
                return True
            if nb[0] == "min" and any(self.ge(a, x, depth + 1) for x in nb[1:] if type(x) is T):
                return True
            if na[0] == "ite":
                return all(self.under(na[1], tv).ge(x, b, depth + 1) for x, tv in ((na[2], True), (na[3], False)))
        f = self.comb(self.lin(a), self.lin(b), -1)
        if self.nonneg(f, ()):
            return True
        ex = [x for x in self.extremes(f) if x not in self.ineqs]
        if ex:
            self.ineqs = self.ineqs + ex
            return self.nonneg(f, ())
        return False

    def under(self, cond, truth):
        s = State()
        s.facts, s.heap = self.st.facts, self.st.heap
        self.I.assume(s, cond, truth)
        return Order(self.I, s)

    def nonneg(self, f, used):
        if self.least(f) >= 0:
            return True
        if len(used) >= 3:
            return False
        for i, q in enumerate(self.ineqs):
            if i in used:
                continue
            for g in self.instances(q, f):
                if not any(g.get(t, 0) * c > 0 for t, c in f.items() if t is not None):
                    continue
                if self.nonneg(self.comb(f, g, -1), used + (i,)):
                    return True
        return False

    def instances(self, q, f):
        big, small = q[0], q[1]
        g = self.comb(self.lin(big), self.lin(small), -1)
        yield g
        if len(q) < 4:
            return
        # a fact about all selected elements holds for one chosen among them
        gaths = [t for t in g if t is not None and TT.node[t][0] in ("gath", "el", "elt")]
        for t in f:
            if t is None:
                continue
            n = TT.node[t]
            if n[0] != "red" or n[1] not in ("max", "min", "nanmax", "nanmin"):
                continue
            for s in gaths:
                if self.among(n[2], s):
                    yield {(t if k == s else k): c for k, c in g.items()}

    def extremes(self, f):
        """The smallest of some values is no greater than any of them."""
        reds = []
        todo = [x for q in self.ineqs for x in q[:2]] + [t for t in f if t is not None]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            n = TT.node[x]
            if n[0] == "red" and len(n) == 3:
                reds.append((x, n[1].replace("nan", ""), n[2]))
            todo += [c for c in n[1:] if type(c) is T]
        out = []
        for x, k, s in reds:
            for y, m, u in reds:
                if x != y and m in ("min", "max", "mean", "median") and self.among(u, s):
                    if k == "min":
                        out.append((y, x, False))
                    elif k == "max":
                        out.append((x, y, False))
        return out

    def among(self, x, y):
        """Are the elements x names all among those y names?"""
        if x == y or self.sublist(x, y):
            return True
        a, b = TT.node[x], TT.node[y]
        if a[0] == "gath" and b[0] == "gath" and len(a) == len(b) == 3:
            return self.same(a[1], b[1]) and (a[2] == b[2] or self.sublist(a[2], b[2]))
        return False

    @staticmethod
    def same(x, y):
        return x == y

    def sublist(self, x, y):
        """A list made of elements picked from another list."""
        a = TT.node[x]
        if a[0] not in ("elt", "eltm"):
            return False
        c = self.I.compinfo.get(a[1])
        if c is None or c[0] != a[2]:
            return False
        n = TT.node[c[1]]
        if c[1] == y:
            return True
        return {"sq": "elt", "sqm": "eltm"}.get(n[0]) is not None and TT.node[y] == ({"sq": "elt", "sqm": "eltm"}[n[0]], n[1], n[2])


# ------------------------------------------------------------------ C10
def c10_units(tier):
    return [(k,) for k in KINDS]


def c10(prog, unit, tier, r):
    """Every value written into the filled elevations is at least the one it
    replaces or the original elevation of the same cell."""
    kind, = unit
    rule = "sink filling never lowers an elevation"
    t = Tour(prog, kind)
    S = t.S
    I = S.I
    log = {}
    touched = set()

    def on_store(I, st, node, fr, b, bo, arr, idx, v, how, field):
        touched.add(b)
        if bo.owner is not None or bo.fields or bo.dt == "bool" or not bo.elem.kinds & frozenset({"float", "int", "unk"}):
            return
        first.setdefault(b, bo.elem)
        log.setdefault(b, {}).setdefault((node._nid if node is not None else 0, how), []).append(
            verdict(I, st, b, bo, idx, v, how, arr))

    def verdict(I, st, b, bo, idx, v, how, arr):
        if v.term is None:
            return ("?", "value not resolved")
        if not idx or len(idx) != 1 or not isinstance(idx[0], AV):
            return ("?", "position not resolved")
        i = idx[0]
        it = i.term if not i.refs else None
        if i.refs:
            x = S.I.models.ai(I, st, i)
            it = x.elem.term if x.elem.term is not None else S.I.models.listterm(st, i)
        if it is None:
            return ("?", "position not resolved")
        if TT.node[v.term][0] == "gath" and TT.node[v.term][2:] == (it,) and original(I, st, TT.node[v.term][1], bo):
            return ("ok", "")
        n = TT.node[v.term]
        if n[0] == "el" and n[4:] == (it,) and n[1] != b and unchanged(I, st, n[1], n[2]):
            return ("ok", "")
        if i.refs:
            return ("?", "array store")
        old = mk("el", b, bo.ver, None, it)
        o = Order(I, st)
        # the original elevation is a lower bound as well
        goals = [old]
        for q in o.ineqs:
            for big in q[:2]:
                for a in alla(big):
                    m = TT.node[a]
                    if m[0] == "el" and m[4:] == (it,) and m[1] != b and unchanged(I, st, m[1], m[2]) and a not in goals:
                        goals.append(a)
        if any(o.ge(v.term, x) for x in goals):
            return ("ok", "")
        return ("no", judge(o, v.term, old, b, i, st, goals))

    def plain(t):
        n = TT.node[t]
        return n[0] == "input" or n[0] == "c" or n[0] == "el" or n[0] == "red" and free(n[2])

    def free(t):
        """Levels picked without comparing them."""
        n = TT.node[t]
        if n[0] not in ("elt", "eltm") or I.compinfo.get(n[1], (None,))[0] != n[2]:
            return False
        _, e, facts = I.compinfo[n[1]]
        return TT.node[e][0] == "el" and not any(a[0] in ("lt", "le", "nlt", "nle", "eq", "ne") for a in facts)

    def walked(t, depth=0):
        """An element of whatever the loop runs over."""
        n = TT.node[t]
        if n[0] in ("it", "iti", "pop"):
            return True
        d = I.phidef.get(t)
        if n[0] != "phi" or not d or depth > 3:
            return False
        alts = [x for _, x in d[1]] if d[0] == "alts" else d[1:3]
        return all(type(x) is T and walked(x, depth + 1) for x in alts)

    def original(I, st, t, bo):
        return TT.node[t] == ("input", "dem") or TT.node[t][0] == "elt" and unchanged(I, st, TT.node[t][1], TT.node[t][2])

    def unchanged(I, st, b, ver):
        """A copy of the elevations nobody wrote to."""
        bb = st.heap.get(b)
        return isinstance(bb, Buf) and b not in log and TT.node[ver][0] == "w" and bb.elem.deps <= {"dem"} and "dem" in bb.elem.deps

    def judge(o, v, old, b, i, st, goals):
        """What is certainly wrong with an unproved store, or None."""
        lv = o.lin(v)
        up = {t: c for t, c in lv.items() if c > 0 and t is not None}
        mentions = [q for q in o.ineqs if levels(q[0]) and levels(q[1])]
        # an increment that is missing, or taken off instead of added
        for x in {x for q in o.ineqs for z in q[:2] for x in o.lin(z)} | set(lv):
            if x is None or TT.node[x][0] != "input" or o.I.base_iv(x, st.facts)[0] < 0:
                continue
            for k in (1, 2):
                for low in goals:
                    if o.nonneg(o.comb(o.comb(lv, {x: k}, 1), o.lin(low), -1), ()):
                        return "the level stored can fall short of what was compared by an increment"
        # compared the wrong way round
        g = o.comb({old: 1}, {t: c for t, c in lv.items() if TT.node[t][0] not in ("input", "c")} if None not in lv else {t: c for t, c in lv.items() if t is not None and TT.node[t][0] != "input"}, -1)
        if len(up) >= 1 and o.nonneg(g, ()):
            return "the cell is stored although it is known to lie at or above the new level"
        # every value involved is plain: the comparisons simply do not suffice
        if mentions and all(t is None or plain(t) for q in mentions for z in q[:2] for t in o.lin(z)) and all(t is None or plain(t) for t in lv) \
                and any(old in o.lin(z) for q in mentions for z in q[:2]):
            # an elevation read before a cell was raised is not above the one it has now
            now = TT.node[old][2]
            els = [x for z in [y for q in mentions for y in q[:2]] for x in list(o.lin(z)) + list(lv) if x is not None and TT.node[x][:2] == ("el", b)]
            was = [(x, mk("el", b, now, *TT.node[x][3:])) for x in els if TT.node[x][2] != now]
            o.ineqs += [(y, x, False) for x, y in was]
            if was and o.ge(v, old):
                return None
            return "the comparison that guards the store does not keep the cell from being lowered"
        if not mentions and not opaque(o) and not any(True for a in alla(v) if TT.node[a][0] == "el" and TT.node[a][1] == b and TT.node[a][4:] == (i.term,)):
            if walked(i.term):
                return "no comparison with the cell's elevation guards the store"
        return None

    def alla(t, depth=0):
        out = [t]
        if depth < 8:
            for c in TT.node[t][1:]:
                if type(c) is T:
                    out += alla(c, depth + 1)
        return out

    def levels(t):
        return TT.node[t][0] not in ("c", "p", "len", "it")

    def opaque(o):
        """Conditions in force whose meaning is not known."""
        for a in o.st.facts:
            if a[0] in ("t", "f"):
                n = TT.node[a[1]]
                if n[0] in ("el", "elt", "gath"):
                    if n[1] not in touched:
                        return True
                elif n[0] not in ("lt", "le", "eq", "ne", "not", "and", "or", "memb", "isnone", "inset", "c", "isa", "input", "len", "loc") \
                        and not (n[0] in ("truthy", "not") and TT.node[n[1]][0] in ("el", "elt", "not", "truthy")):
                    return True
        return False

    def derived(s, mine):
        """The array that was filled, when the result adds something to it."""
        st = s.out.state
        out = set()
        for b in mine:
            e = st.heap[b].elem if isinstance(st.heap.get(b), Buf) else None
            if e is None or e.term is None:
                continue
            o = Order(I, st)
            for a in alla(e.term):
                n = TT.node[a]
                if n == ("input", "dem") and o.ge(e.term, a):
                    r.good(f"result of {opname(s)}")
                    return set()
                if n[0] == "elt" and n[1] in log and st.heap[n[1]].ver == n[2]:
                    if o.ge(e.term, a):
                        out.add(n[1])
                    else:
                        f = o.comb(o.lin(e.term), o.lin(a), -1)
                        if f and all(t is None or TT.node[t][0] == "input" for t in f):
                            r.bad(prog, rule, method_nid(prog, s), "the result lies below the filled elevations", hist(s), extra=s.op[1] + "result")
        return out

    S.hook("store", on_store)
    first = {}
    for op in cond_ops():
        if not op[0].startswith("fill_sinks"):
            continue
        log.clear()
        first.clear()
        touched.clear()
        s = t.do(None, op)
        if not s.out.returns:
            continue
        st = s.out.state
        mine = {b for l in s.out.value.refs for b in (bufs_of(st.heap[l]) if isinstance(st.heap.get(l), Arr) else ())}
        if not mine & set(log):
            mine = derived(s, mine)
        for b in mine & set(log):
            if b in first:
                e = first[b]
                ob = f"start of {opname(s)}"
                if e.deps <= {"dem"} and "dem" in e.deps:
                    r.good(ob)
                elif e.lo >= 29029:
                    r.good(ob)
                elif e.const is not None and e.hi < 8849:
                    r.bad(prog, rule, method_nid(prog, s), f"filling starts from elevations of {e.lo:g}, below elevations that occur", hist(s), extra=s.op[1] + "start")
                else:
                    r.unknown(ob, "start value not understood")
        if not mine & set(log):
            r.unknown(f"stores of {opname(s)}", "the result is not the array that was filled")
            continue
        for b in sorted(mine & set(log), key=str):
            for (nid, how), vs in sorted(log[b].items()):
                ob = f"{opname(s)}: store at {prog.where(nid)[0]}:{prog.where(nid)[2]}"
                bad = [m for k, m in vs if k == "no" and m]
                if all(k == "ok" for k, _ in vs):
                    r.good(ob)
                elif bad:
                    r.bad(prog, rule, nid, bad[0], hist(s), extra=s.op[1] + how)
                else:
                    r.unknown(ob, next(m or "order not proved" for k, m in vs if k != "ok"))
    r.count("operations", len(t.steps))


# ------------------------------------------------------------------ C08
def subterms(t, depth=0, out=None):
    out = set() if out is None else out
    if t in out or depth > 14:
        return out
    out.add(t)
    for c in TT.node[t][1:]:
        if type(c) is T:
            subterms(c, depth + 1, out)
    return out


def position(I, st, idx):
    """Term of a single position, or of the elements of a position array."""
    if not idx or len(idx) != 1 or not isinstance(idx[0], AV):
        return None, None
    i = idx[0]
    if not i.refs:
        return i.term, i
    x = I.models.ai(I, st, i)
    return (x.elem.term if x.elem.term is not None else I.models.listterm(st, i)), x.elem


def c08(prog, unit, tier, r):
    kind, = unit
    t = Tour(prog, kind)
    S = t.S
    I = S.I
    rule = "NaN filling replaces NaN cells by the chosen statistic of their neighbours, and nothing else"
    log, starts = {}, {}
    cur = [None]

    def holds(st, ts, want):
        """A mask or guard on NaN in force at the store."""
        for x in ts:
            n = TT.node[x]
            if n[0] == "isnan":
                return True
            if n[0] == "ne" and n[1] == n[2]:
                return True
            if n[0] == "not" and TT.node[n[1]][0] == "eq" and TT.node[n[1]][1] == TT.node[n[1]][2]:
                return True
        return False

    def on_store(I, st, node, fr, b, bo, arr, idx, v, how, field):
        if bo.owner is not None or bo.fields or "dem" not in bo.elem.deps or bo.dt in ("bool", "int"):
            return
        e = log.setdefault(b, {}).setdefault(node._nid if node is not None else 0, {"where": [], "what": []})
        it, iav = position(I, st, idx)
        e["where"].append(whereok(st, b, it, iav, how))
        e["what"].append(whatok(st, v, it))
        if TT.node[bo.ver][0] == "w" and bo.elem.term is not None:
            starts.setdefault(b, []).append((node._nid if node is not None else 0, bo.elem.term))

    def whereok(st, b, it, iav, how):
        if how == "mask" or (iav is not None and iav.kinds == frozenset({"bool"})):
            n = TT.node[it] if it is not None else ("",)
            if n[0] == "isnan":
                return "ok", ""
            if it is not None and blind(it):
                return "no", "the cells overwritten are chosen by a comparison, not by whether they are NaN"
            if n[0] in ("not",) and TT.node[n[1]][0] in ("isnan", "isfinite"):
                return ("ok", "") if TT.node[n[1]][0] == "isfinite" else ("no", "cells that are not NaN are overwritten")
            return it is not None and picks(it) or ("?", "mask not understood")
        if iav is None:
            return "?", "position not resolved"
        ts = [x[1][0] for x in iav.tags if x[0] == "where"]
        if holds(st, ts, True):
            return "ok", ""
        if len(ts) == 1 and not any(a[0] in ("nan", "nn", "t", "f") and not about(a[1]) and any(TT.node[x][0] in ("isnan", "isfinite", "el") for x in subterms(a[1])) for a in st.facts):
            k = picks(ts[0])
            if k is not None:
                return k
        if any(TT.node[x][0] == "not" and TT.node[TT.node[x][1]][0] == "isnan" for x in ts):
            return "no", "cells that are not NaN are overwritten"
        for a in st.facts:
            if a[0] == "nan" and (it is None or it in subterms(a[1])):
                return "ok", ""
            if a[0] == "ne" and a[1] == a[2]:
                return "ok", ""
        n = TT.node[it] if it is not None else ("",)
        if n[0] == "eltm" and TT.node[n[1]][0] == "dv" and TT.node[n[1]][1][:1] == ("gridneighd",) and not any(
                a[0] in ("t", "f", "nan") and not about(a[1]) and any(TT.node[x][0] in ("gath", "quant", "phi") for x in subterms(a[1])) for a in st.facts):
            return "no", "all neighbours are overwritten, whether or not they are NaN"
        here = mk("el", b, st.heap[b].ver, None, it) if it is not None else None
        for a in st.facts:
            if a[0] in ("lt", "le") and here in a[1:] or a[0] == "nn" and a[1] == here:
                return "no", "cells known to have an elevation are overwritten"
        if any(a[0] in ("t", "f") and any(TT.node[x][0] in ("isnan", "isfinite", "phi") for x in subterms(a[1]) if not about(a[1])) for a in st.facts):
            return "?", "guard on NaN not understood"
        if ts and all(blind(x) for x in ts):
            return "no", "the cells overwritten are chosen by a comparison, not by whether they are NaN"
        return "?", "position not understood"

    def about(t):
        """A test of the value to be stored, not of the cell."""
        n = TT.node[t]
        return n[0] == "red" or n[0] == "isnan" and TT.node[n[1]][0] == "red"

    def blind(t):
        """A comparison with a finite number, true for some numbers."""
        n = TT.node[t]
        if n[0] == "or":
            return any(blind(x) for x in n[1:] if type(x) is T)
        if n[0] == "not":
            n = TT.node[n[1]]
        if n[0] not in ("lt", "le", "eq"):
            return False
        x = [TT.node[c] for c in n[1:]]
        return x[0][0] in ("elt", "input") and fin(x[1]) or x[1][0] in ("elt", "input") and fin(x[0])

    def fin(n):
        return n[0] == "c" and n[1] in ("int", "float") and isinstance(n[2], (int, float)) and abs(n[2]) < 1e30

    def among(st, arg, it):
        """Which elevations the statistic is taken over."""
        n = TT.node[arg]
        if n[0] == "gath" and len(n) == 3 and TT.node[n[1]][0] in ("elt", "input"):
            return around(st, n[2], it)
        if n[0] == "elt" and I.compinfo.get(n[1], (None,))[0] == n[2]:
            _, t, facts = I.compinfo[n[1]]
            return leftout(facts, t)
        return "?", "the values averaged are not understood"

    def around(st, ix, it):
        n = TT.node[ix]
        if n[0] == "eltm" and TT.node[n[1]][0] == "dv":
            d = TT.node[n[1]]
            if d[1][:1] == ("gridneighd",):
                if d[1][1] != "queen":
                    return "no", "only the cells sharing an edge are used, not all that share a vertex"
                return ("ok", "") if d[3] == it else ("?", "neighbours of another position")
        if n[0] == "elt" and I.slinfo.get(n[1], (None,))[0] == n[2]:
            _, base, (lo, hi, step) = I.slinfo[n[1]]
            whole = base is not None and around(st, base, it)[0] == "ok"
            if whole and (type(lo) is int and lo > 0 or type(hi) is int and hi < 8 or type(step) is int and step > 1):
                return "no", "some of the neighbours are left out by position"
        if n[0] == "elt" and I.compinfo.get(n[1], (None,))[0] == n[2]:
            _, t, facts = I.compinfo[n[1]]
            return leftout(facts, t)
        return "?", "the cells averaged are not understood"

    def altered(t):
        n = TT.node[t]
        return n[0] in ("round", "around", "floor", "ceil", "rint", "trunc", "+", "-", "*", "/", "neg", "abs", "castint") and \
            all(TT.node[x][0] in ("red", "c") or altered(x) for x in n[1:] if type(x) is T)

    def leftout(facts, t):
        bad = [a for a in facts if a[0] in ("lt", "le", "nlt", "nle") and any(TT.node[x][0] == "el" for x in a[1:])
               and any(fin(TT.node[x]) for x in a[1:])]
        if bad:
            return "no", "neighbours with an elevation are left out"
        if all(a[0] == "nn" or a[0] == "f" and TT.node[a[1]][0] == "isnan"
               or a[0] == "t" and TT.node[a[1]][0] == "not" and TT.node[TT.node[a[1]][1]][0] == "isnan" for a in facts):
            return "ok", ""
        return "?", "the neighbours left out are not understood"

    def spoiled(st, arg):
        """The elevations of all neighbours, with nothing left out or tested."""
        n = TT.node[arg]
        if n[0] != "gath" or len(n) != 3 or TT.node[n[1]][0] not in ("elt", "input") or TT.node[n[2]][0] != "eltm":
            return False
        return not any(a[0] in ("t", "f", "nn", "nan") and not about(a[1]) and any(TT.node[x][0] in ("gath", "quant", "phi") for x in subterms(a[1])) for a in st.facts)

    def chosen(t, x):
        """Whether a mask picks a cell holding x; None if not understood."""
        n = TT.node[t]
        if n[0] in ("elt", "input", "el", "gath"):
            return x
        if n[0] == "c" and n[1] in ("int", "float", "bool"):
            return float("nan") if n[2] == "nan" else n[2]
        a = [chosen(y, x) for y in n[1:] if type(y) is T]
        if not a or any(y is None for y in a):
            return None
        f = {"isnan": lambda p: p != p, "isfinite": lambda p: p == p and abs(p) != float("inf"), "isinf": lambda p: abs(p) == float("inf"),
             "not": lambda p: not p, "lt": lambda p, q: p < q, "le": lambda p, q: p <= q, "eq": lambda p, q: p == q, "ne": lambda p, q: p != q,
             "abs": abs, "truthy": bool, "castbool": bool}.get(n[0])
        if n[0] in ("and", "or"):
            return (all if n[0] == "and" else any)(a)
        return f(*a) if f is not None else None

    def picks(t):
        """Judge a mask by the cells it picks."""
        if len({x for x in subterms(t) if TT.node[x][0] in ("elt", "input", "el", "gath")}) != 1:
            return None
        nan, rest = chosen(t, float("nan")), [chosen(t, x) for x in (0, 1.5, -3, 1e4, float("inf"), -float("inf"))]
        if not all(isinstance(x, bool) for x in [nan] + rest):
            return None
        if any(rest):
            return "no", "cells that are not NaN are overwritten"
        return ("ok", "") if nan else ("no", "cells that are NaN are not filled")

    SAMPLES = ([1., 2., 6.], [3.], [-5., 7., 7.5, 40.], [100., 2.])

    def worth(t, arg, xs):
        """A formula over the neighbours' elevations xs (number, list or None)."""
        n = TT.node[t]
        if t == arg:
            return xs
        if n[0] == "c" and n[1] in ("int", "float", "bool"):
            return float("nan") if n[2] == "nan" else n[2]
        if n[0] == "len":
            h = I.curst.heap.get(n[1])
            b = I.curst.heap.get(h.buf) if isinstance(h, Arr) and h.view is None and not isinstance(h.buf, list) else None
            return float(len(xs)) if b is not None and b.elem.term == arg else None
        if n[0] == "red":
            a = worth(n[2], arg, xs)
            if not isinstance(a, list):
                return None
            k = n[1].replace("nan", "")
            if n[1] != k:
                a = [x for x in a if x == x]
            if k == "count_nonzero":
                return float(sum(1 for x in a if x != 0))
            if k == "sum":
                return float(sum(a))
            if not a:
                return None
            if any(x != x for x in a):
                return float("nan") if k in ("mean", "median", "min", "max") else None
            b = sorted(a)
            return {"mean": sum(a) / len(a), "median": (b[len(b) // 2] + b[(len(b) - 1) // 2]) / 2, "min": b[0], "max": b[-1]}.get(k)
        a = [worth(y, arg, xs) for y in n[1:] if type(y) is T]
        f = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q if q else float("nan"),
             "neg": lambda p: -p, "abs": abs, "max": max, "min": min, "isnan": lambda p: p != p, "isfinite": lambda p: p == p, "not": lambda p: not p,
             "round": lambda p: float(round(p)), "around": lambda p: float(round(p)), "rint": lambda p: float(round(p)), "castfloat": float,
             "floor": lambda p: p // 1, "ceil": lambda p: -(-p // 1), "ite": lambda c, p, q: p if c else q, "lt": lambda p, q: p < q,
             "le": lambda p, q: p <= q, "eq": lambda p, q: p == q}.get(n[0])
        if f is None or not a or any(x is None for x in a):
            return None
        m = {len(x) for x in a if isinstance(x, list)}
        try:
            if not m:
                return f(*a)
            if len(m) == 1:
                return [f(*(x[i] if isinstance(x, list) else x for x in a)) for i in range(next(iter(m)))]
        except (TypeError, ValueError, OverflowError):
            pass
        return None

    def compared(st, v, it):
        """Judge the formula stored by its value on sample elevations."""
        args = {TT.node[x][2] for x in subterms(v.term) if TT.node[x][0] == "red"}
        args |= {y for x in args for y in subterms(x) if TT.node[y][0] in ("gath", "elt")}
        args = {x for x in args if among(st, x, it)[0] == "ok"}
        args = {x for x in args if not any(x != y and x in subterms(y) for y in args)}
        if len(args) != 1 or cur[0] is None:
            return None
        arg, = args
        I.curst = st
        gaps = [] if TT.node[arg][0] == "elt" else [xs[:1] + [float("nan")] + xs[1:] for xs in SAMPLES]
        for xs in list(SAMPLES) + gaps:
            got, b = worth(v.term, arg, xs), sorted(x for x in xs if x == x)
            if not isinstance(got, float):
                return None
            want = {"mean": sum(b) / len(b), "median": (b[len(b) // 2] + b[(len(b) - 1) // 2]) / 2, "min": b[0], "max": b[-1]}[cur[0]]
            if not abs(got - want) <= 1e-6:
                if xs in gaps and got != got:
                    return "?", "a NaN among the neighbours makes it NaN"
                return "no", f"what is stored is not the {cur[0]} of the neighbours: {got:g} instead of {want:g} for elevations {', '.join(f'{x:g}' for x in xs)}"
        return "ok", ""

    def whatok(st, v, it):
        m = cur[0]
        if v.nan:
            if any(a[0] in ("nn", "nan") or a[0] in ("t", "f") and any(TT.node[x][0] in ("isnan", "isfinite", "quant") for x in subterms(a[1])) for a in st.facts):
                return "?", "guard on NaN not understood"
            return "no", "the value stored can be NaN"
        if v.term is None:
            return "?", "value not resolved"
        reds = [x for x in subterms(v.term) if TT.node[x][0] == "red"]
        if len(reds) == 1 and altered(v.term):
            return "no", "the statistic is altered before it is stored"
        if TT.node[v.term][0] != "red" or len(reds) != 1 or TT.node[v.term][1].replace("nan", "") not in ("mean", "median", "min", "max"):
            return compared(st, v, it) or ("?", "value not understood")
        name = TT.node[v.term][1]
        plain = name.replace("nan", "")
        if plain not in ("mean", "median", "min", "max"):
            return "?", "value not understood"
        k, w = among(st, TT.node[v.term][2], it)
        if k == "no":
            return k, w
        if name == plain and spoiled(st, TT.node[v.term][2]):
            return "spoil", f"a neighbour that is NaN makes the {plain} of the neighbours NaN"
        if m is not None and plain != m:
            return "no", f"the {plain} of the neighbours is stored where the {m} was asked for"
        return k, w

    S.hook("store", on_store)
    for op in cond_ops():
        if not op[0].startswith("fill_nan_values"):
            continue
        log.clear()
        starts.clear()
        m = op[0].split(":")[1]
        cur[0] = "mean" if m == "default" else m
        s = t.do(None, op)
        if halted(prog, r, rule, s, f"stores of {opname(s)}"):
            continue
        if not log and s.out.raises and all(x[3] for x in s.out.raises):
            r.bad(prog, rule, s.out.raises[0][2], f"asking for the {cur[0]} ends in an error and fills nothing", hist(s), extra=m)
            continue
        st = s.out.state
        mine = {b for l in s.out.value.refs for b in (bufs_of(st.heap[l]) if isinstance(st.heap.get(l), Arr) else ())}
        if not mine & set(log):
            r.unknown(f"stores of {opname(s)}", "the result is not the array that was filled")
            continue
        for b in sorted(mine & set(log), key=str):
            for nid, x in starts.get(b, ()):
                ob = f"{opname(s)}: what the stores start from"
                if TT.node[x][0] == "input":
                    r.good(ob)
                elif TT.node[x][0] in ("abs", "neg", "+", "-", "*", "/", "round", "around", "floor", "ceil", "rint", "trunc"):
                    r.bad(prog, rule, nid, "the array filled is not a copy of the elevations given", hist(s))
                else:
                    r.unknown(ob, "contents not resolved")
            spoil = all(k == "spoil" for e in log[b].values() for k, _ in e["what"])
            for nid, e in sorted(log[b].items()):
                at = f"store at {prog.where(nid)[0]}:{prog.where(nid)[2]}"
                for what in ("where", "what"):
                    ob = f"{opname(s)}: {what} of {at}"
                    bad = [x for k, x in e[what] if k == "no" or k == "spoil" and spoil]
                    if bad:
                        r.bad(prog, rule, nid, bad[0], hist(s), extra=s.op[1] + what)
                    elif all(k == "ok" for k, _ in e[what]):
                        r.good(ob)
                    else:
                        r.unknown(ob, next(x for k, x in e[what] if k != "ok"))
    r.count("operations", len(t.steps))
