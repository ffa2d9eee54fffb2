"""Rules on drainage networks: where a cell drains, which rows describe it."""
from .av import *
from .tour import *
from .rules_base import halted, hist, method_nid, KINDS
from .rules_value import named
from .rules_num import subterms
from .rules_term import early, World, Unsure, truthy, NAN, apply

MINS = {"min", "amin", "nanmin", "fmin"}
MAXS = {"max", "amax", "nanmax", "fmax"}
SIZES = {"R": 4, "C": 5, "N": 20}


class Around(World):
    """One cell and its neighbours; the expression is read at one neighbour."""
    SIZE = 20

    def __init__(self, I, st, q, nbs, inputs=()):
        World.__init__(self, I, st, q, None, None, self.SIZE)
        self.nbs, self.k, self.rows, self.inputs = nbs, 0, set(), dict(inputs)

    def what(self, base):
        n = TT.node[base]
        if n[0] == "elt":
            b = self.st.heap.get(n[1])
            x = getattr(b, "elem", None)
            if x is not None and "grid:neigh" in x.deps and not x.deps & {"grid:xcenters", "grid:ycenters"} and x.kinds == {"int"} and not b.multi and not b.fields:
                return "nb"
        return World.what(self, base)

    def read(self, base, cell):
        if self.what(base) == "nb":
            if cell != self.OWN:
                raise Unsure
            return self.nbs[self.k]
        return World.read(self, base, cell)

    def ev(self, t):
        n = TT.node[t]
        k = n[0]
        if k == "input" and n[1] in self.inputs:
            return self.inputs[n[1]]
        if k == "p":
            v = 0
            for m, c in n[1]:
                for s in m:
                    if s not in SIZES:
                        raise Unsure
                    c *= SIZES[s]
                v += c
            return v
        if k == "sel" and type(n[2]) is T and TT.node[n[2]][0] == "row" and TT.node[n[2]][1] is None:
            self.rows.add(TT.node[n[2]][2])
            return self.ev(n[1])
        if k in ("red", "redx") and len(n) == 3:
            here, vs = self.k, []
            for self.k in range(len(self.nbs)):
                vs.append(self.ev(n[2]))
            self.k = here
            nums = [v for v in vs if v == v]
            if n[1] in MINS | MAXS:
                if len(nums) < len(vs) and not n[1].startswith("nan") or not nums:
                    return NAN
                return (min if n[1] in MINS else max)(nums)
            if n[1] in ("argmin", "nanargmin", "argmax", "nanargmax"):
                if len(nums) < len(vs) and not n[1].startswith("nan"):
                    raise Unsure
                return vs.index((min if "min" in n[1] else max)(nums))
            raise Unsure
        return World.ev(self, t)


# own elevation 100; neighbours as (dx, dy, elevation), None for padding
def hoods(thr):
    lo, hi = 100.0 + thr * 0.4, 100.0 + thr * 0.7
    up = 100.0 + thr * 1.6
    return [("the steeper of two neighbours", [(1.0, 0.0, 98.0), (0.0, 1.0, 97.0)], {1}),
            ("the steeper of two neighbours", [(1.0, 0.0, 97.0), (0.0, 1.0, 98.0)], {0}),
            ("the steepest and not the lowest neighbour", [(1.0, 0.0, 97.0), (0.0, -4.0, 90.0), (2.0, 2.0, 99.0)], {0}),
            ("the steepest and not the nearest neighbour", [(0.5, 0.5, 99.5), (0.0, -4.0, 90.0), (-2.0, 2.0, 99.0)], {1}),
            ("the neighbour that goes down", [(1.0, 0.0, 103.0), (-3.0, 1.0, 99.9), (0.0, 2.0, 101.0)], {1}),
            ("a neighbour and not the padding of its row", [(1.0, 0.0, 99.0), (0.0, 3.0, 99.0), None, None], {0}),
            ("a level neighbour and not the padding of its row", [(1.0, 0.0, 100.0), (0.0, 3.0, 101.0), None], {0}),
            ("a neighbour that has an elevation", [(1.0, 0.0, NAN), (0.0, 3.0, 99.0), (0.0, -3.0, 99.5)], {1}),
            ("the neighbour below a level one", [(1.0, 0.0, 100.0), (0.0, 3.0, 99.9)], {1}),
            ("the neighbour rising less than the threshold", [(1.0, 0.0, up), (3.0, 0.0, hi)], {1}),
            ("the lower of two neighbours level within the threshold", [(1.0, 0.0, 100.0 - thr * 0.5), (0.0, 1.0, lo), (2.0, 0.0, 101.0)], {0}),
            ("the lowest rise where every neighbour is higher", [(1.0, 0.0, 104.0), (0.0, 1.0, 103.0), None], {1}),
            ("the steeper of two nearly equal neighbours", [(1.0, 0.0, 99.0), (0.0, 1.0, 98.999)], {1}),
            ("the steeper of two almost equal neighbours", [(1.0, 0.0, 99.0), (0.0, 1.0, 98.9999999)], {1}),
            ("the steeper of two near neighbours", [(0.1, 0.0, 99.9), (0.0, 0.3, 99.85)], {0}),
            ("the steeper of two cliffs", [(1.0, 0.0, -4000.0), (0.0, 1.0, -9000.0), (3.0, 3.0, 50.0)], {1}),
            ("the steeper of two distant neighbours", [(3e4, 0.0, 99.0), (0.0, 2e4, 99.0)], {1}),
            ("cells where no neighbour has an elevation", [(1.0, 0.0, NAN), None], set()),
            ("every neighbour level within the threshold", [(1.0, 0.0, lo), (3.0, 1.0, hi), (2.0, 0.0, 100.0)], {0, 1, 2}),
            ("every neighbour that is equally steep", [(1.0, 0.0, 99.0), (2.0, 0.0, 98.0), (0.0, 3.0, 99.0)], {0, 1})] + (
                # only where the sums are exact
                [("the neighbour rising gently and not the one rising by the threshold", [(1.0, 0.0, 100.0 + thr), (4.0, 0.0, 100.0 + 1.5 * thr)], {1})] if thr == 0.5 else [])


def around(I, st, hood, thr):
    q = {("z", 3): 100.0, ("x", 3): 40.0, ("y", 3): 70.0, ("z", 20): 1e10, ("x", 20): 46.1, ("y", 20): 77.7}
    nbs = []
    for i, nb in enumerate(hood):
        if nb is None:
            nbs.append(20)
            continue
        c = (8, 0, 11, 2)[i]
        nbs.append(c)
        q[("z", c)], q[("x", c)], q[("y", c)] = nb[2], 40.0 + nb[0], 70.0 + nb[1]
    return Around(I, st, q, nbs, {"burn": thr})


def c83_units(tier):
    return [(k,) for k in KINDS]


def c83(prog, unit, tier, r):
    kind, = unit
    rule = "a cell drains to the neighbour with the steepest downward slope"
    t = Tour(prog, kind)
    S, I = t.S, t.S.I
    f = t.make_fd()
    picks = {}          # term of a neighbour looked up -> (row, masks)
    stores = []
    reads = {}          # list of candidates -> positions it was read at

    def on_index(I, st, node, fr, l, h, idx, isstore):
        if isstore or not isinstance(h, Arr) or not isinstance(idx, (list, tuple)) or any(not isinstance(x, AV) or x.term is None for x in idx):
            return
        b = st.heap.get(h.buf)
        if b is None or b.elem is None or "grid:neigh" not in b.elem.deps:
            return
        at = [x.term for x in idx]
        if len(at) == 1 and type(h.view) is T and TT.node[h.view][0] == "row" and TT.node[h.view][1] is None:
            at = [TT.node[h.view][2]] + at
        if len(at) == 2:
            picks[(h.buf, at[0], at[1])] = frozenset(m for k, ms in idx[-1].tags if k == "where" for m in ms)

    def on_store(I, st, node, fr, b, bo, arr, idx, v, how, field):
        if how == "slice" or v.term is None or TT.node[v.term][0] != "el":
            return
        n = rowcol(v.term)
        if n in picks:
            stores.append((node._nid if node is not None else 0, st.copy(), idx, n, picks[n]))

    def on_read(I, st, node, fr, l, h, k):
        for x in list(h.items) + [h.rest] if k.term is not None else ():
            for i in x.refs if x is not None else ():
                reads.setdefault(i, set()).add(k.term)

    S.hook("seqread", on_read)
    S.hook("index", on_index)
    S.hook("store", on_store)
    for op in fdir_ops(kind):
        base = t.save()
        picks.clear()
        reads.clear()
        del stores[:]
        s = t.do(f, op)
        t.restore(base)
        if halted(prog, r, rule, s, op[0]):
            continue
        if not stores:
            r.unknown(f"{kind} {op[0]}", "no neighbour is stored as the cell drained to")
        for nid, st, idx, v, masks in stores:
            steep(prog, r, rule, I, kind, op, s, nid, st, idx, v, masks, reads)
        for l in sorted({prog.nodes[x[0]]._loops[0] for x in stores if x[0] and prog.nodes[x[0]]._loops}):
            ob = f"{kind} {op[0]}: every cell"
            if not any(TT.node[x][0] in ("it", "iti") and l in TT.node[x if TT.node[x][0] == "it" else TT.node[x][1]] for y in stores for x in [y[3][1]]):
                r.unknown(ob, "not a loop over cells")
                continue
            cut = early(prog, I, l, s.out.entry.facts)
            if cut is None:
                r.good(ob)
            elif cut[1]:
                r.bad(prog, rule, cut[0], "the cells after one of them get no direction: the loop over them ends", hist(s), extra="end")
            else:
                r.unknown(ob, "the end of the loop over cells is not understood")
    r.count("operations", len(t.steps))


def rowcol(t):
    """Storage, row and column of an element of a table."""
    n = TT.node[t]
    if n[0] != "el" or len(n) not in (5, 6):
        return None
    if len(n) == 6:
        return n[1], n[4], n[5]
    v = TT.node[n[3]] if type(n[3]) is T else ("",)
    return (n[1], v[2], n[4]) if v[0] == "row" and v[1] is None else None


def place(idx):
    x = idx[0] if isinstance(idx, (list, tuple)) and len(idx) == 1 else idx
    return x.term if isinstance(x, AV) else None


def steep(prog, r, rule, I, kind, op, s, nid, st, idx, v, masks, reads):
    _, row, col = v
    fl, _, ln = prog.where(nid)
    ob = f"{kind} {op[0]}: stored at {fl}:{ln}"
    at = place(idx)
    if at is None:
        r.unknown(ob, "position not resolved")
    elif at == row:
        r.good(ob + ", in the cell's own row")
    elif all(TT.node[x][0] in ("it", "iti") for x in (at, row)) and not any(a[0] == "eq" and {at, row} <= set(a[1:]) for a in st.facts):
        r.bad(prog, rule, nid, "a cell drains to a neighbour of another cell", hist(s), extra="row")
    elif TT.node[row][0] == "c" or any(a[0] == "eq" and a[1] == row and TT.node[a[2]][0] == "c" for a in st.facts if len(a) == 3 and type(a[2]) is T):
        r.bad(prog, rule, nid, "a cell drains to a neighbour of a fixed cell", hist(s), extra="row")
    else:
        r.unknown(ob, "whose neighbour it is was not derived")
    col = TT.node[col]
    for k in reads.get(col[1], ()) if col[0] in ("sq", "sqm") else ():
        m = TT.node[k]
        if m[0] in ("+", "-") and row in m[1:] and any(TT.node[x][0] == "c" and TT.node[x][2] for x in m[1:] if type(x) is T):
            r.bad(prog, rule, nid, "the candidates of another cell are used", hist(s), extra="row")
    if not masks:
        return r.unknown(ob, "how the neighbour was selected is not known")
    thr = 0.5 if op[0].endswith("burn") else 1e-6
    for name, hood, want in hoods(thr):
        W = around(I, st, hood, thr)
        got = set()
        try:
            for W.k in range(len(hood)):
                if all(truthy(W.ev(m)) for m in masks):
                    got.add(W.k)
        except Unsure:
            return r.unknown(ob, "how the neighbour is selected was not understood")
        except (TypeError, ArithmeticError, IndexError):
            return r.unknown(ob, "how the neighbour is selected was not evaluated")
        if len(W.rows) > 1:
            return r.unknown(ob, "rows of several cells are compared")
        if got != want:
            return r.bad(prog, rule, nid, f"the candidates are not {name}", hist(s), extra="choice")
        r.good(f"{ob}: {name}")
