"""Rule on the cells that drain to themselves: the stores into the flow
direction array, in the order they happen, read for a representative grid."""
from .av import *
from .tour import *
from .rules_base import halted, hist, method_nid, KINDS
from .rules_num import subterms
from .rules_term import Unsure, NAN, elem_term
from .rules_casc import Whole, lift

ROWS, COLS = 4, 5
NCELL = ROWS * COLS
DEM = [6.0, 5.0, 4.0, 7.0, NAN, 5.5, 2.0, 3.0, 8.0, 9.0, 4.5, 2.0, 3.5, 6.5, 7.5, 9.5, NAN, 8.5, 5.25, 2.5]
LOWEST = {True: {6}, False: {6, 11}}
NEAR = [[j for j in range(NCELL) if j != i and abs(j // COLS - i // COLS) <= 1 and abs(j % COLS - i % COLS) <= 1] for i in range(NCELL)]
TERMINAL = ((0, (0, 0)), (8, (1, 3)), (15, (3, 0)), (3, (0, 3)))
ERR = (Unsure, TypeError, ArithmeticError, LookupError, ValueError)


class Fixed(Whole):
    """The grid at hand; what the direction array holds is given."""

    def __init__(self, I, st, base, sizes, target, held):
        Whole.__init__(self, I, st, base, sizes, {})
        self.target, self.now = target, held

    def leaf(self, t):
        n = TT.node[t]
        if n[0] == "elt" and n[1] == self.target:
            return self.now
        return Whole.leaf(self, t)

    def contents(self, l, ver):
        return self.now if l == self.target else Whole.contents(self, l, ver)

    def ev1(self, t):
        n = TT.node[t]
        if n[0] == "nodeof":
            return self.ev(n[1]) * COLS + self.ev(n[2])
        return Whole.ev1(self, t)

    def reduced(self, name, x):
        if name in ("argmin", "nanargmin") and isinstance(x, list):
            if name == "argmin" and any(y != y for y in x):
                return next(i for i, y in enumerate(x) if y != y)
            return x.index(min(y for y in x if y == y))
        return Whole.reduced(self, name, x)

    def fact(self, a):
        if a[0] in ("isa", "nota", "rng"):
            return True
        return Whole.fact(self, a)

    def writes(self, site, entry):
        """(position, value) of everything stored at a site, in order."""
        st, idx, v = site
        if len(idx) != 1:
            raise Unsure
        self.st = st
        facts = [a for a in st.facts - entry if a[0] != "rng"]
        if any(a[0] == "?" for a in facts):
            raise Unsure
        its = self.nest([b for x in self.inside(st, idx[0]) + self.inside(st, v) + [y for a in facts for y in a[1:] if type(y) is T] for b in self.bases(x)])
        out = []
        if any(self.I.exits.get(TT.node[b][1]) for b in its[1:]):
            raise Unsure
        for _ in self.over(its):
            self.st = st
            if self.holds(facts):
                out += self.stored(idx[0], v)
            if its and self.left(its):
                break
        return out

    def stored(self, idx, v):
        i, x = self.value(idx), self.value(v)
        out = []
        if isinstance(i, list) and i and isinstance(i[0], bool):
            i = [k for k, y in enumerate(i) if y]
        for k, p in enumerate(i if isinstance(i, list) else [i]):
            y = x[k] if isinstance(x, list) else x
            if isinstance(p, bool) or not isinstance(p, int) or isinstance(y, bool) or not isinstance(y, (int, float)):
                raise Unsure
            out.append((p % NCELL, y))
        return out


def given(t, kind):
    """A list of terminal cells with known members."""
    def cells(i):
        return i.get("tcells", lambda l: i.S.seq(l, "list", [i.S.number(f"t{k}", "int", 0.0, tags=frozenset({("node", 0)})) for k in range(len(TERMINAL))]))

    def rowcols(i):
        def mk_(l):
            ps = [i.S.seq(f"{l}.{k}", "tuple", (i.S.number(f"r{k}", "int", 0.0, tags=frozenset({("row", 0)})), i.S.number(f"c{k}", "int", 0.0, tags=frozenset({("col", 0)}))),
                          bind=False, owner="in:" + l) for k in range(len(TERMINAL))]
            return i.S.seq(l, "list", ps)
        return i.get("trowcols", mk_)
    ops = [("flow_directions", "flow_directions", lambda i: {}, set()),
           ("flow_directions:burn", "flow_directions", lambda i: dict(burn_threshold=i.num("burn", lo=0.0)), set()),
           ("flow_directions:terminal", "flow_directions", lambda i: dict(terminal_cells=cells(i)), {c for c, _ in TERMINAL})]
    if kind == "structured":
        ops.append(("flow_directions:terminalrc", "flow_directions", lambda i: dict(terminal_cells=rowcols(i)), {c for c, _ in TERMINAL}))
    return ops


def c11_units(tier):
    return [(k, c) for k in KINDS for c in (True, False)]


def c11(prog, unit, tier, r):
    kind, check = unit
    rule = "outlets, terminal cells and cells without an elevation drain to themselves"
    t = Tour(prog, kind)
    S, I = t.S, t.S.I
    f = t.make_fd(check=cst(check))
    log = []

    def on_store(I, st, node, fr, b, bo, arr, idx, v, how, field):
        log.append((b, node._nid if node is not None else 0, fr.ctx, st.copy(), idx if isinstance(idx, (list, tuple)) else [idx], v, how, arr))

    S.hook("store", on_store)
    dem = DEM if not check else [x if i != 11 else 2.25 for i, x in enumerate(DEM)]
    base = {"dem": dem + [1e10], "burn": 0.01, "neighbors": [x + [NCELL] * (8 - len(x)) for x in NEAR]}
    for k, (c, (i, j)) in enumerate(TERMINAL):
        base[f"t{k}"], base[f"r{k}"], base[f"c{k}"] = c, i, j
    sizes = {"R": ROWS, "C": COLS, "N": NCELL, "L": 1, "": NCELL}
    hists = [()]
    for op in given(t, kind):
        if f is None:
            return r.unknown("FlowDirections", "does not return")
        keep = t.save()
        del log[:]
        s = t.do(f, op[:3])
        t.restore(keep)
        name = f"{kind} {op[0]}{'' if check else ', several lowest cells allowed'}"
        if halted(prog, r, rule, s, name):
            continue
        settled(prog, r, rule, I, kind, s, log, base, sizes, LOWEST[check], op[3], {i for i, x in enumerate(dem) if x != x}, name)
    r.count("operations", len(t.steps))


def settled(prog, r, rule, I, kind, s, log, base, sizes, lowest, terminal, blank, name):
    entry = s.out.entry.facts
    # the array returned is made from the one that gets neighbours
    flow = [e[0] for e in log if e[5].term is not None and TT.node[e[5].term][0] == "el" and "grid:neigh" in e[5].deps]
    if not flow:
        return r.unknown(name, "no neighbour is stored as the cell drained to")
    b = flow[0]
    st = s.out.state
    if not any(isinstance(st.heap.get(l), Arr) and st.heap[l].buf == b for o in s.obj.refs for _, v in st.heap[o].fields for l in v.refs):
        return r.unknown(name, "the array kept is not the one the directions are put into")
    sites, order = {}, []
    for x, nid, ctx, st, idx, v, how, arr in log:
        if x != b:
            continue
        k = (nid, ctx)
        if k in sites:
            order.remove(k)
        order.append(k)
        sites[k] = (st, idx, v) if how in ("index", "mask") and getattr(st.heap.get(arr), "view", 0) is None else None
    W = Fixed(I, s.out.state, base, sizes, b, None)

    def run(k, now):
        W.now = now
        W.memo.clear()
        W.done.clear()
        if sites[k] is None:
            return None
        try:
            return W.writes(sites[k], entry)
        except ERR:
            return None
    other = [(c + 7) % NCELL for c in range(NCELL)]
    last, tail, vague = None, [], False
    for k in reversed(order):
        w = run(k, other)
        if w is None and (own(sites[k]) or sites[k] is not None and any(x.refs for x in sites[k][1])):
            vague = True
            continue
        if w is None or not own(sites[k]) and cell_loop(I, sites[k]):
            last = k
            break
        tail.insert(0, k)
    final, now = {}, list(other)
    for k in tail:
        for p, y in run(k, list(now)) or ():
            final[p], now[p] = (y, k), y
    for what, cells in (("cell of lowest elevation", lowest), ("terminal cell", terminal)):
        for c in sorted(cells):
            ob = f"{name}: {what} {c}"
            if c in final and final[c][0] == c:
                r.good(ob)
            elif c in final and not vague:
                r.bad(prog, rule, final[c][1][0], f"a {what} is made to drain to another cell", hist(s), extra=what)
                break
            elif last is None or vague:
                r.unknown(ob, "stores not understood")
            elif spared(I, sites[last], entry, b):
                r.unknown(ob, "may be left out where flats are resolved")
            else:
                r.bad(prog, rule, last[0], f"a {what} can be given the direction found here for flats, and nothing makes it drain to itself afterwards", hist(s), extra=what)
                break
    # cells without an elevation
    start = [-1] * NCELL
    mine, cells = {}, {}
    for k in order:
        if sites[k] is None or not cell_loop(I, sites[k]):
            continue
        cells[k] = sites[k]
    got, undone = set(), None
    for k in order:
        w = run(k, start)
        if w is not None:
            mine[k] = w
            for p, y in w:
                if p in blank:
                    undone = k if y != p else undone
                    (got.add if y == p else got.discard)(p)
    ob = f"{name}: cells without an elevation"
    wrong = [k for k, x in cells.items() if not own(x) and x[2].const is not None and meant(x, entry)]
    loose = [k for k, x in cells.items() if not own(x) and not shut(W, x, entry, blank)]
    if wrong and not any(a[0] == "?" for a in sites[wrong[0]][0].facts - entry):
        r.bad(prog, rule, wrong[0][0], "a cell without an elevation does not get its own number", hist(s), extra="nan")
    elif loose:
        known = [k for k in loose if not any(a[0] == "?" for a in sites[k][0].facts - entry)]
        if got >= blank and any(set(prog.nodes[k[0]]._loops) != set(prog.nodes[loose[0][0]]._loops) for k, w in mine.items() if blank & {p for p, _ in w}):
            r.unknown(ob, "may be kept by what is stored before")
        elif known and len(loose) == sum(not own(x) for x in cells.values()):
            r.bad(prog, rule, known[0][0], "a cell without an elevation is given a direction like any other", hist(s), extra="nan")
        else:
            r.unknown(ob, "may be given another direction")
    elif got >= blank:
        r.good(ob)
    elif all(k in mine for k in order if sites[k] is None or own(sites[k])):
        at = [k for k in order if k in mine and own(sites[k])] or [k for k in order if sites[k] is not None]
        r.bad(prog, rule, (undone or at[0])[0], "a cell without an elevation does not get its own number", hist(s), extra="nan")
    else:
        r.unknown(ob, "stores not understood")


def own(site):
    """Is the cell's own number stored?"""
    if site is None:
        return False
    st, idx, v = site
    if len(idx) != 1 or v.term is None:
        return False
    n = TT.node[v.term]
    return v.term == idx[0].term or n[0] == "elt" and any(isinstance(st.heap.get(l), Arr) and st.heap[l].buf == n[1] and st.heap[l].view is None for l in idx[0].refs)


def cell_loop(I, site):
    """Does the position run over all cells?"""
    st, idx, v = site
    x = idx[0].term if len(idx) == 1 else None
    if x is None or TT.node[x][0] not in ("it", "iti"):
        return False
    base = x if TT.node[x][0] == "it" else TT.node[x][1]
    v = I.iterof.get(base, (None,))[0]
    how = {st.heap[l].info[0] if isinstance(st.heap.get(l), Ext) and st.heap[l].kind == "iter" else "" for l in v.refs} if isinstance(v, AV) else set()
    if TT.node[x][0] == "it":
        return how == {"range"}
    return how == {"enumerate"} and TT.node[x][2] == 1 or TT.node[x][2] == 99


def shut(W, site, entry, blank):
    """Is nothing stored here for cells without an elevation?"""
    st, idx, v = site
    W.st, W.now = st, None
    for c in blank:
        W.picks = {idx[0].term: c}
        W.memo.clear()
        try:
            for a in st.facts - entry:
                try:
                    if idx[0].term in {y for x in a[1:] if type(x) is T for y in subterms(x)} and not W.fact(a):
                        break
                except ERR:
                    continue
            else:
                return False
        finally:
            W.picks = {}
    return True


def meant(site, entry):
    """Is something stored here for cells without an elevation only?"""
    st, idx, v = site
    return any(a[0] == "nan" and TT.node[a[1]][0] == "el" and TT.node[a[1]][-1] == idx[0].term for a in st.facts - entry)


def spared(I, site, entry, b):
    """Can the cells stored to be fewer than all there are?"""
    if site is None or len(site[1]) != 1 or site[1][0].term is None:
        return True
    st, idx, v = site
    i = idx[0].term
    for a in st.facts - entry:
        if a[0] in ("in", "nin", "?") or any(type(x) is T and TT.node[y][0] in ("memb", "inset", "phi") and i in subterms(y) for x in a[1:] if type(x) is T for y in subterms(x)):
            return True
        if any(type(x) is T and i in subterms(x) for x in a[1:]) and a[0] in ("eq", "ne", "t", "f"):
            return True
    return False
