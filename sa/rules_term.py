"""Rules that read a result as a closed formula over inputs: what a cell of the
result is, decided by cases on the order of the quantities it is made from."""
import ast
from .tour import *
from .av import TT, T, mk
from .rules_base import halted, opname, hist, method_nid
from .rules_value import leaves, named
from .rules_num import Order, position, subterms

NAN = float("nan")


class Unsure(Exception):
    pass


def cases(t, env):
    """Value of an elementwise formula when its leaves have the order given by
    env (leaf term -> representative); Unsure if anything else is involved."""
    if t in env:
        return env[t]
    n = TT.node[t]
    k = n[0]
    if k == "c":
        if n[1] in ("int", "float", "bool"):
            return NAN if n[2] == "nan" else n[2]
        raise Unsure
    if k == "ite":
        return cases(n[2], env) if truthy(cases(n[1], env)) else cases(n[3], env)
    if k in ("lt", "le", "eq", "ne"):
        a, b = cases(n[1], env), cases(n[2], env)
        return {"lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b}[k]
    if k == "not":
        return not truthy(cases(n[1], env))
    if k == "truthy":
        return truthy(cases(n[1], env))
    if k in ("and", "or", "max", "min", "*"):
        xs = [cases(x, env) for x in n[1:] if type(x) is T]
        if k in ("and", "or"):
            return (all if k == "and" else any)(truthy(x) for x in xs)
        if k == "*":
            if all(isinstance(x, (bool, int)) and x in (0, 1) for x in xs):
                return int(all(xs))
            raise Unsure
        return (max if k == "max" else min)(xs)
    if k == "isnan":
        x = cases(n[1], env)
        return x != x
    if k in ("castint", "castbool", "castfloat"):
        x = cases(n[1], env)
        return truthy(x) if k == "castbool" else x
    raise Unsure


def truthy(x):
    return bool(x) or x != x


def elem_term(I, st, v):
    """Term of the elements of a result array, if they are all alike."""
    out = {x.term for _, x in named(I, st, v)}
    return next(iter(out)) if len(out) == 1 else None


# ------------------------------------------------------------------ C16
def c16_units(tier):
    return [(k, c, a) for k in KINDS for c in STREAMS for a in (False, True)]


def c16(prog, unit, tier, r):
    kind, cls, ascells = unit
    t = Tour(prog, kind)
    S = t.S
    I = S.I
    rule = "streams are the cells inside the boundary whose accumulation reaches the threshold"
    f = t.make_fd()
    t.do(f, fdir_ops(kind)[0])
    s = t.do(f, facc_ops()[1 if ascells else 0])
    if not s.out.returns:
        return r.unknown("flow accumulation", "does not return")
    facc = elem_term(I, s.out.state, s.out.value)
    o = t.make_streams(cls)
    base = t.save()
    outs = []

    def where(s):
        return method_nid(prog, s) or s.node

    for op in arr_ops(cls):
        t.restore(base)
        if op[1] == "set_stream_array":
            s1 = t.do(o, op)
            s2 = t.prop(o, "stream_array")
            ob = f"{kind} {cls}: stream array set by the user"
            if halted(prog, r, rule, s1, ob) or halted(prog, r, rule, s2, ob):
                continue
            x = elem_term(I, s2.out.state, s2.out.value) if s2.out.returns else None
            if x is not None and TT.node[x] == ("input", "setstrm"):
                r.good(ob)
            elif x is not None and only_inputs(x):
                r.bad(prog, rule, where(s2), "the stream array returned is not the one that was set", hist(s2), extra="set")
            else:
                r.unknown(ob, "contents not resolved")
            continue
        s = t.do(o, op)
        if halted(prog, r, rule, s, f"{op[0]}"):
            continue
        got = [("result", s)]
        s2 = t.prop(o, "stream_array", (op[0],))
        if s2.out.returns:
            got.append(("stored", s2))
        for tag, q in got:
            x = elem_term(I, q.out.state, q.out.value)
            judge(prog, r, rule, I, x, facc, op[0], f"{kind} {cls} {op[0]} {tag}", q, where(s))

    # thresholds from control points
    log = {}

    def on_store(I, st, node, fr, b, bo, arr, idx, v, how, field):
        if bo.owner is not None or bo.fields or how == "slice":
            return
        log.setdefault(b, []).append((node._nid if node is not None else 0, st.copy(), idx, v, bo))
    pops, puts, open_ = {}, {}, set()

    def on_pop(I, st, node, fr, l, h, i):
        pops.setdefault((node._nid, fr.ctx), set()).add(l)

    def on_push(I, st, node, fr, l, h, v, place):
        puts.setdefault(l, {})[node._nid, fr.ctx] = (v, st.facts)

    def on_pushall(I, st, node, fr, l, h, v):
        if v.refs and all(type(st.heap.get(k)) is Seq and puts.get(k) for k in v.refs):
            alls.setdefault(l, {})[node._nid, fr.ctx] = (v.refs, st.facts)
        else:
            open_.add(l)
    alls = {}
    t.restore(base)
    t.do(o, arr_ops(cls)[0])
    s = t.prop(f, "flow_direction_array")
    fdir = elem_term(I, s.out.state, s.out.value) if s.out.returns else None
    S.hook("store", on_store)
    S.hook("pop", on_pop)
    S.hook("push", on_push)
    S.hook("pushall", on_pushall)
    for op in strm_ops(cls, kind):
        if op[1] != "threshold_from_control_points":
            continue
        a = t.save()
        log.clear(), pops.clear(), puts.clear(), open_.clear(), alls.clear()
        s = t.do(o, op)
        t.restore(a)
        if not s.out.returns:
            continue
        st = s.out.state
        mine = {b for l in s.out.value.refs for b in (bufs_of(st.heap[l]) if isinstance(st.heap.get(l), Arr) else ())}
        for b in mine & set(log):
            for nid, st1, idx, v, bo in log[b]:
                ob = f"{kind} {cls} {op[0]}: threshold stored at {prog.where(nid)[0]}:{prog.where(nid)[2]}"
                it, _ = position(I, st1, idx)
                acc = [x for x in (subterms(v.term) if v.term is not None else ()) if TT.node[x][0] == "el" and TT.node[x][1] != b]
                if it is not None and len(acc) == 1 and facc is not None and acc[0] == mk("el", *TT.node[acc[0]][1:4], it) and TT.node[facc][0] == "elt" and TT.node[acc[0]][1:3] == TT.node[facc][1:3]:
                    k = lowered(v.term, acc[0], b)
                    if k is not None:
                        if k[0]:
                            r.good(ob)
                        else:
                            r.bad(prog, rule, nid, f"a mapped cell gets a threshold above its own accumulation and never becomes a stream ({k[1]})", hist(s))
                        continue
                if it is None or len(acc) != 1 or facc is None or TT.node[facc][0] != "elt" or TT.node[acc[0]][1:3] != TT.node[facc][1:3]:
                    r.unknown(ob, "value not understood")
                    continue
                here = mk("el", *TT.node[acc[0]][1:4], it)
                od = Order(I, st1)
                if acc[0] == here and od.ge(here, v.term):
                    r.good(ob)
                elif acc[0] != here and not any(a[0] == "eq" for a in st1.facts) and TT.node[TT.node[acc[0]][4]][0] in ("it", "pop", "sq"):
                    r.bad(prog, rule, nid, "a mapped cell gets a threshold taken from another cell's accumulation", hist(s))
                elif acc[0] == here and TT.node[v.term][0] == "max" and any(TT.node[x][0] == "input" for x in TT.node[v.term][1:] if type(x) is T):
                    r.bad(prog, rule, nid, "a mapped cell gets a threshold that can lie above its own accumulation", hist(s))
                elif acc[0] == here and od.ge(v.term, here) and v.term != here:
                    r.bad(prog, rule, nid, "a mapped cell gets a threshold above its own accumulation and never becomes a stream", hist(s))
                else:
                    r.unknown(ob, "order not derived")
        sites = {nid for b in mine & set(log) for nid, *_ in log[b] if nid}
        for l in sorted({prog.nodes[x]._loops[0] for x in sites if prog.nodes[x]._loops}):
            ob = f"{kind} {cls} {op[0]}: every control point is mapped"
            cut = early(prog, I, l, s.out.entry.facts)
            if cut is None:
                r.good(ob)
            elif cut[1]:
                r.bad(prog, rule, cut[0], "the control points after one of them are left out: the loop over them ends", hist(s))
            else:
                r.unknown(ob, "the end of the loop over control points is not understood")
        if not mine & set(log):
            x = elem_term(I, st, s.out.value)
            if x is not None and (TT.node[x][0] == "c" or only_inputs(x)) and all(not st.heap[b].multi for b in mine):
                r.bad(prog, rule, where(s), "no cell upstream of a control point gets a threshold of its own", hist(s), extra="mapped")
            else:
                r.unknown(f"{kind} {cls} {op[0]}", "no store into the result")
            continue
        ob = f"{kind} {cls} {op[0]}: cells mapped"
        idx = [x for b in mine & set(log) for _, _, i, _, _ in log[b] for x in i]
        if op[0] == op[1] and "threshold" not in s.out.value.deps | I.deepdeps(st, s.out.value):
            r.bad(prog, rule, where(s), "the threshold given for the cells that are not mapped is not used", hist(s), extra="others")
        if all("dem" not in x.deps | I.deepdeps(st, x) for x in idx):
            r.bad(prog, rule, where(s), "none but the control points' own cells get a threshold: the flow directions do not matter", hist(s), extra="mapped")
            continue
        todo, seen, odd, every, first = [(x.term, frozenset(), ()) for x in idx if x.term is not None], set(), None, None, None
        while todo:
            x, fs, hops = todo.pop()
            if (x, fs, hops) in seen:
                continue
            seen.add((x, fs, hops))
            if len(seen) > 500:
                r.unknown(ob, "too many ways a cell is mapped")
                break
            n = TT.node[x]
            if n[0] == "it" and x in I.iterof and I.iterof[x][0].refs and all(l[0] == "gridneigh" for l in I.iterof[x][0].refs):
                said = [f for f in fs if f[0] == "?" or f[0] not in ("nan", "nn") and any(type(z) is T and x in subterms(z) and TT.node[z][0] != "isnan" for z in f[1:])]
                if fdir is not None and TT.node[fdir][0] == "elt" and all(
                        (f[0] == "ne" or f[0] == "f" and TT.node[f[1]][0] == "eq" or f[0] == "t" and TT.node[f[1]][0] == "ne")
                        and any(TT.node[y][0] == "el" and TT.node[y][1] == TT.node[fdir][1] for z in f[1:] for y in subterms(z)) for f in said):
                    odd = n[1]
                elif hops and {TT.node[h][0] for h in hops} <= {"pop", "it"} and not any(h in subterms(z) for h in hops if TT.node[h][0] == "it" for f in fs if f[0] not in ("nan", "nn") for z in f[1:] if type(z) is T) \
                        and fdir is not None and TT.node[fdir][0] == "elt" and said and not any(f[0] == "?" for f in fs) and all(any(
                        TT.node[y][0] == "el" and TT.node[y][1] == TT.node[fdir][1] for z in f[1:] for y in subterms(z)) for f in said):
                    every = n[1]
                continue
            cut = part(I, x, n)
            if cut:
                r.bad(prog, rule, n[1], f"{cut} of the neighbours of a mapped cell are looked at for the cells draining into it", hist(s), extra="some")
                continue
            how = largest(I, x, n, puts, open_, facc, fdir)
            if how is False:
                r.bad(prog, rule, where(s), "the cell followed upstream is the one with the smallest accumulation", hist(s), extra="smallest")
            if how == "fdir" and fdir is not None:
                r.bad(prog, rule, where(s), "the cell followed upstream is chosen by the numbers of the cells it drains to, not by its accumulation", hist(s), extra="chosen")
            if n[0] == "sq" and type(n[3]) is T and TT.node[n[3]][:2] == ("c", "int") and n[1] not in open_ and I.seqof.get(n[1], (None, None))[1] is None \
                    and type(n[2]) is T and TT.node[n[2]][0] == "phiv" and any(prog.nodes[k[0]]._loops and prog.nodes[k[0]]._loops[-1] == TT.node[n[2]][1][1] for k in puts.get(n[1], {})):
                first = n[1]
            src = pops.get(n[1:3], set()) if n[0] == "pop" else {n[1]} if n[0] == "sq" else I.iterof[x][0].refs if n[0] == "it" and x in I.iterof else set()
            src = set(src) - open_
            if src & set(alls):
                # the entries of the lists added as a whole, under the conditions they are added in
                for l in src & set(alls):
                    for ls, ff in alls[l].values():
                        for k in ls - open_:
                            todo += [(v.term, fs | ff | f2, (hops + (x,))[-6:]) for v, f2 in puts.get(k, {}).values() if v.term is not None]
            for l in src:
                if first == l and facc is not None and TT.node[facc][0] == "elt" and puts.get(l) and all(
                        v.term is not None and TT.node[v.term][0] == "it" and v.term in I.iterof and I.iterof[v.term][0].refs and all(k[0] == "gridneigh" for k in I.iterof[v.term][0].refs)
                        and not any(TT.node[y][0] == "el" and TT.node[y][1] == TT.node[facc][1] for f in ff if f[0] not in ("nan", "nn") for z in f[1:] for y in subterms(z) if TT.node[z][0] != "isnan")
                        and not any(f[0] == "?" for f in ff) for v, ff in puts[l].values()):
                    r.bad(prog, rule, where(s), "the cell followed upstream is the one that comes first among those draining in, whatever its accumulation", hist(s), extra="first")
                todo += [(v.term, fs | ff, (hops + (x,))[-6:]) for v, ff in puts.get(l, {}).values() if v.term is not None]
        if odd is not None:
            r.bad(prog, rule, odd, "every neighbour of a mapped cell is followed, whether or not it drains into that cell", hist(s), extra="upstream")
        elif every is not None:
            r.bad(prog, rule, every, "every cell draining into a mapped cell is followed, not the one with the largest accumulation", hist(s), extra="every")
        else:
            r.good(ob)
    r.count("operations", len(t.steps))


def part(I, x, n):
    """Does a loop go over some of a cell's neighbours only, whichever drain into it?"""
    if n[0] != "it" or x not in I.iterof:
        return None
    ls = I.iterof[x][0].refs
    if not ls or not all(l in I.slfrom and I.slfrom[l] and all(k[0] == "gridneigh" for k in I.slfrom[l]) for l in ls):
        return None
    for l in ls:
        lo, hi, step = I.slinfo[l][2]
        if "?" in (lo, hi, step):
            return None
        if step not in (None, 1, -1):
            return "only some"
        if step == -1 and (lo not in (None, -1) or hi is not None):
            return "only some"
        if step != -1 and (lo not in (None, 0) or hi is not None):
            return "only some"
    return None


def largest(I, x, n, puts, open_, facc, fdir):
    """Is the entry taken from a list the one with the largest accumulation? None if that is not known."""
    if n[0] != "sq" or len(n) < 4 or type(n[3]) is not T or n[1] in open_ or facc is None or TT.node[facc][0] != "elt":
        return None
    i = TT.node[n[3]]
    if i[0] != "red" or i[1] not in ("argmax", "argmin", "nanargmax", "nanargmin") or TT.node[i[2]][0] != "elt" or TT.node[i[2]][1] in open_:
        return None
    mine = puts.get(n[1], {}).values()
    vals = puts.get(TT.node[i[2]][1], {}).values()
    got = {v.term for v, _ in mine}
    for v, _ in vals:
        a = TT.node[v.term] if v.term is not None else ("?",)
        if len(vals) == 1 and a[0] == "el" and fdir is not None and TT.node[fdir][0] == "elt" and a[1:3] == TT.node[fdir][1:3] and a[4] in got:
            return "fdir"
        if a[0] != "el" or a[1:3] != TT.node[facc][1:3] or a[3] is not None or a[4] not in got:
            return None
    return "max" in i[1] if vals else None


def figure(t, env):
    """A number computed from the numbers in env; None if anything else is used."""
    if t in env:
        return env[t]
    n = TT.node[t]
    if n[0] == "c" and n[1] in ("int", "float", "bool"):
        return NAN if n[2] == "nan" else n[2]
    f = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "neg": lambda a: -a, "abs": abs,
         "//": lambda a, b: a // b, "max": max, "min": min, "floor": math.floor, "ceil": math.ceil, "castint": int, "castfloat": float, "sqrt": lambda a: a ** .5,
         "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "not": lambda a: not a,
         "truthy": truthy, "isnan": lambda a: a != a, "ite": lambda c, a, b: a if truthy(c) else b}.get(n[0])
    a = [figure(x, env) for x in n[1:] if type(x) is T]
    if f is None or any(x is None for x in a):
        return None
    try:
        x = f(*a)
        return None if isinstance(x, complex) else x
    except (ArithmeticError, TypeError, ValueError):
        return None


def lowered(t, acc, b):
    """Does a threshold computed for a cell stay at or below its accumulation?"""
    old = {x for x in subterms(t) if TT.node[x][0] == "el" and TT.node[x][1] == b or TT.node[x] == ("input", "threshold")}
    for a in (1e-3, 0.5, 1.0, 3.0, 9.0, 120.0, 1e4, 3e6, 1e9):
        for h in (0.0, 50.0, 1e6):
            env = {x: h for x in old}
            env[acc] = a
            got = figure(t, env)
            if got is None or isinstance(got, bool):
                return None
            if not got <= a:
                return False, f"{got:g} for an accumulation of {a:g}" + (f" and a threshold of {h:g} elsewhere" if old else "")
            if not old:
                break
    return True, ""


def early(prog, I, l, known=E):
    """A statement that ends a loop over given things before the last of them:
    (statement, is it surely one); None if there is none."""
    if not isinstance(prog.nodes.get(l), ast.For):
        return None
    for (b, _), st in sorted(I.exits.get(l, {}).items()):
        n = prog.nodes[b]
        own = not [x for x in n._loops if x != l and l in prog.nodes[x]._loops] or isinstance(n, ast.Return)
        if not own:
            continue
        vague = any(type(x) is T and any(TT.node[y][0] in ("len", "size", "phi", "v") for y in subterms(x)) for a in st.facts - known for x in a[1:])
        return b, not vague
    return None


def reordered(view):
    """Does the view put other elements at a position (same number of them)?"""
    if type(view) is not T:
        return False
    n = TT.node[view]
    if n[0] in ("T", "F", "flip", "transpose"):
        return True
    if n[0] == "slv" and type(n[3]) is T and TT.node[n[3]][0] == "sl":
        s = TT.node[TT.node[n[3]][3]]
        return s[0] == "c" and s[1] == "int" and s[2] < 0
    return False


SCALARS = {("input", "contrib")}


def reorders(x):
    """How many changes of cell order lie between the leaves and the result."""
    n = TT.node[x]
    if n[0] in ("elt", "input", "arange"):
        return set() if n in SCALARS else {0}
    if n[0] == "sel":
        return {k + int(reordered(n[2])) for k in reorders(n[1])}
    return set().union(*[reorders(c) for c in n[1:] if type(c) is T])


def shuffled(x):
    """A leaf read in another cell order than the leaves it is combined with."""
    n = TT.node[x]
    if n[0] in ("sel", "el", "elt"):
        return None
    kids = [c for c in n[1:] if type(c) is T and TT.node[c] not in SCALARS]
    ks = [TT.node[c] for c in kids]
    sel = [k for k in ks if k[0] == "sel" and reordered(k[2]) and TT.node[k[1]][0] in ("input", "elt")]
    if sel and any(k[0] in ("elt", "input") for k in ks):
        return sel[0]
    for c in kids:
        if shuffled(c):
            return shuffled(c)
    if n[0] == "ite":
        a, b = (leafset(c) for c in kids[:2])
        if len(kids) == 3:
            b |= leafset(kids[2])
        for p, q in ((a, b), (b, a)):
            if p and q and all(k[0] == "sel" and reordered(k[2]) for k in p) and all(k[0] in ("elt", "input") for k in q):
                return next(iter(p))
    return None


def leafset(x):
    n = TT.node[x]
    if n[0] in ("sel", "el", "elt", "input"):
        return {n} - SCALARS
    return set().union(*[leafset(c) for c in n[1:] if type(c) is T])


def only_inputs(x):
    return all(TT.node[y][0] in ("input", "c", "ite", "lt", "le", "eq", "ne", "not", "truthy", "and", "or", "+", "-", "*", "castint", "castbool") for y in subterms(x))


def judge(prog, r, rule, I, x, facc, opn, ob, s, nid):
    if x is None or facc is None:
        return r.unknown(ob, "contents not resolved")
    ins = {TT.node[y][1]: y for y in subterms(x) if TT.node[y][0] == "input"}
    bound = opn != "delineate_streams"
    thr = next((y for k, y in ins.items() if k in ("contrib", "contribarr")), None)
    bnd = ins.get("boundary")
    w = shuffled(x)
    if w is not None:
        return r.bad(prog, rule, nid, "arrays are combined cell by cell in different cell orders", hist(s), extra=opn)
    if facc not in subterms(x):
        return r.unknown(ob, "not a formula of accumulation, threshold and boundary")
    for a, th, rel in ((4.0, 5.0, "below"), (5.0, 5.0, "equal to"), (6.0, 5.0, "above"), (2e9, 2e9, "equal to"), (3.0, 1e9, "below"),
                       (0.0, 0.0, "equal to"), (1.0, 0.0, "above"), (1.0, -2.0, "above"), (1.0, 1.5, "below")):
        for g in ((1, 2, -1, 0) if bound else (1,)):
            env = {facc: a, thr: th}
            for y in subterms(x):
                n = TT.node[y]
                if n[0] == "red" and n[2] == thr and opn == "delineate_streams:array":
                    env[y] = {"max": th + 95, "min": th - 95, "mean": th + 7.5}.get(n[1].replace("nan", ""), NAN)
                    if env[y] != env[y]:
                        env.pop(y)
            if bound:
                env[bnd] = g
            env.pop(None, None)
            want = 1 if g and a >= th else 0
            try:
                got = cases(x, env)
            except Unsure:
                return r.unknown(ob, "formula not understood")
            if got != want:
                return r.bad(prog, rule, nid, f"a cell whose accumulation is {rel} the threshold of {th:g}{', with ' + str(g) + ' in the boundary array,' if bound else ''} becomes {got}", hist(s), extra=opn)
            r.good(f"{ob}: accumulation {rel} threshold" + (f", boundary {g}" if bound else ""))


# ------------------------------------------------------------------ closed expressions at one cell
import math


HOLDS = {"dem": "z", "grid:xcenters": "x", "grid:ycenters": "y"}


class World:
    """Two representative cells: `own`, the one looked at, and `other`, the one
    it drains to (or a neighbour); leaves are read by what they hold."""
    OWN, THIRD = 3, 13

    def __init__(self, I, st, q, fdir=None, to=None, size=20, picks=()):
        self.I, self.st, self.q, self.fdir, self.to, self.size = I, st, q, fdir, to, size
        self.here = self.OWN
        self.picks = dict(picks)        # term of a cell number -> cell

    def what(self, base):
        n = TT.node[base]
        if n[0] == "sel":
            if not self.same(n[2]):
                raise Unsure
            return self.what(n[1])
        if base == self.fdir:
            return "fdir"
        if n[0] == "input":
            return {"dem": "z"}.get(n[1]) or unsure()
        if n[0] == "elt":
            b = self.st.heap.get(n[1])
            if getattr(b, "multi", True) or getattr(b, "elem", None) is None:
                raise Unsure
            for x in [x for k, x in b.elem.tags if k == "of"]:
                if x in HOLDS:
                    return HOLDS[x]
            if TT.node[n[2]][0] == "w" and n[2] == b.ver and b.elem.term is not None and b.elem.term != base and not b.fields:
                return b.elem.term          # computed elementwise
            raise Unsure
        if n[0] == "grid":
            return HOLDS.get(n[1] + ":" + n[2]) or unsure()
        raise Unsure

    def same(self, view):
        """A view that leaves every cell at its own position (the padding cut off)."""
        if view is None:
            return True
        n = TT.node[view] if type(view) is T else ("",)
        if n[0] == "slv" and n[1] is None and n[2] == 0 and type(n[3]) is T and TT.node[n[3]][0] == "sl":
            a, b, c = (TT.node[x] for x in TT.node[n[3]][1:])
            return a in (("c", "None", None), ("c", "int", 0)) and c in (("c", "None", None), ("c", "int", 1)) and \
                (b in (("c", "None", None), ("c", "int", -1)) or b[0] in ("p", "size", "len"))
        if n[0] == "expand_dims" or n[0] == "squeeze":
            return True
        return False

    def read(self, base, cell):
        w = self.what(base)
        if w == "fdir":
            return self.to if cell == self.OWN else self.THIRD
        if type(w) is T:
            return self.at(w, cell)
        if (w, cell) not in self.q:
            raise Unsure
        return self.q[(w, cell)]

    def at(self, t, cell):
        here, self.here = self.here, cell
        try:
            return self.ev(t)
        finally:
            self.here = here

    def ev(self, t):
        n = TT.node[t]
        k = n[0]
        if t in self.picks:
            return self.picks[t]
        if k == "c":
            if n[1] in ("int", "float", "bool"):
                return NAN if n[2] == "nan" else n[2]
            raise Unsure
        if k in ("elt", "input", "sel"):
            if k == "sel" and TT.node[n[1]][0] not in ("elt", "input", "sel"):
                if self.same(n[2]):
                    return self.ev(n[1])
                if TT.node[n[2]][0] == "mask" and truthy(self.ev(TT.node[n[2]][1])):
                    return self.ev(n[1])
                raise Unsure
            return self.read(t, self.here)
        if k == "arange":
            return self.here
        if k == "gath":
            if len(n) != 3:
                raise Unsure
            return self.at(n[1], int(self.ev(n[2])))
        if k == "el":
            if len(n) != 5 or not self.same(n[3]):
                raise Unsure
            return self.read(mk("elt", n[1], n[2]), int(self.ev(n[4])))
        if k == "ite":
            return self.ev(n[2] if truthy(self.ev(n[1])) else n[3])
        xs = [self.ev(x) for x in n[1:] if type(x) is T]
        try:
            return apply(k, xs)
        except (ValueError, OverflowError):
            return NAN


def unsure():
    raise Unsure


def apply(k, xs):
    if k in ("lt", "le", "eq", "ne"):
        a, b = xs
        return {"lt": a < b, "le": a <= b, "eq": a == b, "ne": a != b}[k]
    if k == "not":
        return not truthy(xs[0])
    if k in ("truthy", "castbool"):
        return truthy(xs[0])
    if k in ("and", "or"):
        return (all if k == "and" else any)(truthy(x) for x in xs)
    if k == "isnan":
        return xs[0] != xs[0]
    if k == "isfinite":
        return math.isfinite(xs[0])
    if k in ("+", "-", "*") and len(xs) == 2:
        a, b = xs
        return a + b if k == "+" else a - b if k == "-" else a * b
    if k == "/" and len(xs) == 2:
        a, b = xs
        if b == 0:
            return NAN if a == 0 or a != a else math.copysign(math.inf, a)
        return a / b
    if k == "%" and len(xs) == 2:
        return xs[0] % xs[1] if xs[1] else NAN
    if k == "**" and len(xs) == 2:
        r = xs[0] ** xs[1]
        return NAN if isinstance(r, complex) else r
    if k == "neg":
        return -xs[0]
    if k == "abs":
        return abs(xs[0])
    if k == "sqrt":
        return math.sqrt(xs[0]) if xs[0] >= 0 else NAN
    if k == "hypot":
        return math.hypot(*xs)
    if k == "arctan2":
        return math.atan2(*xs)
    if k in ("cos", "sin", "tan"):
        return getattr(math, k)(xs[0])
    if k in ("max", "min"):
        return (max if k == "max" else min)(xs)
    if k == "castfloat":
        return xs[0]
    if k == "round" and len(xs) in (1, 2):
        return round(xs[0], int(xs[1]) if len(xs) == 2 else 0)
    if k == "sign":
        return (xs[0] > 0) - (xs[0] < 0)
    raise Unsure


# ------------------------------------------------------------------ C28
def c28_units(tier):
    return [(k,) for k in KINDS]


DIRS = [(math.cos(a) * r, math.sin(a) * r) for a, r in ((0.0, 1.0), (0.3, 2.0), (math.pi / 2, 1.0), (1.9, 0.7), (math.pi, 1.0), (3.6, 2.0), (-math.pi / 2, 3.0), (-0.4, 1.3),
                                                       (0.5, 2e-5), (2.2, 3e4), (-0.006, 1.0), (1e-3, 5.0))]


def close(a, b):
    return a == b or a != a and b != b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def c28(prog, unit, tier, r):
    kind, = unit
    t = Tour(prog, kind)
    I = t.S.I
    rule = "slope, aspect and direction vectors describe the step from a cell to the cell it drains to"
    f = t.make_fd()
    for op in fdir_ops(kind):
        base = t.save()
        if not t.do(f, op).out.returns:
            continue
        for after in (None,) + tuple(facc_ops()) + ("slope",):
            a = t.save()
            if isinstance(after, tuple):
                t.do(f, after)
            elif after:
                t.prop(f, after)
            s = t.prop(f, "flow_direction_array")
            fdir = elem_term(I, s.out.state, s.out.value) if s.out.returns else None
            h = (op[0],) + (((after if isinstance(after, str) else after[0]),) if after else ())
            for p in ("slope", "aspect", "vectors"):
                s = t.prop(f, p, h)
                if halted(prog, r, rule, s, f"{kind} {p}"):
                    continue
                xs = [(q, v.term) for q, v in named(I, s.out.state, s.out.value)]
                nid = method_nid(prog, s) or s.node
                for i, (q, x) in enumerate(xs):
                    step(prog, r, rule, I, s, p, q, x, fdir, nid, f"{kind} {p}{q}")
            t.restore(a)
        t.restore(base)
    r.count("operations", len(t.steps))


def step(prog, r, rule, I, s, p, q, x, fdir, nid, ob):
    if x is None or fdir is None:
        return r.unknown(ob, "contents not resolved")
    if shuffled(x) is not None:
        return r.bad(prog, rule, nid, "arrays are combined cell by cell in different cell orders", hist(s), extra=p)
    if reorders(x) == {1}:
        return r.bad(prog, rule, nid, "the values are not returned in cell order", hist(s), extra=p)
    bad, sure = None, 0
    given = {y: 3.5 for y in subterms(x) if TT.node[y] == ("input", "burn")}
    for dx, dy in DIRS:
        dx, dy = 40.0 + dx - 40.0, 70.0 + dy - 70.0
        for dz in (5.0, 0.5, 0.0, -2.0, 1e-4, 4000.0, -300.0, -3e-7, -0.4, 4e-7):
            dz = 100.0 - (100.0 - dz)
            o = sure % 2 * 8        # the cell drained to: number 0, number 8
            W = World(I, s.out.state, {("z", 3): 100.0, ("z", o): 100.0 - dz, ("x", 3): 40.0, ("y", 3): 70.0, ("x", o): 40.0 + dx, ("y", o): 70.0 + dy,
                                       ("z", 13): 31.7, ("x", 13): -300.5, ("y", 13): 977.25}, fdir, o, picks=given)
            want = {"slope": dz / math.hypot(dx, dy), "aspect": math.degrees(math.atan2(dy, dx)) % 360.0,
                    "vectors[0]": dx / math.hypot(dx, dy), "vectors[1]": dy / math.hypot(dx, dy)}.get(p + q.strip())
            if want is None:
                return r.unknown(ob, "component not known")
            try:
                got = W.ev(x)
            except Unsure:
                return r.unknown(ob, "expression not understood")
            except (TypeError, ArithmeticError):
                return r.unknown(ob, "expression not evaluated")
            # falls below a millionth of a length unit may count as level
            if not close(got, want) and not (p == "slope" and 0 < dz < 1e-6 and got == 0) and bad is None:
                bad = (f"for a step of ({dx:.2f}, {dy:.2f}) with a drop of {dz}, {p + q} is {got:.6g} instead of {want:.6g}")
            sure += 1
    if p == "slope":
        for to in (3, -2, -1):
            for z in (100.0, NAN):
                W = World(I, s.out.state, {("z", 3): z, ("x", 3): 40.0, ("y", 3): 70.0, ("z", 13): 31.7, ("x", 13): -300.5, ("y", 13): 977.25}, fdir, to, picks=given)
                try:
                    got = W.ev(x)
                except Unsure:
                    return r.unknown(ob, "expression not understood where a cell drains to itself")
                if not close(got, 0.0) and bad is None:
                    bad = f"the slope of a cell that drains to itself is {got}"
                sure += 1
    if bad:
        return r.bad(prog, rule, nid, bad, hist(s), extra=p + q)
    r.good(ob)
    r.count("cases", sure)
