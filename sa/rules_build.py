"""Rules on the tables handed to the builder: each value written to a reach or
segment table, read at the rows of a representative network."""
import itertools
import math
from .av import *
from .tour import *
from .rules_base import halted, hist, method_nid
from .rules_num import subterms
from .rules_term import Unsure, close, elem_term
from .rules_table import Net, PLACES, SEGROWS, SEGS, NC, free

# reach tables: rows of cell, segment, reach; segments and the ones they flow into
NETS = [(sorted(SEGROWS, key=lambda x: x[1:]), SEGS),
        ([(18, 1, 1), (13, 1, 2), (11, 2, 1), (9, 3, 1), (14, 3, 2), (6, 4, 1), (2, 4, 2)], {1: 4, 2: 1, 3: 2, 4: 0})]
REACH = {"strhc1": 1.0, "strthick": 1.0}
SEGMENT = {"etsw": 0.0, "flow": 1.0, "icalc": 1, "iprior": 0, "pptsw": 0.0, "roughch": 0.025, "runoff": 0.0, "width1": 10, "width2": 10}
SLOPES = {"default_slope": ("defslope", 0.001), "min_slope": ("minslope", 0.0001), "max_slope": ("maxslope", 1)}
VALUES = {"strtop", "slope", *REACH, *SEGMENT}
GIVEN = [dict({k: 2.5 + i for i, k in enumerate([*REACH, *SEGMENT])}, minslope=0.02, maxslope=0.35, defslope=0.11),
         dict({k: 0.0 for k in [*REACH, *SEGMENT]}, minslope=0.0, maxslope=7.0, defslope=0.0),
         dict({k: -3.0 for k in [*REACH, *SEGMENT]}, minslope=-1e9, maxslope=1e9, defslope=-0.5),
         dict({k: 1e6 + i for i, k in enumerate([*REACH, *SEGMENT])}, minslope=0.02, maxslope=0.35, defslope=5.0),
         dict({k: 1e-7 * (i + 1) for i, k in enumerate([*REACH, *SEGMENT])}, minslope=0.02, maxslope=0.35, defslope=0.001)]


ASIS = ("builder:given", "get_pygsflow_builder_object", lambda i: dict(
    reach_data=i.table("reachtab", "reach"), segment_data=i.table("segtab", "segment"), irunbnd=i.strm("xirunbnd"), apply_defaults=cst(False)))


def after(net, i, linked=None):
    """The row of the next reach downstream of a row, None at an end."""
    rows, segs = net
    if linked and i % 3 != 2:       # named by outreach
        return (i + linked) % len(rows)
    seg = rows[i][1]
    if i + 1 < len(rows) and rows[i + 1][1] == seg:
        return i + 1
    return next((j for j, x in enumerate(rows) if x[1] == segs[seg]), None)


class Beyond(IndexError):
    """A row that a table does not have."""


class Build(Net):
    """Also reads the columns of the reach and segment tables, and what was put
    into dictionaries."""

    def __init__(self, I, st, picks, q, net, given, linked, cols):
        Net.__init__(self, I, st, picks, None, None, q)
        self.net, self.given, self.linked, self.cols, self.deep = net, given, linked, cols, 0

    def entry(self, col, i, ver):
        if not isinstance(i, int):
            raise Unsure
        name = col[1]
        segs = sorted(self.net[1])
        n = len(segs) if col[0] == "segment_data" else len(self.net[0])
        if not -n <= i < n:
            raise Beyond(i, n)
        if name in ("nseg", "outseg"):
            return segs[i] if name == "nseg" else self.net[1][segs[i]]
        if self.linked is not None and name in VALUES and TT.node[ver][0] != "st":
            return 900.0 + 17 * i       # as it was given
        cell, seg, rch = self.net[0][i]
        if name == "outreach":
            i %= n
            return after(self.net, i, self.linked) + 1 if self.linked and i % 3 != 2 else 0
        have = {"node": cell, "k": 0, "i": cell // NC, "j": cell % NC, "iseg": seg, "ireach": rch}
        if name not in have:
            raise Unsure
        return have[name]

    def column(self, b):
        """(table, name) of a table column, None for other arrays."""
        return self.cols.get(b)

    def read(self, base, cell):
        n = TT.node[base]
        if n[0] == "elt" and self.column(n[1]) is not None:
            return self.entry(self.column(n[1]), cell, n[2])
        return Net.read(self, base, cell)

    def ev(self, t):
        if t in self.picks:
            return self.picks[t]
        n = TT.node[t]
        if n[0] == "c" and n[1] == "None":
            return None
        if n[0] == "input" and n[1] in self.given:
            return self.given[n[1]]
        if n[0] == "el" and self.column(n[1]) is not None:
            if n[3] is not None or len(n) != 5:
                raise Unsure
            return self.entry(self.column(n[1]), self.ev(n[4]), n[2])
        if n[0] == "elt" and self.column(n[1]) is not None:
            return self.entry(self.column(n[1]), self.here, n[2])
        if n[0] == "len":
            h = self.st.heap.get(n[1])
            fs = getattr(self.st.heap.get(h.buf), "fields", None) if isinstance(h, Arr) and h.view is None else None
            if isinstance(h, Buf):
                fs = h.fields
            names = {self.column(b)[1] for _, b in fs or () if self.column(b) is not None}
            if "nseg" in names:
                return len(self.net[1])
            if "node" in names:
                return len(self.net[0])
            raise Unsure
        if n[0] == "elt" and isinstance(self.st.heap.get(n[1]), Seq) and self.I.elts.get(n[1]):
            return self.collected(n[1])
        if n[0] == "gath" and len(n) == 3:
            i = self.ev(n[2])
            if not isinstance(i, int) or i < 0:
                raise Unsure
            return self.read(n[1], i)
        if n[0] in ("dv", "dg"):
            got = self.lookup(t, n[1], self.ev(n[3]))
            if got is None:
                if n[0] == "dv":
                    raise Unsure
                return self.ev(n[4])
            return got[0]
        if n[0] == "memb" and self.I.dputs.get(n[2]) is not None:
            return self.lookup(t, n[2], self.ev(n[1])) is not None
        return Net.ev(self, t)

    def collected(self, l):
        """What a list filled once per row holds for this row."""
        d = self.I.elts[l]
        vs = set().union(*[free(self.I, v.term) if v.term is not None else {None} for _, v in d.values()])
        vs = {v for v in vs if v is None or TT.node[v][0] != "input"}
        if len(vs) != 1 or None in vs or TT.node[next(iter(vs))][0] not in ("it", "iti") or any(v.refs for _, v in d.values()):
            raise Unsure
        x, = vs
        keep = self.picks
        self.picks = {**keep, x: self.here}
        try:
            on = [v.term for fs, v in d.values() if self.holds([a for a in fs if any(type(y) is T and x in free(self.I, y) for y in a[1:])])]
            if len(on) != 1:
                raise Unsure
            return self.ev(on[0])
        finally:
            self.picks = keep

    def lookup(self, t, l, key):
        """What a dictionary holds at a key: one entry in a tuple, or None."""
        prog, puts, at = self.I.prog, self.I.dputs.get(l), self.I.dreads.get(t, ())
        if puts is None or self.deep > 4:
            raise Unsure
        self.deep += 1
        out, sites = {}, []
        try:
            for k, (how, fs, kt, vt) in sorted(puts.items(), key=lambda x: x[0][1]):
                if kt is None or vt is None:
                    raise Unsure
                loops = set(prog.nodes[k[1]]._loops)
                if any(loops & set(prog.nodes[x]._loops) for x in at) or any(loops & s for s in sites):
                    raise Unsure        # looked up while it is filled, or filled from several places at once
                sites.append(loops)
                vs = [v for v in free(self.I, kt) | free(self.I, vt) if self.column(TT.node[v][1] if TT.node[v][0] in ("el", "elt") else None) is None and TT.node[v][0] != "input"]
                if any(TT.node[v][0] not in ("it", "iti") for v in vs) or len(vs) > 1:
                    raise Unsure
                first = how == "first" or any(absent(a, kt, l) for a in fs)
                fs = [a for a in fs if vs and any(type(y) is T and vs[0] in subterms(y) for y in a[1:]) and not absent(a, kt, l)]
                for i in range(len(self.net[0])) if vs else (0,):
                    keep = self.picks
                    self.picks = {**keep, **{v: i for v in vs}}
                    try:
                        if not self.holds(fs):
                            continue
                        a, b = self.ev(kt), self.ev(vt)
                    except IndexError:
                        break
                    finally:
                        self.picks = keep
                    if not (first and a in out):
                        out[a] = b
        finally:
            self.deep -= 1
        return (out[key],) if key in out else None


def absent(a, k, l):
    """Does a fact say that a key is not in a dictionary yet?"""
    n = TT.node[a[1]] if a[0] in ("t", "f") else ("",)
    if a[0] == "t" and n[0] == "not":
        n = TT.node[n[1]]
    elif a[0] == "t":
        return False
    return n[0] == "memb" and n[1:3] == (k, l)


def table_bufs(st, v):
    """(column, buffer) of the tables a value may be."""
    out = {}
    for l in v.refs:
        h = st.heap.get(l)
        for b in bufs_of(h) if isinstance(h, Arr) else ():
            for f, fb in getattr(st.heap.get(b), "fields", None) or ():
                out.setdefault(f, set()).add(fb)
    return out


def c23_units(tier):
    return [(k, "Sfr2005") for k in KINDS]


def c23(prog, unit, tier, r):
    kind, cls = unit
    rule = "the builder's tables hold the reach tops, limited slopes and the values asked for"
    t = Tour(prog, kind)
    S, I = t.S, t.S.I
    log = {}

    def on_store(I, st, node, fr, b, bo, arr, idx, v, how, field):
        k = (node._nid if node is not None else 0, fr.ctx if fr is not None else 0)
        log.setdefault(b, {}).pop(k, None)
        log[b][k] = (st.copy(), idx, v, how)
    f = t.make_fd()
    t.do(f, fdir_ops(kind)[0])
    t.do(f, facc_ops()[0])
    o = t.make_streams(cls)
    t.do(o, arr_ops(cls)[0])
    base = t.save()
    S.hook("store", on_store)
    for op in strm_ops(cls, kind) + [ASIS]:
        if op[1] != "get_pygsflow_builder_object":
            continue
        t.restore(base)
        log.clear()
        s = t.do(o, op)
        ob = f"{kind} {op[0]}"
        if halted(prog, r, rule, s, ob):
            continue
        st = s.out.state
        nid = method_nid(prog, s) or s.node
        tabs = {w: table_bufs(st, S.field(s.out.value, w)) for w in ("reach_data", "segment_data")}
        cols = {b: (w, f) for w, d in tabs.items() for f, bs in d.items() for b in bs}
        for h in st.heap.values():       # the tables they were made from
            names = dict(getattr(h, "fields", None) or ()) if isinstance(h, Buf) else {}
            if "nseg" in names or "node" in names:
                for f, b in names.items():
                    cols.setdefault(b, ("segment_data" if "nseg" in names else "reach_data", f))
        for b, sites in log.items():     # a column filled with an array
            for _, _, v, how in sites.values():
                if how == "field" and b in cols and len(sites) == 1 and v.term is not None and TT.node[v.term][0] == "elt" and cols[b][1] not in VALUES:
                    cols.setdefault(TT.node[v.term][1], cols[b])
        if op[0] == "builder:given":
            for w, d in tabs.items():
                put = sorted(f for f, bs in d.items() if bs & set(log))
                if put:
                    b = next(b for b in tabs[w][put[0]] if b in log)
                    r.bad(prog, rule, next(iter(log[b]))[0], f"without defaults {put[0]} of the {w} given is still overwritten", hist(s), extra=w)
                elif d:
                    r.good(f"{ob}: {w}")
                else:
                    r.unknown(f"{ob}: {w}", "table not understood")
            x = elem_term(I, st, S.field(s.out.value, "irunbnd"))
            if x is not None and TT.node[x] == ("input", "xirunbnd"):
                r.good(f"{ob}: irunbnd")
            elif x is not None and not any(TT.node[y] == ("input", "xirunbnd") for y in subterms(x)) and TT.node[x][0] in ("input", "c"):
                r.bad(prog, rule, nid, "the irunbnd array given is not the one in the result", hist(s), extra="irunbnd")
            else:
                r.unknown(f"{ob}: irunbnd", "contents not resolved")
            t.restore(base)
            s = t.do(o, op, extra={"strhc2": t.i.num("strhc1")})
            if s.out.returns:
                r.bad(prog, rule, nid, "a keyword that names no parameter is accepted", hist(s), extra="keyword")
            else:
                r.good(f"{ob}: unknown keyword refused")
            continue
        if op[0] == "builder:nodefaults":
            continue
        opts = op[0] == "builder:opts"
        for w, names in (("reach_data", ("strtop", "slope", *REACH)), ("segment_data", tuple(SEGMENT))):
            for name in names:
                bs = tabs[w].get(name, ())
                if len(bs) != 1:
                    r.unknown(f"{ob}: {name}", "table not understood")
                    continue
                b, = bs
                judge(prog, r, rule, I, s, st, f"{ob}: {name}", w, name, log.get(b), cols, opts, op[0] == "builder:tables", nid)
    r.count("operations", len(t.steps))


def wanted(w, name, i, q, net, given, opts, linked):
    """(value, what it is) of a column at a row."""
    if name in REACH or name in SEGMENT:
        return (given[name] if opts else {**REACH, **SEGMENT}[name]), "the value asked for" if opts else "the default"
    cell = net[0][i][0]
    if name == "strtop":
        return q["z", cell], "the top of its cell"
    lo, hi, de = (given[SLOPES[k][0]] if opts else SLOPES[k][1] for k in ("min_slope", "max_slope", "default_slope"))
    n = after(net, i, linked)
    n = net[0][n][0] if n is not None else cell
    far = math.hypot(q["x", cell] - q["x", n], q["y", cell] - q["y", n])
    x = (q["z", cell] - q["z", n]) / far if far else de
    return min(max(x, lo), hi), "the slope to the next reach, within its limits" if far else "the default slope"


def judge(prog, r, rule, I, s, st, ob, w, name, puts, cols, opts, tables, nid):
    puts, site = puts or {}, nid
    unsure = None
    for q, net in itertools.product(PLACES, NETS):
        n = len(net[0]) if w == "reach_data" else len(net[1])
        for given in GIVEN if opts else ({},):
            for linked in range(len(net[0])) if tables else (None,):
                have = {i: (site, 900.0 + 17 * i if tables else 0.0) for i in range(n)}
                for (nid, _), (st1, idx, v, how) in puts.items():
                    try:
                        fill(I, Build(I, st1, {}, q, net, given, linked, cols), n, nid, st1, idx, v, how, have)
                    except Beyond as x:
                        return r.bad(prog, rule, nid, f"{name}: row {x.args[0]} is read from a table of {x.args[1]} rows", hist(s), extra=name)
                    except (Unsure, TypeError, ArithmeticError, KeyError, IndexError):
                        have.update({i: None for i in range(n)})
                if None in have.values():
                    unsure = "value not understood"
                    continue
                for i in range(n):
                    x, say = wanted(w, name, i, q, net, given, opts, linked)
                    at = f"reach {net[0][i][2]} of segment {net[0][i][1]}" if w == "reach_data" else f"segment {sorted(net[1])[i]}"
                    if not close(have[i][1], x):
                        return r.bad(prog, rule, have[i][0], f"{name} of {at} {'becomes' if have[i][0] != site else 'stays'} {have[i][1]:.6g}; {say} is {x:.6g}", hist(s), extra=name)
                r.count("cases", n)
    if unsure:
        r.unknown(ob, unsure)
    else:
        r.good(ob)


def fill(I, w, n, nid, st, idx, v, how, have):
    """Carry one store out: row -> (where, value)."""
    if v.term is None:
        raise Unsure
    if how == "field" and not idx:
        for i in range(n):
            have[i] = (nid, w.at(v.term, i))
        return
    ix = [x for x in idx if isinstance(x, AV)]
    if len(ix) != 1 or len(idx) != 1 or ix[0].term is None:
        raise Unsure
    vs = free(I, ix[0].term)
    if len(vs) > 1 or any(TT.node[x][0] not in ("it", "iti") for x in vs):
        raise Unsure
    mine = [a for a in st.facts if any(type(y) is T and (vs & free(I, y)) for y in a[1:])]
    for i in range(n) if vs else (0,):
        w.picks = {x: i for x in vs}
        if w.holds(mine):
            k = w.ev(ix[0].term)
            if not isinstance(k, int) or not -n <= k < n:
                raise Unsure
            have[k % n] = (nid, w.ev(v.term))
