"""Rules on connectivity graphs: the graph and the numbered stream array are
written out for a representative network and compared cell by cell."""
from .av import *
from .tour import *
from .rules_base import halted, hist, method_nid, KINDS
from .rules_num import subterms
from .rules_term import Unsure, elem_term
from .rules_casc import Whole, ROWS, COLS, network, X, Y

# stream cells of the representative network: a sink, one that drains to cell 0,
# one that drains to itself, one unresolved, and the cells that -1 and -2 would
# be taken for as positions
CELLS = [0, 1, 3, 7, 11, 12, 13, 14, 15, 18, 19]


class Missing(LookupError):
    """A dictionary is asked for something it does not hold."""


class Links(Whole):
    """Arrays filled by assignments and dictionaries filled entry by entry, each
    at its state after the loops that fill it."""

    def __init__(self, I, st, base, sizes, log, spoilt, puts):
        Whole.__init__(self, I, st, base, sizes, log, spoilt)
        self.puts, self.stage, self.now, self.busy = puts, {}, {}, set()
        self.dicts, self.orders = {}, {}

    # ---- arrays
    def held(self, l, ver=None):
        if isinstance(self.st.heap.get(l), Buf) and l in self.puts and ver is None:
            ver = self.asof.get(l, self.st.heap[l].ver)
        if isinstance(self.st.heap.get(l), Buf) and l in self.puts:
            return self.filled(l, ver)
        try:
            return Whole.held(self, l, ver)
        except Unsure:
            h = self.st.heap.get(l)
            if isinstance(h, Seq) and h.kind == "list" and (l in self.spoilt or l in self.log) and l not in self.busy:
                return self.sorted(l)
            raise

    def filled(self, b, ver):
        """An array assigned to: what it held, then each loop of assignments."""
        loop = self.loop_of(ver, b)
        if b in self.now and loop == self.now[b][0]:
            return self.now[b][1]
        want = loop if loop is not None else ver
        for key, x in self.stages(b):
            if key == want:
                return x
        raise Unsure

    def loop_of(self, ver, b):
        n = TT.node[ver]
        return n[1][1:3] if n[0] == "phiv" and type(n[1]) is tuple and n[1][0] == "loop" and n[2] == b else None

    def stages(self, b):
        """What the array holds at first and after each loop, as far as asked for."""
        sites = sorted(self.puts[b].items())
        prog = self.I.prog
        if len({c for (_, c), _ in sites}) != 1:
            raise Unsure
        out = self.stage.setdefault(b, [])
        if not out:
            first = sites[0][1][0]
            bo = first[4]
            if bo.fields or bo.multi or bo.elem.term is None:
                raise Unsure
            keep, self.st = self.st, first[0]
            try:
                x = self.ev(bo.elem.term)
                out.append((bo.ver, list(x) if isinstance(x, list) else self.spread(b, x)))
            finally:
                self.st = keep
        yield out[0]
        for j, ((nid, ctx), visits) in enumerate(sites):
            if j + 1 < len(out):
                yield out[j + 1]
                continue
            loops = prog.nodes[nid]._loops
            if b in self.now or len(loops) > 1 or len({(v[2][0].term, v[5]) for v in visits}) != 1 or len(visits[-1][2]) != 1 or visits[-1][5] not in ("index", "mask"):
                raise Unsure
            key = (loops[0], ctx) if loops else mk("st", nid, ctx)
            if any(k == key for k, _ in out):
                raise Unsure
            x = list(out[-1][1])
            self.now[b] = (key, x)
            st, _, idx, v, _, _ = visits[-1]
            keep, self.st = self.st, st
            try:
                its = (self.its(loops[0], ctx),) if loops else ()
                if not its:
                    self.now[b] = (TT.node[key][1:], out[-1][1])
                for _ in self.over(its):
                    self.memo.clear()
                    if not self.holds([a for a in st.facts if a[0] != "rng" and self.about(a, its)]):
                        continue
                    i, y = self.value(idx[0]), self.value(v)
                    if isinstance(i, list) and i and isinstance(i[0], bool):
                        i = [k for k, on in enumerate(i) if on]
                    if not isinstance(i, list):
                        i, y = [i], [y]
                    ys = y if isinstance(y, list) else [y] * len(i)
                    if len(ys) != len(i) or any(isinstance(k, bool) or not isinstance(k, int) for k in i) or any(isinstance(y, list) for y in ys):
                        raise Unsure
                    for k, y in zip(i, ys):
                        x[k] = y
            finally:
                self.st = keep
                del self.now[b]
                self.memo.clear()
            out.append((key, x))
            yield out[-1]

    def its(self, loop, ctx):
        its = [b for b in self.I.iterof if TT.node[b][1:3] == (loop, ctx)]
        if len(its) != 1:
            raise Unsure
        return its[0]

    def value(self, v, stamp=None):
        if stamp is None and len(v.refs) == 1 and not v.kinds - {"ref"}:
            l = next(iter(v.refs))
            h = self.st.heap.get(l)
            if isinstance(h, Dct):
                return list(self.dct(l))
            if isinstance(h, Ext) and h.kind == "iter" and h.info[0] == "range":
                return list(range(*(self.value(y) for y in h.info[1:4])))
            if isinstance(h, Ext) and h.kind == "iter" and h.info[0] in ("keys", "values"):
                x = self.dct(next(iter(h.info[1].refs)) if isinstance(h.info[1], AV) else h.info[1])
                return list(x) if h.info[0] == "keys" else list(x.values())
        return Whole.value(self, v, stamp)

    # ---- dictionaries
    def dct(self, l):
        """What a dictionary maps to what."""
        if l in self.dicts:
            if self.dicts[l] is None:
                raise Unsure
            return self.dicts[l]
        self.dicts[l] = None
        try:
            self.dicts[l] = self.entries(l)
        finally:
            if self.dicts[l] is None:
                del self.dicts[l]
        return self.dicts[l]

    def entries(self, l):
        sites = self.I.dputs.get(l)
        if sites is None or not isinstance(self.st.heap.get(l), Dct):
            raise Unsure
        out = {}
        for (_, nid, _), (how, fs, k, v) in sorted(sites.items(), key=lambda s: (s[0][1], str(s[0][2]))):
            if k is None or v is None or how != "set":
                raise Unsure
            its = tuple(sorted({x for f in fs for y in f[1:] if type(y) is T for x in self.bases(y)} | set(self.bases(k)) | set(self.bases(v)),
                               key=lambda x: len(getattr(self.I.prog.nodes[TT.node[x][1]], "_loops", ()) or ())))
            its = tuple(x for x in its if x not in self.picks)
            if len(its) > 1:
                raise Unsure
            for _ in self.over(its):
                if self.holds([a for a in fs if a[0] != "rng" and self.about(a, its)]):
                    out[self.ev(k)] = self.ev(v)
        if not out:
            raise Unsure
        return out

    def sorted(self, l):
        """A list made by sorting a graph: some order of the graph's own keys."""
        if l in self.orders:
            return self.orders[l]
        self.busy.add(l)
        try:
            got = []
            for d, p in self.I.dputs.items():
                if not p or d in self.dicts and self.dicts[d] is None or not isinstance(self.st.heap.get(d), Dct):
                    continue
                try:
                    x = self.dct(d)
                except (Unsure, TypeError, ArithmeticError, LookupError):
                    continue
                if all(type(k) is int and k > 0 and type(v) is int for k, v in x.items()):
                    got.append(x)
            if not got or any(x != got[0] for x in got):
                raise Unsure
            ks = sorted(got[0])
            self.orders[l] = ks[6::2] + ks[5::2] + ks[:5]
            return self.orders[l]
        finally:
            self.busy.discard(l)

    def domain(self, base):
        v, stamp = self.I.iterof.get(base, (None, None))
        if v is not None and len(v.refs) == 1:
            h = self.st.heap.get(next(iter(v.refs)))
            if isinstance(h, Ext) and h.kind == "iter" and h.info[0] in ("items", "keys", "values") or isinstance(h, Dct):
                l = next(iter(v.refs))
                if isinstance(h, Ext):
                    l = h.info[1]
                    l = next(iter(l.refs)) if isinstance(l, AV) and len(l.refs) == 1 else l
                d = self.dct(l)
                how = h.info[0] if isinstance(h, Ext) else "keys"
                at = mk("iti", base, 99)
                if how == "items":
                    return [{mk("iti", base, 1): k, mk("iti", base, 2): x, at: i} for i, (k, x) in enumerate(d.items())]
                return [{base: k if how == "keys" else x, at: i} for i, (k, x) in enumerate(d.items())]
        return Whole.domain(self, base)

    def ev1(self, t):
        n = TT.node[t]
        if n[0] == "dv":
            d, k = self.dct(n[1]), self.ev(n[3])
            if k not in d:
                raise Missing(k)
            return d[k]
        if n[0] == "dg":
            d, k = self.dct(n[1]), self.ev(n[3])
            return d[k] if k in d else self.ev(n[4])
        if n[0] == "memb" and isinstance(self.st.heap.get(n[2]), Dct):
            return self.ev(n[1]) in self.dct(n[2])
        return Whole.ev1(self, t)


def c22_units(tier):
    return [(k, c) for k in KINDS for c in ("Sfr6", "PrmsStreams")]


def c22(prog, unit, tier, r):
    kind, cls = unit
    rule = "the reach of each stream cell is linked to the reach of the cell it drains to"
    t = Tour(prog, kind)
    S, I = t.S, t.S.I
    log, spoilt, puts = {}, set(), {}

    def add(how):
        def on(I, st, node, fr, l, h, v, *where):
            if how == "push" and where and where[0] != "end":
                spoilt.add(l)
                return
            k = (node._nid if node is not None else 0, fr.ctx if fr is not None else 0, how)
            log.setdefault(l, {})[k] = (how, st.copy(), v)
        return on

    def on_write(I, st, node, fr, l, what):
        if what not in ("insert", "extend"):
            spoilt.add(l)

    def on_store(I, st, node, fr, b, bo, arr, idx, v, how, field):
        puts.setdefault(b, {}).setdefault((node._nid if node is not None else 0, fr.ctx if fr is not None else 0), []).append((st.copy(), fr, idx, v, bo, how if field is None else "field"))
    f = t.make_fd()
    t.do(f, fdir_ops(kind)[0])
    t.do(f, facc_ops()[0])
    s = t.prop(f, "flow_direction_array")
    fdir = elem_term(I, s.out.state, s.out.value) if s.out.returns else None
    o = t.make_streams(cls)
    base = t.save()
    S.hook("push", add("push"))
    S.hook("pushall", add("pushall"))
    S.hook("seqwrite", on_write)
    S.hook("store", on_store)
    for prep in arr_ops(cls):
        t.restore(base)
        t.do(o, prep)
        a = t.prop(o, "stream_array")
        arr = elem_term(I, a.out.state, a.out.value) if a.out.returns else None
        ready = t.save()
        for op in strm_ops(cls, kind):
            if op[1] != "get_stream_connectivity" or "grouped" in op[0]:
                continue
            t.restore(ready)
            log.clear(), spoilt.clear(), puts.clear()
            s = t.do(o, op, (prep[0],))
            nid = method_nid(prog, s) or s.node
            ob = f"{kind} {cls} {prep[0]} {op[0]}"
            if halted(prog, r, rule, s, ob):
                continue
            st = s.out.state
            a = t.prop(o, "stream_array", (prep[0], op[0]))
            if halted(prog, r, rule, a, ob):
                continue
            judge(prog, r, rule, I, s, a, ob, nid, fdir, arr, log, spoilt, puts)
    r.count("operations", len(t.steps))


def judge(prog, r, rule, I, s, a, ob, nid, fdir, arr, log, spoilt, puts):
    nbs, xs, ys, down, _ = network()
    down = list(down)
    down[14], down[3], down[18] = 14, 2, 13
    n = ROWS * COLS
    mask = [int(i in CELLS) for i in range(n)]
    if fdir is None:
        return r.unknown(ob, "flow directions not understood")
    base = {fdir: down, "xstrm": mask}
    if arr is not None:
        base[arr] = mask
    W = Links(I, a.out.state, base, {"R": ROWS, "C": COLS, "N": n, "": n}, {l: list(d.values()) for l, d in log.items()}, frozenset(spoilt), puts)
    v = s.out.value
    try:
        if len(v.refs) != 1 or v.kinds != KREF:
            raise Unsure
        graph = W.dct(next(iter(v.refs)))
        held = W.value(a.out.value)
    except Missing as e:
        return r.bad(prog, rule, nid, f"a stream cell is linked to reach {e.args[0]}, which no cell has" if e.args[0] else "the link of an outlet is looked up among the reaches", hist(s), extra=ob.split()[-1])
    except (Unsure, TypeError, ArithmeticError, LookupError):
        return r.unknown(ob, "graph not evaluated")
    if not isinstance(held, list) or len(held) != n:
        return r.unknown(ob, "stream array not understood")
    want = {}
    for i in range(n):
        if i not in CELLS and held[i] != 0:
            return r.bad(prog, rule, nid, "a cell that is no stream cell gets a reach number", hist(s), extra=ob.split()[-1])
    for i in CELLS:
        if not held[i]:
            return r.bad(prog, rule, nid, f"a stream cell gets no reach number", hist(s), extra=ob.split()[-1])
        if held[i] in want:
            return r.bad(prog, rule, nid, "two stream cells get the same reach number", hist(s), extra=ob.split()[-1])
        want[held[i]] = (i, held[down[i]] if down[i] >= 0 else 0)
    if set(want) != set(range(1, len(want) + 1)):
        return r.bad(prog, rule, nid, "the reaches are not numbered from 1 without gaps", hist(s), extra=ob.split()[-1])
    for k, (i, x) in want.items():
        what = "is a sink" if down[i] < 0 else "drains to itself" if down[i] == i else "drains to another stream cell" if down[i] in CELLS else "drains to a cell that is no stream"
        if down[i] == 0:
            what += " (cell 0)"
        if k not in graph:
            return r.bad(prog, rule, nid, f"the reach of a stream cell that {what} is not in the graph", hist(s), extra=ob.split()[-1])
        if graph[k] != x:
            return r.bad(prog, rule, nid, f"the reach of a stream cell that {what} is not linked to the reach of that cell" if x else f"the reach of a stream cell that {what} is linked to a reach", hist(s), extra=ob.split()[-1])
    if len(graph) != len(want):
        return r.bad(prog, rule, nid, "the graph has reaches of no stream cell", hist(s), extra=ob.split()[-1])
    r.good(ob)
    r.count("links", len(want))
