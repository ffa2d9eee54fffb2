"""Running a rule, collecting obligations, reporting and evidence."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
from .prog import Program, AnalysisError

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DANY_REPO", "/repo")


class Result:
    """What one unit of a check (usually one grid kind) found; picklable."""

    def __init__(self, unit):
        self.unit = unit
        self.violations = {}      # key -> dict
        self.ok = {}              # obligation -> how often discharged
        self.undet = {}           # obligation -> reason
        self.counts = {}
        self.error = None
        self.broken = None

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def good(self, ob):
        self.ok[ob] = self.ok.get(ob, 0) + 1

    def unknown(self, ob, why):
        self.undet.setdefault(ob, why)

    def bad(self, prog, rule, nid, what, path=(), ob=None, extra=""):
        """A violation at a syntax node (or a client call when nid < 0)."""
        if nid is not None and nid > 0:
            f, q, l = prog.where(nid)
            txt = prog.text(nid)
        else:
            f, q, l, txt = "<client call>", "", 0, ""
        key = f"{rule}|{f}|{q}|{extra or txt}"
        v = self.violations.get(key)
        if v is None:
            self.violations[key] = dict(rule=rule, file=f, func=q, line=l, construct=txt, what=what, path=list(path), unit=self.unit, n=1)
        else:
            v["n"] += 1


def fn_node(prog, cls, meth):
    m = prog.find_method(cls, meth) if cls else None
    if m is None:
        for k, f in prog.functions.items():
            if k.endswith("." + meth):
                return f._nid
    return m._nid if m is not None else None


def _unit(a):
    fn, unit, tier, root = a
    r = Result(unit)
    try:
        sys.setrecursionlimit(20000)
        prog = Program(root)
        fn(prog, unit, tier, r)
        r.count("functions", 0)
    except AnalysisError as e:
        r.broken = str(e)
    except RecursionError as e:
        r.error = "analysis gave up: nesting too deep"
    except Exception:
        r.error = traceback.format_exc(limit=-4)
    return r


def known_keys(prop):
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=" + prop + " "):
                rest = line.split(" ", 2)[2]
                if rest.startswith("key="):
                    key, _, what = rest[4:].partition(" :: ")
                    out[key.strip()] = what.strip()
    return out


def run(prop, rule, tier, root=REPO):
    """rule: dict(units, fn, text, technique, floor)."""
    t0 = time.time()
    units = rule["units"](tier) if callable(rule["units"]) else list(rule["units"])
    jobs = [(rule["fn"], u, tier, root) for u in units]
    n = min(len(jobs), int(os.environ.get("DANY_JOBS", os.cpu_count() or 1)))
    if n > 1:
        with mp.get_context("fork").Pool(n) as p:
            res = p.map(_unit, jobs, chunksize=1)
    else:
        res = [_unit(j) for j in jobs]
    broken = [r.broken for r in res if r.broken]
    viol, ok, undet, counts = {}, {}, {}, {}
    errors = []
    for r in res:
        for k, v in r.violations.items():
            if k in viol:
                viol[k]["n"] += v["n"]
            else:
                viol[k] = v
        for k, v in r.ok.items():
            ok[k] = ok.get(k, 0) + v
        for k, v in r.undet.items():
            undet.setdefault(f"{k} [{r.unit}]", v)
        for k, v in r.counts.items():
            counts[k] = counts.get(k, 0) + v
        if r.error:
            errors.append((str(r.unit), r.error))
    known = known_keys(prop)
    new = {k: v for k, v in viol.items() if k not in known}
    old = {k: v for k, v in viol.items() if k in known}
    nob = sum(ok.values()) + len(undet) + sum(v["n"] for v in viol.values())
    samples = [f"{k} (x{v})" for k, v in sorted(ok.items())[:12]]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="other",
              coverage=dict(explanation=rule["text"], obligations=nob, discharged=sum(ok.values()),
                            undetermined=len(undet), undetermined_items=[f"{k}: {v}" for k, v in sorted(undet.items())[:40]],
                            distinct_obligations=len(ok), units=[str(u) for u in units], samples=samples,
                            analysis_errors=[f"{u}: {e.splitlines()[-1]}" for u, e in errors], **{"n_" + k: v for k, v in counts.items()}),
              assumptions=rule.get("assume", []), wall_s=round(time.time() - t0, 3), violations=len(new))
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in sorted(old.items()):
        print(f"KNOWN-FINDING: property={prop} {known[k] or v['what']}")
    if new:
        rp = os.path.join(d, prop + ".violation.txt")
        lines = []
        for k, v in sorted(new.items()):
            lines.append(f"{v['file']}:{v['line']} in {v['func'] or '<module>'}: {v['what']}")
            lines.append(f"    rule      : {v['rule']}  (grid/unit: {v['unit']}, seen {v['n']}x)")
            if v["construct"]:
                lines.append(f"    construct : {v['construct']}")
            if v["path"]:
                lines.append("    path      : " + " -> ".join(v["path"]))
        with open(rp, "w") as f:
            f.write("\n".join(lines) + "\n")
        print("\n".join(lines))
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop} {tier}: {sum(ok.values())}/{nob} obligations discharged, {len(undet)} undetermined, "
          f"{len(errors)} analysis errors, {time.time() - t0:.1f}s")
    if broken:
        print("ANALYSIS-BROKEN: " + "; ".join(sorted(set(broken))))
        return 2
    for u, e in errors:
        print(f"analysis error in {u}:\n{e}", file=sys.stderr)
    floor = rule.get("floor", 1)
    if nob < floor:
        print(f"ANALYSIS-BROKEN: only {nob} obligations, at least {floor} expected")
        return 2
    return 0
