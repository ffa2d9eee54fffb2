from . import rules_base as b
from . import rules_flow as f
from . import rules_value as v
from . import rules_num as n
from . import rules_term as t
from . import rules_net as e
from . import rules_table as w
from . import rules_build as g
from . import rules_casc as k
from . import rules_fix as x
from . import rules_link as l
from .catalog import P

ASSUME = ["numpy, flopy and Python behave as the library models in sa/models.py describe",
          "the analysed call histories are those of sa/tour.py"]


def R(fn, units, floor=1):
    return dict(fn=fn, units=units, floor=floor, assume=ASSUME)


RULES = {
    "C01": R(b.c01, b.type_units, 100),
    "C02": R(b.c02, b.units, 100),
    "C03": R(b.c03, b.type_units, 100),
    "C04": R(b.c04, b.c04_units, 20),
    "C05": R(f.c05, f.c05_units, 50),
    "C06": R(f.c06, f.c06_units, 50),
    "C15": R(f.c15, f.c15_units, 20),
    "C27": R(f.c27, f.c27_units, 50),
    "C09": R(v.c09, v.c09_units, 50),
    "C07": R(b.c07, b.units, 20),
    "C08": R(n.c08, n.c10_units, 8),
    "C10": R(n.c10, n.c10_units, 20),
    "C11": R(x.c11, x.c11_units, 9),
    "C12": R(b.c12, b.c12_units, 50),
    "C13": R(b.c13, b.units, 100),
    "C14": R(b.c14, b.units, 50),
    "C16": R(t.c16, t.c16_units, 100),
    "C17": R(k.c17, k.c17_units, 8),
    "C18": R(w.c18, w.c18_units, 20),
    "C19": R(w.c19, w.c19_units, 20),
    "C22": R(l.c22, l.c22_units, 60),
    "C23": R(g.c23, g.c23_units, 30),
    "C20": R(v.c20, v.c20_units, 50),
    "C24": R(v.c24, v.c24_units, 50),
    "C21": R(b.c21, b.c21_units, 100),
    "C28": R(t.c28, t.c28_units, 10),
    "C83": R(e.c83, e.c83_units, 10),
}

for _k, _r in RULES.items():
    _r["text"] = P[_k]["how"] if _k in P else ""
