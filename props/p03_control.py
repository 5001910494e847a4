"""call/cc and dynamic-wind histories against the reference interpreter."""
from vlib.engine import Part
from vlib.ctlgen import Ctl
from vlib.ctlcheck import make, check, VARS

ID = 'P03'
RULE = 'the program contains an escape or a dynamic-wind, or calls a saved continuation, and stays in the modelled domain'
ASSUMPTIONS = ['vlib/ref.py is the reference semantics (escape-only continuations)']


def gen(s):
    g = Ctl(s, wind=4, exc=s.choice([0, 1]))
    text = g.program()
    return make(s, text, bool(g.kinds & {'escape', 'wind', 'saved'}), g.kinds)


PARTS = [Part('histories', gen, check, 50000, 800000, variants=VARS)]
