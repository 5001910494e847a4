"""Handler and guard histories against the reference interpreter."""
from vlib.engine import Part, Case
from vlib.ctlgen import Ctl
from vlib.ctlcheck import make, check, VARS

ID = 'P04'
RULE = 'the program raises under at least one handler or guard and stays in the modelled domain'
ASSUMPTIONS = ['vlib/ref.py is the reference semantics']


def gen(s):
    g = Ctl(s, wind=s.choice([0, 1]), exc=5, vals=1)
    text = g.program()
    return make(s, text, 'raise' in g.kinds and bool(g.kinds & {'guard', 'handler'}), g.kinds)


# ---- guard clauses and dynamic-wind: SRFI-34 evaluates the clauses in the
# dynamic environment of the guard, i.e. after the winds inside it were left,
# and enters them again before it re-raises.
def gen_wind(s):
    depth = s.range(1, 5)
    obj = s.range(1, 4)
    nest = [s.choice(['guard', 'wind']) for _ in range(depth)] + ['guard']
    nest.reverse()
    nodes = []
    for i, k in enumerate(nest):
        nodes.append((k, i, s.range(1, 4) if i else obj, s.bool(1, 3)))
    e = '(raise %d)' % obj
    for k, i, m, bang in reversed(nodes):
        if k == 'wind':
            e = '(dynamic-wind (lambda () (tr "in" %d)) (lambda () (tr "body" %d) %s) (lambda () (tr "out" %d)))' % (i, i, e, i)
        else:
            e = '(guard (e ((begin (tr "test" %d) (eqv? e %d)) (tr "clause" %d) (list %d e))) %s)' % (i, m, i, i, e)
    text = '(define (tr k n) (display k) (display n) (display " "))\n(list %s)' % e

    def run(srfi):
        out = []
        for k, i, m, _ in nodes:
            if k == 'wind':
                out += ['in%d' % i, 'body%d' % i]
        for j in range(len(nodes) - 1, -1, -1):
            k, i, m, _ = nodes[j]
            if k == 'wind':
                continue
            inner = [n[1] for n in nodes[j:] if n[0] == 'wind']
            if srfi:
                out += ['out%d' % w for w in reversed(inner)]
            out.append('test%d' % i)
            if m == obj:
                out.append('clause%d' % i)
                if not srfi:
                    out += ['out%d' % w for w in reversed(inner)]
                out += ['out%d' % n[1] for n in reversed(nodes[:j]) if n[0] == 'wind']
                return '=> (tr k n)\n' + ' '.join(out) + ' => ((%d %d))\n' % (i, obj)
            if srfi:
                out += ['in%d' % w for w in inner]
    return Case(text, run(True), 'dynamic-wind' in text, alt=run(False), mode='-',
                variant=s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2])]))


def check_wind(c, env):
    r = env.run(c.text, c.mode, c.variant)
    if not r.done:
        return 'did not complete: %s' % r.describe()
    if r.text() == c.expect + '#DONE\n':
        return None
    if r.text() == c.alt + '#DONE\n':
        return 'clauses evaluated before unwinding the body: %r instead of %r' % (r.text(), c.expect)
    return 'expected %r (or the documented deviation %r) but got %r' % (c.expect, c.alt, r.text()[:2000])


PARTS = [Part('histories', gen, check, 45000, 800000, variants=VARS),
         Part('guard-wind', gen_wind, check_wind, 2000, 20000, variants=VARS[:3])]
