"""Comparison of control-flow programs with the reference interpreter."""
from vlib.engine import Case, Part
from vlib.gen import fixrange
from vlib.ctlgen import Ctl
from vlib.ref import run_program, Unmodelled

VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san']


def make(s, text, need, kinds=(), mode=None, vars=VARS, **kw):
    variant = s.weighted([(5, vars[0]), (3, vars[1]), (2, vars[2]), (1, vars[3])])
    try:
        exp = ''.join(run_program(text, fixrange(variant), **kw))
    except Unmodelled as e:
        return Case(text, None, False, tags=['unmodelled: %s' % e], variant=variant, mode='-')
    return Case(text, exp, need, variant=variant, mode=mode or s.choice(['-', 'f']),
                tags=sorted(kinds) + [variant] + (['error'] if '!E' in exp else []) + (['raised'] if '!R' in exp else []))


def check(c, env, **kw):
    if c.expect is None:
        return None
    r = env.run(c.text, c.mode, c.variant, **kw)
    if not r.done:
        return 'did not complete: %s\n%s' % (r.describe(), r.text()[-500:])
    if r.text() != c.expect + '#DONE\n':
        return 'expected %r but got %r (%s)' % (c.expect, r.text()[:2000], r.err[:300])
