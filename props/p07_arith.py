"""Integer operations against Python integers."""
from math import gcd
from vlib.engine import Part, Case
from vlib.gen import fixrange

ID = 'P07'
RULE = 'at least one expression has an operand of magnitude above 2^30, an overflow, a division by zero or three or more operands'
ASSUMPTIONS = ['* , expt and lcm do not detect overflow (documented): only cases whose partial results are representable are generated']
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']


class Err(Exception):
    pass


class Skip(Exception):
    pass


def num(s, lo, hi):
    k = s.below(9)
    if k <= 2:
        return s.range(-9, 9) if k else s.below(4)
    if k == 3:
        return s.range(-300, 300)
    if k == 4:
        b = s.range(1, 63)
        v = (1 << b) + s.range(-2, 2)
        v = -v if s.bool() else v
    elif k == 5:
        v = hi - s.below(4) if s.bool() else lo + s.below(4)
    elif k == 6:
        v = (hi >> 1) + s.range(-2, 2)
        v = -v if s.bool() else v
    elif k == 7:
        b = s.range(8, 62)
        v = s.below(1 << b)
        v = -v if s.bool() else v
    else:
        v = s.range(-100000, 100000)
    return max(lo, min(hi, v))


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Ref:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def ck(self, v):
        if not self.lo <= v <= self.hi:
            raise Err()
        return v

    def sk(self, v):
        if not self.lo <= v <= self.hi:
            raise Skip()
        return v

    def call(self, op, a):
        n = len(a)
        if op == '+':
            r = 0
            for x in a:
                r = self.ck(r + x)
            return r
        if op == '*':
            r = 1
            for x in a:
                r = self.sk(r * x)
            return r
        if op in '-/' and n == 0:
            raise Err()
        if op == '-':
            if n == 1:
                return self.ck(-a[0])
            r = a[0]
            for x in a[1:]:
                r = self.ck(r - x)
            return r
        if op == '/':
            if n == 1:
                a = [1] + a
            r = a[0]
            for x in a[1:]:
                if x == 0:
                    raise Err()
                if r % x:
                    raise Skip()        # rationals are not supported
                r = self.ck(r // x)
            return r
        if op in ('=', '<', '>', '<=', '>='):
            if n < 2:
                raise Err()
            f = {'=': lambda x, y: x == y, '<': lambda x, y: x < y, '>': lambda x, y: x > y,
                 '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y}[op]
            return all(f(x, y) for x, y in zip(a, a[1:]))
        if op in ('max', 'min'):
            if n < 1:
                raise Err()
            return max(a) if op == 'max' else min(a)
        if op == 'gcd':
            if n < 2:
                return self.ck(abs(a[0])) if a else 0
            r = a[0]
            for x in a[1:]:
                r = self.ck(gcd(r, x))
            return r
        if op == 'lcm':
            r = 1
            for x in a:
                r = self.sk(abs(r * x) // gcd(r, x) if r and x else 0)
            return r
        if op in ('logand', 'bitwise-and', 'logior', 'bitwise-ior', 'logxor', 'bitwise-xor'):
            r = -1 if op.endswith('and') else 0
            for x in a:
                r = r & x if op.endswith('and') else r | x if op.endswith('ior') else r ^ x
            return r
        ar = FIXED[op]
        if n != ar:
            raise Err()
        if op in ('quotient', 'remainder', 'modulo'):
            x, y = a
            if y == 0:
                raise Err()
            return self.ck(tdiv(x, y)) if op == 'quotient' else x - y * tdiv(x, y) if op == 'remainder' else x % y
        if op == 'expt':
            x, y = a
            if y < 0:
                raise Err()
            if abs(x) > 1 and y > 64:
                raise Skip()
            return self.sk(x ** y)
        x = a[0]
        if op == 'abs':
            return self.ck(abs(x))
        if op == 'zero?':
            return x == 0
        if op == 'positive?':
            return x > 0
        if op == 'negative?':
            return x < 0
        if op == 'odd?':
            return x % 2 == 1
        if op == 'even?':
            return x % 2 == 0
        if op in ('number?', 'integer?'):
            return True
        if op in ('lognot', 'bitwise-not'):
            return ~x
        if op in ('bitwise-if', 'bitwise-merge'):
            return (a[0] & a[1]) | (~a[0] & a[2])
        if op in ('logtest', 'any-bits-set?'):
            return (a[0] & a[1]) != 0
        raise AssertionError(op)


FIXED = {'quotient': 2, 'remainder': 2, 'modulo': 2, 'expt': 2, 'abs': 1, 'zero?': 1, 'positive?': 1, 'negative?': 1, 'odd?': 1,
         'even?': 1, 'number?': 1, 'integer?': 1, 'lognot': 1, 'bitwise-not': 1, 'bitwise-if': 3, 'bitwise-merge': 3,
         'logtest': 2, 'any-bits-set?': 2}
NARY = ['+', '-', '*', '/', '=', '<', '>', '<=', '>=', 'max', 'min', 'gcd', 'lcm', 'logand', 'logior', 'logxor', 'bitwise-and',
        'bitwise-ior', 'bitwise-xor']
OPS = NARY * 2 + sorted(FIXED) + ['quotient', 'remainder', 'modulo'] * 2


def show(v):
    return '#t' if v is True else '#f' if v is False else str(v)


def expr(s, R, lo, hi):
    op = s.choice(OPS)
    if op in FIXED:
        n = FIXED[op]
        if s.bool(1, 40):
            n = max(0, n + s.choice([-1, 1]))
    else:
        n = s.weighted([(8, 2), (4, 3), (2, 1), (1, 0), (2, 4), (1, 6)])
    a = [num(s, lo, hi) for _ in range(n)]
    if op == 'expt' and n == 2:
        a = [s.range(-12, 12), s.range(-1, 62)]
    if op in '/' and n >= 2 and s.bool(3, 4):
        b = [x or 1 for x in a[1:]]
        p = s.range(-5, 5)
        for x in b:
            p *= x
        if lo <= p <= hi:
            a = [p] + b
    if op in ('=', '<=', '>=', '<', '>') and n >= 2 and s.bool():
        a = sorted(a, reverse=op in '>=' and op != '=')
        if s.bool(1, 3):
            a[-1] = a[0] if op == '=' else a[-1]
        if op == '=' and s.bool():
            a = [a[0]] * n
            if s.bool(1, 3):
                a[s.below(n)] += 1 if a[0] < hi else -1
    if op == '*' and s.bool(3, 4):
        a = [x if abs(x) < 2000000 else x % 70000 - 35000 for x in a]
    bad = None
    if n and op not in ('number?', 'integer?') and s.bool(1, 30):
        bad = s.choice(["'a", '"1"', '#t', "'()", '#\\1', '(list 1)'])
        at = s.below(n)
        if op in ('=', '<', '>', '<=', '>='):
            at = s.below(min(2, n))
    try:
        v = R.call(op, a)
        exp = '=> ' + show(v)
    except Err:
        exp = '!E'
    except Skip:
        return None
    lits = [str(x) for x in a]
    if bad:
        lits[at] = bad
        exp = '!E'
    k = s.below(8)
    if k <= 2:
        t = '(%s)' % ' '.join([op] + lits)
    elif k == 3:
        t = '(apply %s (list%s))' % (op, ''.join(' ' + x for x in lits))
    elif k == 4:
        m = s.below(n + 1)
        t = '(apply %s%s (list%s))' % (op, ''.join(' ' + x for x in lits[:m]), ''.join(' ' + x for x in lits[m:]))
    elif k == 5:
        vs = ['v%d' % i for i in range(n)]
        t = '(let (%s) (%s))' % (' '.join('(%s %s)' % p for p in zip(vs, lits)), ' '.join([op] + vs))
    elif k == 6:
        t = '((lambda (f . r) (apply f r)) %s)' % ' '.join([op] + lits)
    elif n:
        t = '(car (map %s))' % ' '.join([op] + ['(list %s)' % x for x in lits])
    else:
        t = '(let ((f %s)) (f))' % op
    return t, exp, op, (bad is None and (n > 2 or exp == '!E' or any(abs(x) > 1 << 30 for x in a)))


def gen(s):
    variant = s.weighted([(4, VARS[0]), (4, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    lo, hi = fixrange(variant)
    R = Ref(lo, hi)
    out, exp, tags, nt = [], [], [], False
    for _ in range(s.range(1, 30)):
        e = expr(s, R, lo, hi)
        if e:
            out.append(e[0])
            exp.append(e[1])
            tags.append(e[2])
            nt = nt or e[3]
    return Case('\n'.join(out), '\n'.join(exp + ['#DONE', '']), nt, tags=tags + [variant], variant=variant)


def check(c, env):
    r = env.run(c.text, '-', c.variant, preload='(use srfi-60)\n')
    if r.text() != c.expect:
        if r.done:
            for t, a, b in zip(c.text.split('\n'), c.expect.split('\n'), r.lines()):
                if a != b:
                    return '%s: expected %s but got %s' % (t, a, b)
        return 'expected %r but got %r %s' % (c.expect[-300:], r.text()[-300:], r.describe())


PARTS = [Part('expressions', gen, check, 40000, 1500000, variants=VARS)]
