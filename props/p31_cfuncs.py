"""C functions of every registrable type: arguments, evaluation, environment and tail position."""
from vlib.engine import Part
from vlib.gen import *
from vlib.lines import Lines, check_lines

ID = 'P31'
RULE = ('calls: a wrong number of arguments, a call through apply, map, scm_call or values, a local environment, a stopped '
        'reduction, or at least four arguments; tail: every loop (its depth exceeds the stack)')
ASSUMPTIONS = ['a variadic syntax is called with a proper list (checking that is left to the syntax)']
VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san', 'fatty-san']
GCS = ['compact-gcs', 'fatty-gcs']
PRE = '''(use srfi-6)
(define here 'top)
(define cnt (make-vector 12 0))
(define (tr i x) (vector-set! cnt i (+ 1 (vector-ref cnt i))) x)
(define (once n) (let ((l (vector->list cnt))) (vector-fill! cnt 0) l))
'''
PROCS = ['cp', 'cv', 'ct', 'cw']
SYNS = ['sf', 'sv', 'st', 'sw']


def datum(s, d=2):
    """(text as quoted datum, printed form)"""
    k = s.below(8 if d else 6)
    if k <= 1:
        t = str(s.range(-9, 99))
        return t, t
    if k == 2:
        t = s.choice(['a', 'b', 'here', 'list', 'quote', 'x', 'if'])
        return t, t
    if k == 3:
        t = write_str(''.join(s.choice('ab \\"é') for _ in range(s.below(4))))
        return t, t
    if k == 4:
        return s.choice([('#t', '#t'), ('#f', '#f'), ('#\\a', '#\\a'), ('()', '()')])
    if k == 5:
        return s.choice([('#(1 a)', '#(1 a)'), ('(1 . 2)', '(1 . 2)')])
    l = [datum(s, d - 1) for _ in range(s.below(3))]
    return '(%s)' % ' '.join(x[0] for x in l), '(%s)' % ' '.join(x[1] for x in l)


def actual(s):
    """an expression and the printed form of its value"""
    k = s.below(8)
    if k == 0:
        return '(+ %d 1)' % 4, '5'
    if k == 1:
        return '(list here 1)', '(%s 1)'
    t, v = datum(s)
    return "'" + t, v


def answer(name, n, vals, here):
    """what function name answers to the values, or None if it refuses them"""
    base, m = name[:2], int(name[2])
    rest = base in ('cv', 'cw', 'sv', 'sw')
    if n < m or (n > m and not rest):
        return None
    r = [name]
    if base not in ('cp', 'cv'):
        r.append(here)
    r += vals[:m]
    if rest:
        r.append('(%s)' % ' '.join(vals[m:]))
    return '(%s)' % ' '.join(r)


def reduce_(vals):
    if not vals:
        return '(r0)'
    if len(vals) == 1:
        return '(r1 %s)' % vals[0]
    a = vals[0]
    for v in vals[1:-1]:
        if v == 'stop':
            return '(rs %s)' % a
        a = '(rp %s %s)' % (a, v)
    return '(rl %s %s)' % (a, vals[-1])


def out(r):
    return '!E' if r is None else '=> ' + r


def spelled(s, name):
    return s.choice(['', '', 'x', 'y', 'z' if name in ('cp2', 'sw1') else '']) + name


def gen_calls(s):
    v = s.weighted([(5, VARS[0]), (4, VARS[1]), (1, VARS[2]), (1, VARS[3]), (1, VARS[4]), (1, GCS[0]), (1, GCS[1])])
    L = Lines()
    for _ in range(3 + s.below(8)):
        m = s.below(6)
        k = s.below(14)
        local = s.bool(1, 3)
        here = 'inner' if local else 'top'
        wrap = '(let ((here (quote inner))) %s)' if local else '%s'
        if k <= 4:                              # a direct call of a procedure
            f = s.choice(PROCS) + str(m)
            n = m + s.choice([0, 0, 0, 1, 2, -1, 5])
            n = max(n, 0)
            a = [actual(s) for _ in range(n)]
            vals = [x[1].replace('%s', here) for x in a]
            r = answer(f, n, vals, here)
            L.add(wrap % '(%s%s)' % (spelled(s, f), ''.join(' (tr %d %s)' % (j, x[0]) for j, x in enumerate(a))),
                  out(r), f, n >= 4 or local or r is None)
            if r is not None:
                L.add('(once 0)', '=> (%s)' % ' '.join(['1'] * n + ['0'] * (12 - n)))
            else:
                L.add('(length (once 0))', '=> 12')
        elif k <= 7:                            # a syntax
            f = s.choice(SYNS) + str(m)
            n = max(m + s.choice([0, 0, 0, 1, 2, -1, 5]), 0)
            a = [datum(s) for _ in range(n)]
            r = answer(f, n, [x[1] for x in a], here)
            L.add(wrap % '(%s%s)' % (spelled(s, f), ''.join(' ' + x[0] for x in a)), out(r), f, n >= 4 or local or r is None)
        elif k == 8:                            # the reduction operator
            n = s.below(7)
            a = [s.choice([("'stop", 'stop'), ('1', '1'), ("'(2)", '(2)'), ('here', here)]) for _ in range(n)]
            e = ''.join(' (tr %d %s)' % (j, x[0]) for j, x in enumerate(a))
            r = reduce_([x[1] for x in a])
            if s.bool():
                L.add(wrap % '(c-reduce%s)' % e, '=> ' + r, 'reduce', n >= 3)
            else:
                L.add(wrap % '(%s)' % s.choice(['apply c-reduce (list%s)', 'c-call c-reduce (list%s)']) % e, '=> ' + r,
                      'reduce apply', n >= 3)
            L.add('(once 0)', '=> (%s)' % ' '.join(['1'] * n + ['0'] * (12 - n)))
        elif k <= 11:                           # a procedure called by others
            f = s.choice(PROCS) + str(m)
            n = max(m + s.choice([0, 0, 0, 1, 2, -1, 5]), 0)
            a = [datum(s) for _ in range(n)]
            vals = [x[1] for x in a]
            r = answer(f, n, vals, 'top')
            ar = ["'" + x[0] for x in a]
            how = s.below(6)
            g = spelled(s, f)
            if how == 0 or (how == 4 and n == 0):
                j = s.below(n + 1)
                e = '(apply %s %s (list %s))' % (g, ' '.join(ar[:j]), ' '.join(ar[j:]))
            elif how == 1:
                e = '(c-call %s (list %s))' % (g, ' '.join(ar))
            elif how == 2:
                e = '(call-with-values (lambda () (values %s)) %s)' % (' '.join(ar), g)
                if n == 1:
                    e = '(call-with-values (lambda () %s) %s)' % (ar[0], g)
            elif how == 3:
                e = '(let ((p %s)) (p %s))' % (g, ' '.join(ar))
            elif how == 4:
                e = '(map %s %s)' % (g, ' '.join('(list %s)' % x for x in ar))
                r = r and '(%s)' % r
            else:
                e = '(let-syntax ((m (syntax-rules () ((_ . x) (%s . x))))) (m %s))' % (g, ' '.join(ar))
                if not v.startswith('hygienic'):
                    e = '((lambda x (apply %s x)) %s)' % (g, ' '.join(ar))
            L.add(e, out(r), f, True)
        elif k == 12:                           # misuse
            f = s.choice(SYNS) + str(m)
            e = s.choice(['(apply %s (list %s))' % (f, ' '.join(['1'] * m)), '(map %s \'(1))' % f, '(c-call %s (list))' % f,
                          '(let ((q %s)) 1)' % f, '(procedure? %s)' % f,
                          '(cp%d %s . 3)' % (m, ' '.join(['1'] * m)), '(cv%d %s . 3)' % (m, ' '.join(['1'] * m)),
                          '(cw%d %s . 3)' % (m, ' '.join(['1'] * m)), '(ct%d %s . 3)' % (m, ' '.join(['1'] * m)),
                          '(sf%d %s . 3)' % (m, ' '.join(['1'] * m)),
                          '(c-reduce 1 2 . 3)', '(c-reduce 1 . 3)', '(c-reduce . 3)', "(c-reduce 1 'stop 2 . 3)"])
            L.add(e, '!E', 'misuse', True)
        else:
            f = s.choice(PROCS) + str(m)
            x, y = s.choice([('(procedure? %s)' % spelled(s, f), '#t'),
                             ('(eq? %s y%s)' % (f, f), '#t'), ('(eq? %s x%s)' % (f, f), '#f'),
                             ("(c-bind q 5 (let ((here 7)) (sw0 q)))", '(sw0 7 (q))'),
                             ("(c-bind here 5 (ct1 (+ here 1)))", '(ct1 5 6)'),
                             ("(c-bind here 5 (sf1 here))", '(sf1 5 here)'),
                             ("(list (c-bind here 5 (c-bind here (+ here 1) (st0))) here)", '((st0 6) top)'),
                             ("(c-asis '(car '()))", "(car (quote ()))"), ("(apply c-asis '((car 1)))", '(car 1)'),
                             ("(c-eval '(list here 1))", '(top 1)'), ("(let ((here 2)) (c-eval 'here))", 'top'),
                             ("(map c-eval '((+ 1 2) here))", '(3 top)'), ("(let ((x 1)) (c-tail (begin (set! x 2) x)))", '2'),
                             ("(let ((x 1)) (+ (c-tail x) (c-tail (+ x 1))))", '3')])
            L.add(x, '=> ' + y, 'forms', True)
    return L.case(tags=[v], variant=v)


BODY = ['(c-tail (%s))', '(c-bind q n (%s))', '(c-eval (list (quote %s)))', '(c-tail (c-tail (if #t (%s) 1)))',
        '(c-bind r 1 (c-tail (begin 1 (%s))))', '(apply c-eval (list (list (quote %s))))', '(let ((z n)) (c-tail (and z (%s))))']


def gen_tail(s):
    """loops whose calls pass through the tail positions of C functions"""
    v = s.choice(VARS[:3])
    n = 3000 + s.below(4000)
    k = 1 + s.below(3)
    L = Lines()
    for j in range(k):
        L.add('(define (f%d) (set! n (- n 1)) (if (<= n 0) (quote end%d) %s))' % (j, j, s.choice(BODY) % ('f%d' % ((j + 1) % k))),
              '=> (f%d)' % j)
    L.add('(define n %d)' % n, '=> n')
    L.add('(f0)', '=> end%d' % ((n - 1) % k), 'loop', True)
    return L.case(tags=[v, 'k=%d' % k], variant=v)


def check_calls(c, env):
    return check_lines(c, env, c.variant.endswith('-gcs') and 'g5' or '-', preload=PRE, prog='vrunapi', cpu=30)


def check_tail(c, env):
    return check_lines(c, env, '-', preload=PRE, prog='vrunapi', cpu=60, stack_mb=1, heap='16384,8192,64,1')


PARTS = [Part('calls', gen_calls, check_calls, 8000, 200000, variants=VARS + GCS),
         Part('tail', gen_tail, check_tail, 400, 8000, variants=VARS[:3])]
