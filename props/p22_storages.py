"""The same program behaves the same under every storage, optimisation and GC timing."""
import re

from vlib.engine import Part, Case
from . import p20_builtins as p20

ID = 'P22'
RULE = 'at least two forms print a value, and two calls are nested'
ASSUMPTIONS = ['not compared: integers beyond the range of compact, eq? on numbers and chars, mutation of list literals, hash-by-identity, addresses in unreadable representations']
VARS = ['compact-opt', 'fatty-opt']
THIRD = [('hygienic-opt', '-'), ('compact-gcs', 'g'), ('fatty-gcs', 'g'), ('compact-san', '-'), ('fatty-san', '-'), ('hygienic-san', '-')]

EXCL = set('''eq? memq assq expt lcm fixnum-width greatest-fixnum least-fixnum load-path %%system-load-path sscm-version %%require-module require load provide %%set-current-input-port! %%set-current-output-port!
              %%string-reconstruct! %%pair-mutable? interaction-environment symbol-bound? open-output-file call-with-output-file with-output-to-file with-input-from-file circular-list?
              exit %%current-environment'''.split())
NAMES = sorted(n for n in p20.FUNS if n not in EXCL)
LIBS = sorted(n for n in p20.LIBS if not n.startswith('lset') and n not in ('list=', 'hash-by-identity', 'make-list', 'hash', 'circular-list'))
CALLABLE = NAMES + LIBS
POOL = [(e, t) for e, t in p20.POOL if not e.startswith("'(") and e not in ('(interaction-environment)', 'of', 'pf', 'eo', 'call/cc', 'kx', 'eval')] + [('(list 1 2 3)', 'lp'), ('(list + 1 2)', 'lp'), ('(cons 1 2)', 'pl'),
        ('(list 3 1 2)', 'lp'), ('(list "b" "a")', 'lp'), ('(vector 3 1 2)', 'v'), ("(list 'a 'b)", 'lp'), ('(lambda (x) (list x x))', 'f'), ('(lambda (a b) (cons a b))', 'f'), ('(lambda (x) (< x 2))', 'f'), ('<', 'f'), ('+', 'f'), ('-1', 'i'),
        ('equal?', 'f'), ('(lambda (a b . c) (list c b a))', 'f'), ('ht', '?')]
PRE = p20.PRE_LIB + r'''
(define (show v) (write/ss v) (display " "))
(define (out th)
  (guard (e (#t (display "ERR ") (if (%%error-object? e) (begin (write/ss (cdr e)) (%%inspect-error e)) (write/ss e)))) (call-with-values th (lambda l (for-each show l))))
  (guard (e (#t 0)) (%%set-current-output-port! stdo))
  (newline stdo))
'''


def arg(s, k, d, i, noref):
    if d > 0 and s.bool(1, 3):
        return call(s, d - 1, i)
    if i and not noref and s.bool(1, 6):
        return 'r%d' % s.below(i)
    pool = POOL
    if k not in ('any', '.') and s.bool(19, 20):
        pool = [e for e in pool if k in e[1]] or pool
    return s.choice(pool)[0]


# atoms that agree in some of their bits
NEAR = [['#\\A', '#\\a', '#\\x141', '#\\x10041', '#\\x100041', '(string-ref "A" 0)', '(integer->char 65)'], ['#\\x3042', '#\\x13042', '#\\x0042', '(string-ref su 1)', '(char-upcase #\\x3042)'],
        ['1', '4294967297', '281474976710657', '-1', '(- 2 1)', '(+ 4294967296 1)'], ['0', '4294967296', '(- 5 5)', '#f', "'()"], ['-3', '4294967293', '281474976710653', '(- 0 3)'],
        ['#\\x1', '1', '#t', '"\\x1;"'], ["'foo", "'Foo", '"foo"', '(string->symbol "foo")', '(string->symbol "Foo")'], ['"abc"', 'sm', '"ABC"', '"abd"', '(substring "abcd" 0 3)', '(string-append "ab" "c")'],
        ['(list 1 2)', '(list 1 4294967298)', '(vector 1 2)', '(cons 1 2)', '(list 1 2 3)'], ['(vector #\\a)', '(vector "a")', '(vector #\\x10061)', '(list #\\a)'], ['eof', 'und', "'()", '#f', '(if #f #f)']]


def relation(s):
    f = s.choice(NEAR)
    a, b = s.choice(f), s.choice(f)
    k = s.below(7)
    if k <= 1:
        return '(%s %s %s)' % (s.choice(['eqv?', 'equal?', 'eqv?', 'equal?', 'list=']) if k else 'eqv?', a, b)
    if k == 2:
        l = [s.choice(f) for _ in range(s.range(1, 4))]
        return '(%s %s (list %s))' % (s.choice(['memv', 'member']), a, ' '.join(l))
    if k == 3:
        l = ['(list %s %d)' % (s.choice(f), j) for j in range(s.range(1, 4))]
        return '(%s %s (list %s))' % (s.choice(['assv', 'assoc']), a, ' '.join(l))
    if k == 4:
        l = [x for x in f if x[0] not in '("\'e' and x not in ('sm', 'und')]
        if l:
            return '(case %s ((%s) 1) ((%s %s) 2) (else 3))' % (a, s.choice(l), s.choice(l), s.choice(l))
    if k == 5:
        return '(delete-duplicates (list %s) %s)' % (' '.join(s.choice(f) for _ in range(4)), s.choice(['eqv?', 'equal?']))
    return '(equal? (%s %s 5) (%s %s 5))' % (s.choice([('list', a, 'list', b), ('vector', a, 'vector', b), ('cons', a, 'cons', b)]))


def call(s, d, i):
    if s.bool(1, 12):
        return relation(s)
    if s.bool(1, 3):
        n = s.choice(LIBS)
        cnt = s.range(1, 4)
        t = [s.choice(['f', 'l', 'v', 'i', 'any', 'any']) for _ in range(cnt)]
        if n.startswith('vector') or n.startswith('reverse-v'):
            t = [s.weighted([(3, 'v'), (1, 'f'), (2, 'i'), (1, 'any')]) for _ in range(cnt)]
        elif n.startswith('hash-table'):
            t[0] = '?'
        elif s.bool(3, 4):
            t = ['l'] * cnt
            if s.bool():
                t[s.below(cnt)] = 'f'
            if s.bool(1, 4):
                t[s.below(cnt)] = 'i'
    else:
        n = s.choice(NAMES)
        a = p20.FUNS[n]
        lo = a if a >= 0 else -a - 1
        cnt = lo if s.bool(30, 31) else s.range(0, 5)
        if a < 0 and s.bool():
            cnt = lo + s.range(0, 2)
        g = p20.SIG.get(n, '')
        t = []
        for j in range(cnt):
            k = g[j] if j < len(g) and g[j] != '*' else g[-2] if g[-1:] == '*' else 'any'
            if k == '.' or s.bool(1, 20):
                k = 'any'
            t.append(k)
    noref = n in ('*', 'make-string', 'make-vector', 'make-list', 'iota', 'list-tabulate', 'string->number')
    return '(%s%s)' % (n, ''.join(' ' + (s.choice(['0', '1', '2', '3', '5', 'car', '-1']) if noref and n != 'string->number' and j == 0 else arg(s, k, 0 if noref else d, i, noref)) for j, k in enumerate(t)))


def gen(s):
    prog = []
    nested = 0
    for i in range(s.range(1, 7)):
        d = s.range(0, 2)
        e = call(s, d, i)
        nested += e.count('(') > 1
        prog.append('(out (lambda () (let ((v %s)) (set! r%d v) v)))' % (e, i))
    v, m = s.choice(THIRD)
    if m == 'g':
        m = 'g%d' % s.choice([3, 7, 20, 100])
    return Case('\n'.join(prog), None, len(prog) > 1 and nested > 0, tags=[v], third=(v, m))


ADDR = re.compile(rb'0x[0-9a-f]+')


def norm(r):
    o = ADDR.sub(b'0x', r.out)
    return o, ADDR.sub(b'0x', r.err)


def check(c, env):
    ref = None
    for v, m in [(x, '-') for x in VARS] + [c.third]:
        r = env.run(c.text, m, v, cpu=4, preload=PRE, cwd=env.dir())
        if r.timeout or b'memory exhausted' in r.err:
            return None
        if not r.done and (r.sig == 11 and v.endswith('opt') or b'stack-overflow' in r.err):
            return None     # endless recursion; P20 and P21 judge crashes
        if not r.done:
            return '%s %s: the interpreter stopped: %s' % (v, m, r.describe())
        o = norm(r)
        if ref is None:
            ref = o
        elif o != ref:
            a, b = ref, o
            k = 0 if a[0] != b[0] else 1
            la, lb = a[k].split(b'\n'), b[k].split(b'\n')
            for x, y in zip(la + [b'(end)'], lb + [b'(end)']):
                if x != y:
                    return '%s prints %r but %s %s prints %r' % (VARS[0], x.decode('utf-8', 'replace')[:600], v, m, y.decode('utf-8', 'replace')[:600])
    return None


PARTS = [Part('calls', gen, check, 8000, 300000, variants=VARS + [t[0] for t in THIRD], batch=20)]
