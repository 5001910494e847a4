"""Core evaluator against the definitional interpreter vlib/ref.py."""
from vlib.engine import Case, Part
from vlib.gen import fixrange
from vlib.proggen import Prog
from vlib.ref import run_program, Unmodelled

ID = 'P01'
RULE = ('the program stays in the modelled domain and evaluates at least one binding form, closure call or loop; '
        'distinct program texts')
ASSUMPTIONS = ['vlib/ref.py is the reference semantics: left-to-right operand order, escape-only continuations',
               'programs whose reference run leaves the modelled domain (fixnum overflow, very long runs) are skipped']
VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san']


def gen(s, depth=None):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2]), (1, VARS[3])])
    g = Prog(s, bad=s.choice([0, 4, 12]))
    text = g.program(depth or s.range(2, 5))
    try:
        exp = ''.join(run_program(text, fixrange(variant)))
    except Unmodelled as e:
        return Case(text, None, False, tags=['unmodelled: %s' % e], variant=variant, mode='-')
    return Case(text, exp, any(w in text for w in ('(lambda', '(let', '(do ')), variant=variant,
                mode=s.choice(['-', 'f']), tags=sorted(g.kinds) + [variant] + (['error'] if '!E' in exp else []))


def check(c, env):
    if c.expect is None:
        return None
    r = env.run(c.text, c.mode, c.variant)
    if not r.done:
        return 'did not complete: %s\n%s' % (r.describe(), r.text()[-500:])
    if r.text() != c.expect + '#DONE\n':
        return 'expected %r but got %r (%s)' % (c.expect, r.text()[:2000], r.err[:300])


# ---- few names, every binding form: any expression at all, errors included
class Scope:
    def __init__(self, s, names, ext=False):
        self.s, self.names, self.k, self.ext = s, names, 0, ext

    def name(self):
        return self.s.choice(self.names)

    def const(self):
        self.k += 1
        return str(self.k)

    def expr(self, d):
        s = self.s
        k = s.below(24) if d > 0 else s.below(4)
        if k == 0:
            return self.const()
        if k <= 3:
            return self.name()
        e = lambda: self.expr(d - 1)
        if self.ext and s.bool(1, 3):
            return self.more(d, e)
        if k <= 5:
            return '(lambda %s %s)' % (self.formals(), self.body(d - 1))
        if k <= 7:
            return '((lambda %s %s)%s)' % (self.formals(), self.body(d - 1), ''.join(' ' + e() for _ in range(s.below(4))))
        if k == 8:
            return '(%s%s)' % (self.name(), ''.join(' ' + e() for _ in range(s.below(4))))
        if k <= 10:
            return '(let (%s) %s)' % (self.binds(d), self.body(d - 1))
        if k <= 12:
            return '(let %s (%s) %s)' % (self.name(), self.binds(d), self.body(d - 1))
        if k == 13:
            return '(let* (%s) %s)' % (self.binds(d), self.body(d - 1))
        if k <= 15:
            return '(letrec (%s) %s)' % (self.binds(d, s.bool(3, 4)), self.body(d - 1))
        if k == 16:
            vs = [n for n in s.shuffle(self.names) if n != 'it'][:s.below(3)]
            bs = ' '.join('(%s %s%s)' % (n, e(), ' ' + e() if s.bool() else '') for n in vs)
            return '(do ((it 0 (+ it 1)) %s) ((= it %d) %s) %s)' % (bs, s.below(4), e(), ' '.join(e() for _ in range(s.below(2))))
        if k == 17:
            return '(begin %s (set! %s %s) %s)' % (e(), self.name(), e(), e())
        if k == 18:
            return '(set! %s %s)' % (self.name(), e()) if s.bool(1, 4) else '(let ((%s %s)) (set! %s %s) %s)' % (self.name(), e(), self.name(), e(), e())
        if k == 19:
            return '(list %s %s)' % (e(), e())
        if k == 20:
            return s.choice(['(if %s %s %s)', '(cond (%s %s) (else %s))', '(cond ((= it0 1) %s) (%s => (lambda (c) %s)))', '(case %s ((1 2 3) %s) (else %s))', '(and %s %s %s)', '(or %s %s %s)']) % (e(), e(), e())
        if k == 21:
            return '(force (delay %s))' % e()
        if k == 22:
            return '(call/cc (lambda (%s) %s))' % (self.name(), self.body(d - 1))
        return '`(%s ,%s ,@(list %s))' % (self.const(), e(), e())

    def more(self, d, e):
        """the binding forms of SRFI 2, 8 and 34 and of the implementation"""
        s = self.s
        k = s.below(5)
        if k == 0:
            return '(receive %s (values%s) %s)' % (self.formals(), ''.join(' ' + e() for _ in range(s.below(4))), self.body(d - 1))
        if k == 1:
            cl = ['(%s %s)' % (self.name(), e()) if s.bool(2, 3) else self.name() if s.bool() else '((pair? %s))' % self.name() for _ in range(s.below(4))]
            return '(and-let* (%s) %s)' % (' '.join(cl), self.body(d - 1))
        if k == 2:
            bs = s.shuffle(self.names)[:s.below(4)]
            rest = self.name() if s.bool(1, 3) else None
            if rest in bs:
                rest = None
            fm = '(%s%s)' % (' '.join('(%s %s)' % (n, e()) for n in bs), ' . ' + rest if rest and bs else '')
            return '(let-optionals* `(%s) %s %s)' % (''.join(' ,' + e() for _ in range(s.below(4))), fm, self.body(d - 1))
        if k == 3:
            n = self.name()
            # an error object is a pair here, which the model does not say
            return '(guard (%s ((%%%%error-object? %s) 5) %s) %s)' % (n, n, s.choice(['(#t %s)', '((pair? %s) 1)', '(%s => list)', '(%s) (else 5)']) % e(), s.choice(['(raise %s)', '(begin %s)']) % e())
        return '(call-with-values (lambda () (values %s)) (lambda %s %s))' % (' '.join(e() for _ in range(s.below(3))), self.formals(), self.body(d - 1))

    def formals(self):
        s = self.s
        n = [self.name() for _ in range(s.below(3))]
        # a name twice is not specified for lambda
        n = sorted(set(n), key=n.index)
        k = s.below(6)
        if k == 0:
            return self.name()
        if k == 1 and n:
            return '(%s . %s)' % (' '.join(n[:-1]), n[-1]) if len(n) > 1 else n[-1]
        return '(%s)' % ' '.join(n)

    def binds(self, d, procs=False):
        s = self.s
        out, seen = [], set()
        for _ in range(s.below(4)):
            n = self.name()
            if n in seen:
                continue
            seen.add(n)
            out.append('(%s %s)' % (n, '(lambda %s %s)' % (self.formals(), self.body(d - 2)) if procs else self.expr(d - 1)))
        return ' '.join(out)

    def body(self, d):
        s = self.s
        out = []
        if s.bool(1, 3):
            for _ in range(s.range(1, 2)):
                n = self.name()
                k = s.below(4)
                df = '(define %s %s)' % (n, self.expr(d - 1)) if k <= 1 else '(define (%s . %s) %s)' % (n, self.formals(), self.body(d - 2))
                out.append('(begin %s)' % df if k == 1 else df)
        out += [self.expr(d) for _ in range(s.weighted([(6, 1), (2, 2)]))]
        return ' '.join(out)


def gen_scope(s, ext=False):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (4, VARS[2]), (1, VARS[3])])
    g = Scope(s, s.choice([['a', 'b', 'c'], ['a', 'b'], ['a', 'b', 'c', 'list'], ['a', 'b', '+', 'it'], ['f', 'x', 'list', 'vector'],
                           ['a', 'b'] + s.shuffle(['if', 'let', 'begin', 'define', 'lambda', 'set!', 'cond', 'case', 'and', 'or', 'let*', 'letrec', 'do', 'delay', 'list'])[:2 * (not ext)]]), ext)
    out = ['(define it0 1)', '(define (show v) (cond ((procedure? v) (quote proc)) ((pair? v) (cons (show (car v)) (show (cdr v)))) (else v)))']
    if s.bool(3, 4):
        for n in g.names[:3]:
            if n in ('a', 'b', 'c', 'f', 'x'):
                out.append('(begin (define %s %s) 0)' % (n, s.choice(['100', '(lambda (x) x)', '(lambda x (car x))', '(lambda () 200)'])))
    for _ in range(s.range(1, 5)):
        e = g.expr(s.range(2, 5))
        k = s.below(6)
        out.append('(begin (define %s (let () %s)) 0)' % (g.names[s.below(2)], e) if k == 0 else '(show (let () %s))' % e)
    text = '\n'.join(out)
    try:
        exp = ''.join(run_program(text, fixrange(variant), 4000))
    except Unmodelled as e:
        return Case(text, None, False, tags=['unmodelled: %s' % e], variant=variant, mode='-')
    return Case(text, exp, exp.count('=> ') > 2, variant=variant, mode=s.choice(['-', 'f']), tags=[variant] + (['error'] if '!E' in exp else ['value']))


# ---- every way to make a frame: number of arguments, a frame for each iteration, values that look like code
def arity(s):
    k = s.below(9) if s.bool(9, 10) else s.choice([15, 16, 17, 31, 32, 63, 64, 127, 128, 129, 255, 256, 257, 300])
    names = ['p%d' % i for i in range(k)]
    rest = s.choice([None, None, 'r'])
    fm = '(%s)' % ' '.join(names) if rest is None else '(%s . r)' % ' '.join(names) if k else 'r'
    body = '(list %s)' % ' '.join(s.shuffle(names + ([rest] if rest else [])))
    m = s.weighted([(3, k), (2, k + 1), (2, max(0, k - 1)), (1, k + 2), (1, s.below(11))])
    a = [s.choice(['%d' % (i + 1), "'s%d" % i, '(+ %d 1)' % i, '(list %d)' % i]) for i in range(m)]
    args = ' '.join(a)
    lam = '(lambda %s %s)' % (fm, body)
    k = s.below(8)
    if k == 0:
        return '(%s %s)' % (lam, args)
    if k == 1:
        return "(let () (define (f . %s) %s) (f %s))" % (fm, body, args)
    if k == 2:
        i = s.below(m + 1)
        return '(apply %s %s (list %s))' % (lam, ' '.join(a[:i]), ' '.join(a[i:]))
    if k == 3:
        return '(call-with-values (lambda () (values %s)) %s)' % (args, lam)
    if k == 4 and m:
        return '(map %s %s)' % (lam, ' '.join('(list %s %s)' % (x, x) for x in a))
    if k == 5:
        return '(letrec ((g %s)) (g %s))' % (lam, args)
    if k == 6 and rest is None:
        n = s.below(4)
        return '(let lp (%s (n %d)) (if (= n 0) %s (lp %s (- n 1))))' % (
            ' '.join('(%s %d)' % (x, i) for i, x in enumerate(names)), n, body, args)
    return '(let ((h %s)) (h %s))' % (lam, args)


def captured(s):
    """closures made in each iteration, used and changed during and after the loop"""
    vs = ['u', 'v', 'w'][:s.range(1, 3)]
    x = lambda: s.choice(vs + ['%d' % s.range(1, 9), '(+ %s 1)' % s.choice(vs), '(+ %s n)' % s.choice(vs)])
    push = lambda v: '(set! cs (cons (cons (lambda () %s) (lambda (y) (set! %s y))) cs))' % (v, v)

    def act():
        k = s.below(4)
        if k <= 1:
            return push(s.choice(vs))
        if k == 2:
            return '(set! %s %s)' % (s.choice(vs), x())
        return '(if (pair? cs) ((cdr (%s cs)) %s) 0)' % (s.choice(['car', 'car', "(lambda (l) (list-ref l (quotient (length l) 2)))"]), x())
    cmds = ' '.join(act() for _ in range(s.range(1, 3)))
    lim = s.range(1, 4)
    k = s.below(4)
    if k <= 1:
        bs = ['(%s %s%s)' % (v, s.range(10, 30), s.choice(['', '', ' ' + v, ' ' + x()])) for v in vs]
        r = '(do (%s) ((begin (set! n (+ n 1)) (> n %d)) %s %s (list %s)) %s)' % (
            ' '.join(bs), lim, act() if s.bool() else '', act() if s.bool() else '', ' '.join(vs), cmds)
    elif k == 2:
        r = '(let lp (%s) (set! n (+ n 1)) %s (if (> n %d) (list %s) (lp %s)))' % (
            ' '.join('(%s %d)' % (v, s.range(10, 30)) for v in vs), cmds, lim, ' '.join(vs), ' '.join(x() for v in vs))
    else:
        r = '(let* ((f (lambda (%s) (set! n (+ n 1)) %s (list %s)))) (list %s))' % (
            ' '.join(vs), cmds, ' '.join(vs), ' '.join('(f %s)' % ' '.join('%d' % s.range(10, 30) for v in vs) for _ in range(lim)))
    return ('(let* ((n 0) (cs (list)) (r %s) (a (map (lambda (c) ((car c))) cs))) (for-each (lambda (c) ((cdr c) n) (set! n (+ n 7))) cs) '
            '(list r n a (map (lambda (c) ((car c))) cs)))' % r)


def codelike(s):
    """values that look like code are not evaluated a second time; neither do local names change the forms made inside"""
    v = lambda: s.choice(["'sy", "'quote", "''sy", "'(car sy)", "'(error)", "(list 'quote 'sy)", "(list)", "'(sy)", '"st"', '5',
                          '#\\a', '(vector 1 (list))', '#t', '#f', "'lambda", "'(lambda (x) x)", "'(begin)", 'pr'])
    fn = lambda: s.choice(['list', '(lambda (x) (list x))', '(lambda x x)'])
    loc = s.choice(['quote', 'lambda', 'list', 'sy', 'apply', 'values', 'pr', 'begin', 'define'])
    val = s.choice(['100', '(lambda (a) 200)', '-'])
    k = s.below(10)
    a, f = v(), fn()
    if k <= 1:
        e = '(cond (#f 1) (%s => %s) (else 3))' % (s.choice(['x', '(car (list x))']), 'fn')
    elif k == 2:
        e = '(cond (x) (else 3))'
    elif k == 3:
        e = '(apply fn x %s)' % s.choice(['(cons x (cons x nil))', 'nil'])
    elif k == 4:
        e = '(call-with-values (lambda () (%s x)) fn)' % s.choice(['(lambda (y) y)', 'car1'])
    elif k == 5:
        e = '(map fn (cons x (cons x nil)))'
    elif k == 6:
        e = '(or #f x)' if s.bool() else '(and #t x)'
    elif k == 7:
        e = '(let lp ((y x) (n 0)) (if (= n 2) (fn y) (lp y (+ n 1))))'
    elif k == 8:
        e = '(force (delay x))'
    else:
        e = '(case 1 ((1) x) (else 2))'
    return "(let ((x %s) (fn %s) (nil (list)) (car1 car)) (let ((%s %s)) %s))" % (a, f, loc, val, e)


def gen_frame(s):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (4, VARS[2]), (1, VARS[3])])
    out = ['(define sy 66)', '(define (pr . x) x)',
           '(define (show v) (cond ((procedure? v) (quote proc)) ((pair? v) (cons (show (car v)) (show (cdr v)))) (else v)))']
    tags = [variant]
    for _ in range(s.range(3, 8)):
        f = s.choice([arity, captured, codelike])
        tags.append(f.__name__)
        out.append('(show %s)' % f(s))
    text = '\n'.join(out)
    try:
        exp = ''.join(run_program(text, fixrange(variant), 8000))
    except Unmodelled as e:
        return Case(text, None, False, tags=['unmodelled: %s' % e], variant=variant, mode='-')
    return Case(text, exp, True, variant=variant, mode=s.choice(['-', 'f']), tags=tags + (['error'] if '!E' in exp else []))


PARTS = [Part('programs', gen, check, 36000, 700000, variants=VARS),
         Part('scopes', gen_scope, check, 20000, 500000, variants=VARS),
         Part('frames', gen_frame, check, 6000, 200000, variants=VARS)]
