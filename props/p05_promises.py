"""Promises, multiple values and binding forms against the reference interpreter."""
from vlib.engine import Part
from vlib.ctlcheck import make, check, VARS
from props.p01_eval import gen_scope

ID = 'P05'
RULE = 'the program forces a promise, passes multiple values or uses receive, and-let* or let-optionals*'
ASSUMPTIONS = ['vlib/ref.py is the reference semantics', 'zero or several values are only delivered to receivers (R5RS leaves other uses open)']


class G:
    def __init__(self, s):
        self.s, self.n, self.kinds = s, 0, set()
        self.vars = ['n', 'f', 'l']       # number, false, list
        self.np = 0
        self.thunks = []
        self.nh = 0

    def thunk(self):
        self.nh += 1
        self.kinds.add('captured')
        return 'h%d' % self.nh

    def body_of(self, d):
        s = self.s
        v = s.choice(self.vars)
        return s.choice(['%s', '%s', '(list %s)', '(begin (set! %s (list %s)) %s)']).replace('%s', v)

    def tr(self, e):
        self.n += 1
        return '(tr %d %s)' % (self.n, e)

    def atom(self):
        if self.thunks and self.s.bool(1, 3):
            return '(%s)' % self.s.choice(self.thunks)
        return self.s.choice(['0', '1', '2', '#t', "'a", '#f', "'()"] + self.vars)

    def expr(self, d):
        s = self.s
        if d <= 0:
            return self.atom() if s.bool(2, 3) else self.tr(self.atom())
        k = s.below(14)
        if k == 0:
            return self.tr(self.expr(d - 1))
        if k <= 2:
            return self.force(d)
        if k <= 4:
            return self.cwv(d)
        if k <= 6:
            return self.receive(d)
        if k <= 8:
            return self.andlet(d)
        if k <= 10:
            return self.letopt(d)
        if k == 11:
            return '(list %s)' % ' '.join(self.expr(d - 1) for _ in range(s.range(1, 3)))
        if k == 12:
            return '(let ((%s %s)) %s)' % (self.bind(), self.expr(d - 1), self.scoped(lambda: self.expr(d - 1)))
        return '(if %s %s %s)' % (self.expr(d - 1), self.expr(d - 1), self.expr(d - 1))

    def bind(self):
        v = self.s.choice(['x', 'y', 'z', 'n'])
        self.pending = [v]
        return v

    def scoped(self, f, new=None):
        old = self.vars
        self.vars = old + (new if new is not None else self.pending)
        r = f()
        self.vars = old
        return r

    # promises
    def force(self, d):
        s = self.s
        self.kinds.add('force')
        k = s.below(8)
        if k <= 3 and self.np:
            return '(force p%d)' % (s.below(self.np) + 1)
        if k == 4:
            e = self.expr(d - 1)
            return '(let ((q (delay %s))) (list (force q) (force q)))' % self.tr(e)
        if k == 5:
            return '(call/cc (lambda (k) (force (delay (begin %s (k %s))))))' % (self.tr('1'), self.expr(d - 1))
        if k == 6:
            return "(let ((q (delay (begin %s (car '()))))) (guard (e (#t %s)) (force q)) (guard (e (#t %s)) (force q)))" % (
                self.tr('1'), self.tr("'e1"), self.tr("'e2"))
        return '(force (delay %s))' % self.expr(d - 1)

    def promise_def(self, d):
        s = self.s
        self.np += 1
        i = self.np
        k = s.below(5)
        if k == 0:
            return '(define p%d (delay %s))' % (i, self.tr(self.expr(d)))
        if k == 1:
            # re-entrant
            self.kinds.add('re-entrant')
            return '(define c%d 0) (define x%d %d) (define p%d (delay (begin (set! c%d (+ c%d 1)) %s (if (> c%d x%d) c%d (force p%d)))))' % (
                i, i, s.below(4), i, i, i, self.tr('c%d' % i), i, i, i, i)
        if k == 2:
            return '(define c%d 0) (define p%d (delay (begin (set! c%d (+ c%d 1)) (if (< c%d %d) (raise c%d) %s))))' % (
                i, i, i, i, i, s.range(1, 3), i, self.expr(d - 1))
        if k == 3:
            # re-entrant, the inner force gives the value of the outer one
            self.kinds.add('re-entrant')
            return '(define b%d #t) (define p%d (delay (if b%d (begin (set! b%d #f) (force p%d) %s) %s)))' % (
                i, i, i, i, i, self.tr("'outer"), self.tr("'inner"))
        return '(define p%d (let ((n %d)) (delay (begin (set! n (+ n 1)) n))))' % (i, s.below(5))

    # values
    def producer(self, d):
        s = self.s
        n = s.weighted([(2, 1), (1, 0), (3, 2), (3, 3), (1, 4)])
        vs = ''.join(' ' + self.expr(d - 2) for _ in range(n))
        k = s.below(9)
        if k <= 2:
            return n, '(values%s)' % vs
        if k == 3:
            return n, '(apply values (list%s))' % vs
        if k == 4:
            return n, '(call/cc (lambda (k) (k%s)))' % vs
        if k == 5:
            return n, '(begin %s (values%s))' % (self.tr('0'), vs)
        if k == 6:
            return n, '(let ((u 1)) (if u (values%s) 2))' % vs
        if k == 7:
            return n, '(dynamic-wind (lambda () %s) (lambda () (values%s)) (lambda () %s))' % (self.tr('0'), vs, self.tr('0'))
        return n, '((lambda args (apply values args))%s)' % vs

    def formals(self, n):
        s = self.s
        names = ['u%d' % i for i in range(6)]
        k = s.below(6)
        if k <= 2:
            m = n
            if s.bool(1, 12):
                m = max(0, n + s.choice([-1, 1]))
            return names[:m], '(%s)' % ' '.join(names[:m])
        if k <= 4:
            m = s.below(n + 1)
            if m == 0:
                return ['us'], 'us'
            return names[:m] + ['us'], '(%s . us)' % ' '.join(names[:m])
        return ['us'], 'us'

    def use(self, new, d):
        s = self.s

        def f():
            e = self.tr('(list %s)' % ' '.join(new) if new else "'none")
            return '%s %s' % (e, self.expr(d - 1)) if s.bool() else e
        return self.scoped(f, new)

    def cwv(self, d):
        self.kinds.add('values')
        n, p = self.producer(d)
        if self.s.bool(1, 4):
            return '(call-with-values (lambda () %s) list)' % p
        names, fm = self.formals(n)
        return '(call-with-values (lambda () %s) (lambda %s %s))' % (p, fm, self.use(names, d))

    def receive(self, d):
        self.kinds.add('receive')
        n, p = self.producer(d)
        names, fm = self.formals(n)
        body = self.use(names, d)
        if self.s.bool(1, 4):
            body = '(define w %s) %s (list w)' % (self.atom(), body)
        return '(receive %s %s %s)' % (fm, p, body)

    def andlet(self, d):
        s = self.s
        self.kinds.add('and-let*')
        old, oldt = self.vars, self.thunks
        claws = []
        for _ in range(s.below(6)):
            k = s.below(7)
            if k == 6:
                h = self.thunk()
                claws.append('(%s (lambda () %s))' % (h, self.body_of(d)))
                self.thunks = self.thunks + [h]
            elif k <= 2:
                v = s.choice(['x', 'y', 'z', 'n'])
                claws.append('(%s %s)' % (v, self.tr(self.expr(d - 2))))
                self.vars = self.vars + [v]
            elif k == 3:
                claws.append('(%s)' % self.tr(self.expr(d - 2)))
            elif k == 4:
                claws.append(s.choice(self.vars))
            else:
                claws.append('((pair? %s))' % s.choice(self.vars))
        if s.bool(1, 25):
            claws.append(s.choice(['3', '(x 1 2)', '()', '(1 2)', '"s"']))
        body = ''.join(' ' + self.expr(d - 1) for _ in range(s.below(3)))
        if body and s.bool(1, 4):
            body = ' (define w (list %s))' % self.expr(d - 1) + body
        self.vars, self.thunks = old, oldt
        return '(and-let* (%s)%s)' % (' '.join(claws), body)

    def letopt(self, d):
        s = self.s
        self.kinds.add('let-optionals*')
        old, oldt = self.vars, self.thunks
        vs = '(list%s)' % ''.join(' ' + self.expr(d - 2) for _ in range(s.below(5)))
        bs, names = [], []
        cap = s.bool(1, 3)
        if cap:
            vs = '(list%s)' % ''.join(' ' + self.expr(d - 2) for _ in range(s.below(3)))
        for i in range(s.below(6)):
            if cap and i >= 2 and s.bool():
                h = self.thunk()
                bs.append('(%s (lambda () %s))' % (h, self.body_of(d)))
                self.thunks = self.thunks + [h]
                continue
            v = s.choice(['x', 'y', 'z', 'w'])
            bs.append('(%s %s)' % (v, self.tr(self.expr(d - 2))))
            self.vars = self.vars + [v]
            names.append(v)
        fm = ' '.join(bs)
        if s.bool(1, 3):
            fm = fm + ' . rest' if bs else 'rest'
            names.append('rest')
        if fm != 'rest':
            fm = '(%s)' % fm
        body = self.use(sorted(set(names)), d)
        self.vars, self.thunks = old, oldt
        return '(let-optionals* %s %s %s)' % (vs, fm, body)


def gen(s):
    g = G(s)
    out = ['(define (tr n v) (display "<") (display n) (display ">") v)', '(define n 5) (define f #f) (define l (list 1 2))']
    for _ in range(s.below(3)):
        out.append(g.promise_def(2))
    for _ in range(s.range(1, 4)):
        out.append(g.expr(s.range(1, 4)))
        if g.np and s.bool(1, 3):
            out.append('(force p%d)' % (s.below(g.np) + 1))
            g.kinds.add('force')
    return make(s, '\n'.join(out), bool(g.kinds), g.kinds)


def chk(c, env):
    return check(c, env, preload='(use srfi-2)\n(use srfi-8)\n')


def gen_sc(s):
    return gen_scope(s, True)


def chk_sc(c, env):
    if c.expect is None:
        return None
    return check(c, env, preload='(use srfi-2)\n(use srfi-8)\n(use srfi-34)\n')


PARTS = [Part('programs', gen, chk, 40000, 800000, variants=VARS),
         Part('scopes', gen_sc, chk_sc, 20000, 400000, variants=VARS)]
