"""Random control-flow programs: call/cc, dynamic-wind, handlers, guard, raise."""
import re
RENAMED = ['cnt', 'saved1', 'k1', 'k2', 'e', 'v', 'k3', 'hh', 'kh', 'kv', 'saved2', 'x']
INTERNAL = ['condition', 'body', 'guard-k', 'handler-k', 'lex-env', 'cond-catch', 'thunk', 'handler', 'before', 'after',
            'reraise', 'obj', 'env', 'ret']
TOKEN = re.compile(r'"(?:[^"\\\\]|\\\\.)*"|[^\s()\'"]+')


class Ctl:
    def __init__(self, s, wind=4, exc=4, vals=2):
        self.s, self.w, self.x, self.vals = s, wind, exc, vals
        self.n = 0
        self.ks = []          # continuation variables whose extent may be live here
        self.saved = 0
        self.kinds = set()

    def tid(self):
        self.n += 1
        return self.n

    def t(self, e=None):
        return '(tr %d %s)' % (self.tid(), e if e is not None else self.const())

    def const(self):
        return self.s.choice(['0', '1', '7', "'a", '#f', '#t', "'(1 2)", '"s"'])

    def pure(self):
        """a self-contained expression without effects outside"""
        k = self.s.below(4)
        if k == 0:
            return self.const()
        if k == 1:
            return self.t()
        if k == 2:
            return '(call/cc (lambda (kk) (tr %d (kk %s))))' % (self.tid(), self.const())
        if self.x:
            return '(guard (e (#t %s)) (raise %s))' % (self.t('e'), self.const())
        return self.t()

    def expr(self, d):
        s = self.s
        if d <= 0:
            return self.t() if s.bool() else self.const()
        opts = [(2, self.const), (3, lambda: self.t(self.expr(d - 1))), (3, lambda: self.e_cc(d)),
                (3, lambda: self.e_throw(d)), (self.w, lambda: self.e_wind(d)), (2, lambda: self.e_begin(d)),
                (1, lambda: '(list %s)' % ' '.join(self.expr(d - 1) for _ in range(s.range(1, 3)))),
                (1, lambda: '(if %s %s %s)' % (self.expr(d - 1), self.expr(d - 1), self.expr(d - 1))),
                (1, lambda: self.e_iter(d)), (1, lambda: self.e_save(d)),
                (1, lambda: '(let ((v %s)) %s)' % (self.expr(d - 1), self.t('v')))]
        if self.vals:
            opts.append((1, lambda: self.e_values(d)))
        if self.x:
            opts += [(self.x, lambda: self.e_guard(d)), (self.x, lambda: self.e_weh(d)), (self.x, lambda: self.e_raise(d))]
        return s.weighted(opts)()

    def e_begin(self, d):
        return '(begin %s)' % ' '.join(self.expr(d - 1) for _ in range(self.s.range(1, 3)))

    def e_cc(self, d):
        k = self.s.choice(['k1', 'k2', 'k3'])
        self.kinds.add('callcc')
        self.ks.append(k)
        b = ' '.join(self.expr(d - 1) for _ in range(self.s.range(1, 2)))
        self.ks.pop()
        return '(call/cc (lambda (%s) %s))' % (k, b)

    def e_throw(self, d):
        if self.saved and self.s.bool(1, 4):
            self.kinds.add('saved')
            return '(saved%d %s)' % (self.s.below(self.saved) + 1, self.expr(d - 1))
        if not self.ks:
            return self.e_cc(d)
        self.kinds.add('escape')
        k = self.s.choice(self.ks)
        if self.s.bool(1, 5):
            return "(apply %s (list %s))" % (k, self.expr(d - 1))
        return '(%s %s)' % (k, self.expr(d - 1))

    def e_save(self, d):
        if not self.ks or self.saved >= 3:
            return self.t()
        self.saved += 1
        return '(begin (set! saved%d %s) %s)' % (self.saved, self.s.choice(self.ks), self.expr(d - 1))

    def e_wind(self, d):
        self.kinds.add('wind')
        b, a = self.t(), self.t()
        if self.s.bool(1, 4):
            b = self.pure()
        if self.s.bool(1, 4):
            a = self.pure()
        # an escape out of a before or after thunk (only without exceptions)
        if not self.x and self.ks and self.s.bool(1, 4):
            t = '(if (tr %d %s) (%s %s))' % (self.tid(), self.s.choice(['#t', '(odd? cnt)', '(even? cnt)']),
                                             self.s.choice(self.ks), self.t())
            t = '(begin (set! cnt (+ cnt 1)) %s)' % t
            self.kinds.add('escape-from-guard-thunk')
            if self.s.bool():
                b = t
            else:
                a = t
        return '(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))' % (
            b if b.startswith('(tr') else self.t(b), self.expr(d - 1), a if a.startswith('(tr') else self.t(a))

    def e_values(self, d):
        s = self.s
        n = s.below(4)
        self.kinds.add('values')
        if s.bool() and self.ks is not None:
            k = 'kv'
            self.ks.append(k) if False else None
            call = '(kv%s)' % ''.join(' ' + self.expr(d - 2) for _ in range(n))
            if s.bool(1, 3):
                call = '(apply kv (list%s))' % call[3:-1]
            if s.bool(1, 3):
                call = '(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))' % (self.t(), call, self.t())
            prod = '(call/cc (lambda (kv) (list 1 %s)))' % call
        else:
            prod = '(values%s)' % ''.join(' ' + self.expr(d - 2) for _ in range(n))
        if self.x and s.bool(1, 2):
            self.kinds.add('guard')
            k = s.below(3)
            vals = '(values%s)' % ''.join(' ' + self.const() for _ in range(s.below(4)))
            if k == 0:
                prod = '(guard (e (#t %s)) %s)' % (vals, prod)
            elif k == 1:
                prod = '(guard (e ((number? e) %s) (else (values e e))) (raise %s))' % (vals, self.obj())
            else:
                prod = '(guard (e ((number? e) %s)) %s)' % (self.const(), vals)
        if s.bool(1, 3):
            prod = '(dynamic-wind (lambda () %s) (lambda () %s) (lambda () %s))' % (self.t(), prod, self.t())
            self.kinds.add('wind')
        return '(call-with-values (lambda () %s) (lambda xs %s))' % (prod, self.t('xs'))

    def e_iter(self, d):
        f = self.s.choice(['map', 'for-each'])
        b = '(begin (tr %d x) %s)' % (self.tid(), self.expr(d - 1))
        if f == 'for-each':
            return '(begin (for-each (lambda (x) %s) (list 1 2 3)) 9)' % b
        return '(map (lambda (x) %s) (list 1 2 3))' % b

    # ---- exceptions
    def obj(self):
        return self.s.choice(["'oops", '1', '2', "'(a b)", '"msg"', '#f', '42'])

    def e_raise(self, d):
        s = self.s
        self.kinds.add('raise')
        k = s.below(7)
        if k <= 2:
            return '(raise %s)' % self.obj()
        if k == 3:
            return '(raise %s)' % self.expr(d - 1)
        if k == 4:
            return '(error %s%s)' % (s.choice(['"reason"', '"bad thing:"', '"x y"']),
                                     ''.join(' ' + self.const() for _ in range(s.below(3))))
        if k == 5:
            return s.choice(["(car '())", '(undefined-thing)', '(vector-ref (vector 1) 5)', '(1 2)', '(+ 1 #t)',
                             '((lambda (x) x))', "(length 3)", "(if)", '(quotient 1 0)'])
        return '(begin %s (raise %s))' % (self.t(), self.obj())

    def clause(self, d, plain):
        s = self.s
        k = s.below(8)
        ex = (lambda: self.const()) if plain else (lambda: self.expr(d - 1))
        if k == 0:
            return "((eq? e 'oops) %s)" % ex()
        if k == 1:
            return '((number? e) %s)' % (ex() if plain else self.t('e'))
        if k == 2:
            return '((string? e) (list e %s))' % ex()
        if k == 3:
            return "((assv e '((1 . one) (2 . two))) => (lambda (p) (list p e)))"
        if k == 4:
            return "((equal? e '(a b)) e)"
        if k == 5:
            return '((number? e))'
        if k == 6:
            return '((%%%%error-object? e) (list (quote err) %s))' % ex()
        return '((equal? e 42))'

    def show_e(self):
        return False

    def e_guard(self, d):
        s = self.s
        self.kinds.add('guard')
        body = ' '.join(self.expr(d - 1) for _ in range(s.range(1, 2)))
        plain = 'dynamic-wind' in body or 'saved' in body
        n = s.below(4)
        ks = self.ks
        if plain:
            self.ks = []
        cl = [self.clause(d, plain) for _ in range(n)]
        self.ks = ks
        if plain or s.bool() or n == 0:
            cl.append('(else %s)' % (self.const() if plain else self.expr(d - 1)))
        return '(guard (e %s) %s)' % (' '.join(cl), body)

    def e_weh(self, d):
        s = self.s
        self.kinds.add('handler')
        k = s.below(6)
        if k <= 2 and self.ks:
            h = '(%s (list %s %s))' % (s.choice(self.ks), self.t("'h"), '1')
        elif k == 3:
            h = '(raise %s)' % (self.obj() if s.bool() else self.t("'again"))
        elif k == 4:
            h = self.t("'returns")
        else:
            h = self.expr(d - 1)
        body = self.expr(d - 1)
        t = '(with-exception-handler (lambda (e) %s) (lambda () %s))' % (h, body)
        if s.bool(1, 4):
            # the same procedure installed more than once
            m = s.range(2, 3)
            b = body
            for i in range(m):
                b = '(with-exception-handler hh (lambda () %s))' % b
                if i + 1 < m and s.bool(1, 3):
                    b = '(with-exception-handler (lambda (e) (raise %s)) (lambda () %s))' % (self.t('(list e)'), b)
            h2 = s.choice(['(raise %s)' % self.t("e"), '(raise (if (number? e) (+ e 1) e))', h,
                           '(begin %s (raise %s))' % (self.t(), self.obj())])
            t = '(let ((hh (lambda (e) %s))) %s)' % (h2, b)
        if s.bool():
            # the usual idiom
            return "(call/cc (lambda (kh) (with-exception-handler (lambda (e) (tr %d (kh (if (number? e) e 'h)))) " \
                   "(lambda () %s))))" % (self.tid(), body)
        return t

    def program(self, forms=4, depth=5):
        out = ['(define (tr n v) (display "<") (display n) (display ">") v)',
               "(define cnt 0) (define saved1 (lambda (x) 'none)) (define saved2 saved1) (define saved3 saved1)"]
        for _ in range(self.s.range(1, forms)):
            e = self.expr(self.s.range(2, depth))
            if self.s.bool(1, 3):
                e = '(list (tr %d 0) %s)' % (self.tid(), e)
            out.append(e)
            if self.x and self.s.bool(1, 4):
                out.append(self.s.choice(['(guard (e (else (list \'top e))) (raise 5))', "(call/cc (lambda (k) (k 'fine)))",
                                          '(guard (x ((%%error-object? x) (write x) 1)) (error "m:" 1 \'b "s" #\\c))']))
        text = '\n'.join(out)
        if self.s.bool(1, 3):
            # names that an implementation of these forms could use itself
            pool = list(INTERNAL)
            m = {n: pool.pop(self.s.below(len(pool))) for n in RENAMED if pool}
            text = TOKEN.sub(lambda x: m.get(x.group(0), x.group(0)), text)
        return text
