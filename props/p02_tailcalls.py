"""Long loops through random compositions of tail contexts, on a native stack
and heap too small for one frame or one live cell per iteration."""
from vlib.engine import Part, Case

ID = 'P02'
RULE = 'at least 20000 tail calls or list elements are made through a composition of tail contexts'
ASSUMPTIONS = ['eval (documented as uncertain), call/cc and guard bodies are not tail contexts of this implementation']
VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt']
RES = dict(stack_mb=1, heap='16384,8192,2,1', preload='(use srfi-2)\n(use srfi-8)\n(use srfi-34)\n(use srfi-6)\n')
M = 10007


class G:
    """Every context returns (text, py) where py(env) -> ('call', j, n, a) or value"""
    def __init__(self, s, nf, hygienic):
        self.s, self.nf, self.hyg = s, nf, hygienic
        self.kinds = set()
        self.fresh = 0

    def var(self):
        self.fresh += 1
        return 't%d' % self.fresh

    def test(self):
        """boolean expression on n and a"""
        s = self.s
        m, r = s.range(2, 4), s.below(2)
        v = s.choice(['n', 'a'])
        return '(= (remainder %s %d) %d)' % (v, m, r), lambda e: e[v] % m == r

    def leaf(self):
        s = self.s
        j = s.below(self.nf)
        c = s.range(1, 9)
        nm = self.accs[-1]
        a = '(remainder (+ (* %s 3) %d) %d)' % (nm, c, M)

        def py(e):
            return ('call', j, e['n'] - 1, (e[nm] * 3 + c) % M)
        k = s.below(10)
        if k <= 5:
            t = '(f%d (- n 1) %s)' % (j, a)
        elif k == 6:
            self.kinds.add('apply')
            t = '(apply f%d (list (- n 1) %s))' % (j, a)
        elif k == 7:
            self.kinds.add('apply')
            t = '(apply f%d (- n 1) (list %s))' % (j, a)
        elif k == 8:
            self.kinds.add('call-with-values')
            t = '(call-with-values (lambda () (values (- n 1) %s)) f%d)' % (a, j)
        else:
            self.kinds.add('operator')
            t = '((if #t f%d car) (- n 1) %s)' % (j, a)
        return t, py

    def bound(self, mk):
        """a body in which a fresh variable holds a"""
        v = self.var()
        nm = self.accs[-1]
        self.accs.append(v)
        t, p = mk()
        self.accs.pop()
        return v, t, lambda e: p(dict(e, **{v: e[nm]}))

    def ctx(self, d):
        s = self.s
        if d <= 0:
            return self.leaf()
        ks = ['if', 'if', 'cond', 'cond=>', 'condtest', 'case', 'and', 'or', 'let', 'let*', 'letrec', 'begin', 'do', 'namedlet',
              'lambda', 'rest', 'idef', 'receive', 'receive2', 'cwv2', 'and-let*', 'and-let*2', 'let-optionals*', 'let-optionals*2', 'innerloop', 'closure', 'when-set']
        if self.hyg:
            ks += ['macro', 'macro']
        k = s.choice(ks)
        self.kinds.add(k)
        sub = lambda: self.ctx(d - 1)
        nm = self.accs[-1]
        if k == 'if':
            (c, pc), (x, px), (y, py) = self.test(), sub(), sub()
            return '(if %s %s %s)' % (c, x, y), lambda e: px(e) if pc(e) else py(e)
        if k == 'cond':
            (c, pc), (x, px), (c2, pc2), (y, py), (z, pz) = self.test(), sub(), self.test(), sub(), sub()
            return ('(cond (%s 1 %s) (%s %s) (else %s))' % (c, x, c2, y, z),
                    lambda e: px(e) if pc(e) else py(e) if pc2(e) else pz(e))
        if k == 'cond=>':
            (c, pc), (y, py) = self.test(), sub()
            v, x, px = self.bound(sub)
            return ('(cond ((and %s %s) => (lambda (%s) %s)) (else %s))' % (c, nm, v, x, y),
                    lambda e: px(e) if pc(e) else py(e))
        if k == 'condtest':
            (c, pc), (y, py) = self.test(), sub()
            return '(cond ((not %s) %s) (#t 5 %s))' % (c, y, y), py
        if k == 'case':
            m = s.range(2, 4)
            (x, px), (y, py) = sub(), sub()
            return ('(case (remainder n %d) ((0) %s) ((-9 a #\\x) 1) (else 2 %s))' % (m, x, y),
                    lambda e: px(e) if e['n'] % m == 0 else py(e))
        if k == 'and':
            x, px = sub()
            return '(and #t %s %s)' % (nm, x), px
        if k == 'or':
            x, px = sub()
            return '(or #f (not %s) %s)' % (nm, x), px
        if k in ('let', 'let*', 'letrec', 'namedlet', 'lambda', 'rest', 'idef', 'receive', 'receive2', 'cwv2', 'and-let*', 'and-let*2',
                 'let-optionals*', 'let-optionals*2', 'closure'):
            v, x, px = self.bound(sub)
            u = self.var()
            fm = s.choice([('(%s)' % v, nm), ('(%s %s)' % (v, u), nm + ' 1'), ('(%s %s zz)' % (u, v), '1 %s 2' % nm), ('(zz %s zy %s)' % (u, v), '1 2 3 ' + nm)])
            lo = s.choice(['(list {0}) ({1})', '(list {0} 2) ({1} . rs)', "'() ((zz 1) ({1} {0}))", "(list {0}) (({1} 0) (zz 2) . rs)", '(list {0} n) ({1} (zz 2))']).format(nm, v)
            t = {
                'let': '(let ((%s %s) (%s 1)) %s)' % (v, nm, u, x),
                'let*': '(let* ((%s 1) (%s %s)) 7 %s)' % (u, v, nm, x),
                'letrec': '(letrec ((%s %s) (%s (lambda () 1))) %s)' % (v, nm, u, x),
                'namedlet': '(let %s ((%s %s)) %s)' % (u, v, nm, x),
                'lambda': '((lambda (%s) %s) %s)' % (v, x, nm),
                'rest': '((lambda (%s . %s) %s) %s n)' % (v, u, x, nm),
                'idef': '(let () (define %s %s) (define (%s) 1) %s)' % (v, nm, u, x),
                'receive': '(receive (%s . %s) (values %s n) %s)' % (v, u, nm, x),
                'and-let*': '(and-let* ((%s %s) ((number? %s)) n) %s)' % (v, nm, v, x),
                'let-optionals*': '(let-optionals* (list %s) ((%s 0) (%s n)) %s)' % (nm, v, u, x),
                'receive2': '(receive %s (values %s) %s)' % (fm[0], fm[1], x),
                'cwv2': '(call-with-values (lambda () (values %s)) (lambda %s %s))' % (fm[1], fm[0], x),
                'and-let*2': '(and-let* (%s) %s)' % (s.choice(['n (%s %s)', '((number? n)) (%s %s) n', '(%s %s)', '(zz n) (%s %s) zz']) % (v, nm), x),
                'let-optionals*2': '(let-optionals* %s %s)' % (lo, x),
                'closure': '(let ((%s (lambda (%s) %s))) (%s %s))' % (u, v, x, u, nm),
            }[k]
            return t, px
        if k == 'begin':
            x, px = sub()
            return '(begin 1 (car (list n)) %s)' % x, px
        if k == 'when-set':
            x, px = sub()
            return '(begin (set! g (+ 0 n)) %s)' % x, px
        if k == 'do':
            x, px = sub()
            u = self.var()
            return '(do ((%s 0 (+ %s 1))) ((= %s %d) %s) %s)' % (u, u, u, s.below(3), x, s.choice(['', '1', '(set! g 1)'])), px
        if k == 'innerloop':
            x, px = sub()
            u, w = self.var(), self.var()
            return '(let %s ((%s %d)) (if (= %s 0) %s (%s (- %s 1))))' % (u, w, s.below(3), w, x, u, w), px
        if k == 'macro':
            x, px = sub()
            return s.choice(['(my-if #t %s 0)', '(my-begin 1 %s)', '(my-let zz n %s)']) % x, px


def gen(s):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2])])
    nf = s.range(1, 3)
    g = G(s, nf, variant.startswith('hyg'))
    g.accs = ['a']
    fs = []
    for i in range(nf):
        x, px = g.ctx(s.range(1, 4))
        b = s.below(3)
        if b == 0:
            t = '(define (f%d n a) (if (= n 0) a %s))' % (i, x)
        elif b == 1:
            t = '(define f%d (lambda (n a) (cond ((= n 0) a) (else %s))))' % (i, x)
        else:
            t = '(define (f%d n . r) (let ((a (car r))) (or (and (= n 0) a) %s)))' % (i, x)
        fs.append((t, px))
    n = s.range(30000, 36000)
    n0, a = n, s.below(50)
    pre = ['(define g 0)']
    if g.hyg:
        pre += ['(define-syntax my-if (syntax-rules () ((_ a b c) (cond (a b) (else c)))))',
                '(define-syntax my-begin (syntax-rules () ((_ a b) (let ((t a)) b))))',
                '(define-syntax my-let (syntax-rules () ((_ v e b) (let ((v e)) b))))']
    text = '\n'.join(pre + [f for f, _ in fs] + ['(f0 %d %d)' % (n, a)])
    j = 0
    while n:
        _, j, n, a = fs[j][1]({'n': n, 'a': a})
    return Case(text, '=> %d\n#DONE\n' % a, True, tags=sorted(g.kinds) + [variant], variant=variant)


def check(c, env):
    r = env.run(c.text, '-', c.variant, cpu=60, **RES)
    if not r.done:
        return 'did not complete: %s %s' % (r.describe(), r.text()[-200:])
    if not r.text().endswith(c.expect):
        return 'expected %r but got %r %s' % (c.expect, r.text()[-300:], r.err[:300])


SERVICES = ['(call/cc (lambda (k) i))', '(call/cc (lambda (k) (k i)))', '(call/cc (lambda (k) (call/cc (lambda (j) (k i)))))',
            '(dynamic-wind (lambda () 1) (lambda () i) (lambda () 2))', '(call/cc (lambda (k) (dynamic-wind (lambda () 1) (lambda () (k i)) (lambda () 2))))',
            '(guard (e (#t 1)) i)', '(guard (e (#t 1)) (raise i))', "(guard (e (#t 1)) (car '()))", '(guard (e ((symbol? e) 1) ((number? e) 2)) (dynamic-wind (lambda () 1) (lambda () (raise i)) (lambda () 2)))',
            '(with-exception-handler (lambda (e) 1) (lambda () i))', '(call/cc (lambda (k) (with-exception-handler (lambda (e) (k 1)) (lambda () (raise i)))))',
            '(force (delay i))', '(call-with-values (lambda () (values i 2)) list)', '(receive (x . y) (values i 2 3) y)', '(eval (list (quote +) i 1) (interaction-environment))',
            '(apply list i (list 1 2))', '(map (lambda (x) (lambda () x)) (list i 2))', '(read (open-input-string "(a . b)"))',
            '(let ((p (open-output-string))) (write i p) (get-output-string p))', '(string-append "a" (number->string i))', '(list->vector (list i i))',
            '(let-optionals* (list i) ((x 0) (y 1)) y)', '(and-let* ((x i) (y 2)) y)', '`(1 ,i ,@(list i 2))', '(make-string 40 #\\b)', '(make-vector 40 i)',
            '(letrec ((e? (lambda (n) (or (= n 0) (e? (- n 1)))))) (e? 3))', '(let ((x 1)) (set! x (lambda () x)) x)', '(string->symbol "abc")', '(let ((c (list 1 2))) (set-cdr! (cdr c) c) (pair? c))']


# ---- long loops of the iteration forms: result and memory
def gen_loop(s):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2])])
    n = s.range(20000, 40000)
    c = s.range(1, 9)
    body = s.choice(['', '(set! g (+ g 1))', '(set! g (+ g 1)) (list i a)', '(if (odd? i) (set! g (+ g 1)) (set! g (+ g 1)))'])
    cnt = 'g' if body else '0'
    k = s.below(5)
    sv = None
    if k <= 2 and s.bool():
        # services that may keep something for each use
        sv = [s.choice(SERVICES) for _ in range(s.range(1, 2))]
        body, cnt = '(set! g (+ g 1)) ' + ' '.join(sv), 'g'
        n = s.range(20000, 24000)
    step = '(remainder (+ (* a 3) %d) %d)' % (c, M)
    if k == 0:
        t = '(do ((i 0 (+ i 1)) (a 1 %s)) ((= i %d) (list a %s)) %s)' % (step, n, cnt, body)
    elif k == 1:
        t = '(do ((a 1 %s) (i %d (- i 1)) (k 5)) ((<= i 0) k (list a %s)) %s)' % (step, n, cnt, body)
    elif k == 2:
        t = '(let loop ((i 0) (a 1)) (cond ((= i %d) (list a %s)) (else %s (loop (+ i 1) %s))))' % (n, cnt, body, step)
    elif k == 3:
        t = '(let loop ((i %d) (a 1)) %s (if (> i 0) (loop (- i 1) %s) (list a %s)))' % (n, body.replace('(set! g', '(if (> i 0) (set! g').replace('(+ g 1))', '(+ g 1)))') if 'odd' not in body else '', step, '0' if 'odd' in body else cnt)
        if 'odd' in body:
            body = ''
    else:
        t = '(letrec ((ev (lambda (i a) %s (if (= i 0) (list a %s) (od (- i 1) %s)))) (od (lambda (i a) (if (= i 0) (list a %s) (ev (- i 1) %s))))) (ev %d 1))' % ('', '0', step, '0', step, n)
        body = ''
    a = 1
    for _ in range(n):
        a = (a * 3 + c) % M
    exp = '=> (%d %d)\n#DONE\n' % (a, n if body else 0)
    return Case('(define g 0)\n' + t, exp, True, tags=['loop%d' % k] + (sv or []), variant=variant)


# ---- long lists: C-level traversals must not recurse along the cdr
OPS = [('(length l)', lambda n: str(n)), ('(length (map (lambda (x) x) l))', str), ('(length (map + l l))', str),
       ('(begin (for-each (lambda (x) x) l) 1)', lambda n: '1'), ('(equal? l (append l (quote ())))', lambda n: '#t'),
       ('(length (append l l))', lambda n: str(2 * n)), ('(car (reverse l))', lambda n: '0'),
       ('(vector-length (list->vector l))', str), ('(length (vector->list (list->vector l)))', str),
       ('(apply + l)', lambda n: str(n * (n - 1) // 2)), ('(length (apply list l))', str),
       ("(length (eval (list 'quasiquote l) (interaction-environment)))", str),
       ('(list? l)', lambda n: '#t'), ('(list-ref l %d)', lambda n: '0'), ('(car (member 0 l))', lambda n: '0'),
       ('(memv -1 l)', lambda n: '#f'), ('(length (read (open-input-string (f l))))', str),
       ('(string-length (f (vector l)))', None), ("(eval (cons 'begin l) (interaction-environment))", lambda n: '0'),
       ("(eval (cons 'and l) (interaction-environment))", lambda n: '0'),
       ('(string-length (list->string (map (lambda (x) #\\a) l)))', str),
       ('(length (string->list (make-string %d #\\b)))', lambda n: str(n - 1)),
       ("(assv 0 (map (lambda (x) (list x 1)) l))", lambda n: '(0 1)'),
       ("(length (map (lambda (x) (list x x)) l))", str)]


def gen_long(s):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2])])
    n = s.range(30000, 40000)
    pre = "(define (f x) (let ((p (open-output-string))) (write x p) (get-output-string p)))\n" \
          "(define l (let lp ((i 0) (r '())) (if (= i %d) r (lp (+ i 1) (cons i r)))))\n" % n
    out, exp = [], []
    for _ in range(s.range(1, 3)):
        op, e = s.choice(OPS)
        out.append(op.replace('%d', str(n - 1)))
        exp.append(e(n) if e else str(sum(len(str(i)) for i in range(n)) + n - 1 + 5))
    return Case(pre + '\n'.join(out), '=> f\n=> l\n'.replace('=> f\n', '=> (f x)\n') + ''.join('=> %s\n' % x for x in exp) + '#DONE\n', True,
                tags=[o.split()[0].strip('(') for o in out], variant=variant)


def check_long(c, env):
    r = env.run(c.text, '-', c.variant, cpu=60, stack_mb=1, heap='16384,8192,64,1', preload='(use srfi-6)\n')
    if not r.done:
        return 'did not complete: %s %s' % (r.describe(), r.text()[-200:])
    if r.text() != c.expect:
        return 'expected %r but got %r %s' % (c.expect, r.text()[-300:], r.err[:300])


# ---- objects that outlive the data they were made beside
KEEP = [('(let loop ((big (mk))) loop)', '(procedure? x)', '#t'), ('(let loop ((big (mk)) (i 3)) (if (= i 0) loop (loop 0 (- i 1))))', '(procedure? x)', '#t'),
        ('(let ((p (delay (values (car (mk)))))) (force p) p)', '(force x)', '7'),
        ('((lambda (big) (set! big 5) (lambda () big)) (mk))', '(x)', '5'), ('(let ((v (vector (mk) 1))) (vector-set! v 0 3) v)', 'x', '#(3 1)'),
        ('(let ((p (cons 1 (mk)))) (set-cdr! p 3) p)', 'x', '(1 . 3)'), ('(guard (e (#t e)) (let ((big (mk))) (raise (cons 1 2))))', 'x', '(1 . 2)'),
        ('(call-with-values (lambda () (values (mk) 1)) (lambda (a b) b))', 'x', '1'), ('(receive (a . r) (values (mk) 1) (car r))', 'x', '1'),
        ('(dynamic-wind (lambda () (mk)) (lambda () (vector 1)) (lambda () (mk)))', 'x', '#(1)'), ('(call/cc (lambda (k) (let ((big (mk))) (k (list 1)))))', 'x', '(1)'),
        ('(let-optionals* (list (mk) 2) ((a 1) (b 1)) (list b))', 'x', '(2)'), ('(and-let* ((a (mk)) (b (list (car a)))) b)', 'x', '(7)'),
        ('(let ((p (open-output-string))) (write (mk) p) (list 1))', 'x', '(1)'), ('(do ((a (mk) (cdr a))) ((null? a) (lambda () a)))', '(x)', '()'),
        ('(let ((a (mk))) (let lp () (if (pair? a) (begin (set! a (cdr a)) (lp)))) (lambda () a))', '(x)', '()'), ('(apply (lambda (a . r) (list (car r))) (mk))', 'x', '(7)'),
        ('(map car (list (mk) (mk)))', 'x', '(7 7)'), ('(begin (set! g (mk)) (vector 1))', 'x', '#(1)'), ('(list (eval (list (quote car) (list (quote quote) (mk))) (interaction-environment)))', 'x', '(7)'),
        ('(with-exception-handler (let ((big (mk))) (lambda (e) big)) (lambda () (list 1)))', 'x', '(1)'), ('(begin (define g (mk)) (list 1))', 'x', '(1)'),
        ('(letrec ((big (mk)) (f (lambda () f))) (set! big 1) f)', '(procedure? (x))', '#t'), ("(let ((l (append '(1 2) (mk)))) (set-cdr! (cdr l) '()) l)", 'x', '(1 2)')]


def gen_keep(s):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2])])
    n, m = s.range(300, 400), s.range(200, 300)
    ks = [s.choice(KEEP) for _ in range(s.range(1, 3))]
    out = ["(define g 0) (define keep '())", "(define (mk) (let lp ((i 0) (r '())) (if (= i %d) r (lp (+ i 1) (cons 7 r)))))" % m,
           "(define (go n) (if (> n 0) (begin (set! keep (cons (vector %s) keep)) (go (- n 1)))))" % ' '.join(k[0].replace('define g', 'set! g') for k in ks),
           '(begin (go %d) (length keep))' % n]
    if any('define' in k[0] for k in ks):
        out.insert(3, '(begin (define g 0) 0)')
    i = s.below(n)
    out.append('(list %s)' % ' '.join('(let ((x (vector-ref (list-ref keep %d) %d))) %s)' % (i, j, k[1]) for j, k in enumerate(ks)))
    exp = '=> %d\n=> (%s)\n#DONE\n' % (n, ' '.join(k[2].replace('LEN', str(m)) for k in ks))
    return Case('\n'.join(out), exp, True, tags=[variant], variant=variant)


def check_keep(c, env):
    r = env.run(c.text, '-', c.variant, cpu=60, **dict(RES, preload=RES['preload'] + '(use srfi-1)\n'))
    if not r.done:
        return 'did not complete: %s %s' % (r.describe(), r.text()[-200:])
    if not r.text().endswith(c.expect):
        return 'expected %r but got %r %s' % (c.expect, r.text()[-300:], r.err[:300])


PARTS = [Part('tail-contexts', gen, check, 600, 12000, variants=VARS, batch=10, shrink_budget=150),
         Part('loops', gen_loop, check, 200, 3000, variants=VARS, batch=10, shrink_budget=60),
         Part('long-lists', gen_long, check_long, 300, 4000, variants=VARS, batch=10, shrink_budget=60),
         Part('retained', gen_keep, check_keep, 250, 4000, variants=VARS, batch=10, shrink_budget=60)]
