"""Random Scheme programs (text) over the modelled core language."""

NAMES = ['x', 'y', 'z', 'a', 'b', 'i', 'j', 'f', 'g', 'h', 'p', 'q']
ODD = ['list', 'car', '+', 'not', 'cons', 'length', 'tr', 'else-x', 'a-very-long-variable-name-indeed']


class Prog:
    """Scope entries: name -> type; types: int bool sym list any, ('p', n, rest)"""

    def __init__(self, s, bad=12, extra=None):
        self.s = s
        self.n = 0
        self.bad = bad          # 1 in `bad` programs-ish gets an erroneous leaf
        self.scopes = [{}]
        self.kinds = set()
        self.extra = extra or {}

    # ---- scope
    def visible(self):
        d = {}
        for sc in self.scopes:
            d.update(sc)
        return d

    def vars(self, ty):
        return sorted(n for n, t in self.visible().items() if t == ty)

    def shadowed(self, name):
        return any(name in sc for sc in self.scopes)

    def prim(self, name):
        """a primitive name, when it still denotes the primitive"""
        return not self.shadowed(name)

    def name(self):
        if self.s.bool(1, 16):
            return self.s.choice(ODD)
        return self.s.choice(NAMES)

    def names(self, n):
        out = []
        while len(out) < n:
            v = self.name()
            if v not in out:
                out.append(v)
            elif len(out) < n:
                v = NAMES[(NAMES.index(v) + 1) % len(NAMES)] if v in NAMES else 'x%d' % len(out)
                if v not in out:
                    out.append(v)
        return out

    def tid(self):
        self.n += 1
        return self.n

    # ---- leaves
    def const(self, ty):
        s = self.s
        if ty == 'int':
            return str(s.choice([0, 1, 2, 3, 5, -1, 7, 10, -4, 100]))
        if ty == 'bool':
            return s.choice(['#t', '#f'])
        if ty == 'sym':
            return "'" + s.choice(['a', 'b', 'foo', 'x', 'if', 'quote'])
        if ty == 'list':
            return "'(" + ' '.join(str(s.below(6)) for _ in range(s.below(4))) + ')'
        if ty == 'any':
            return s.choice(['"str"', '#\\a', "'(1 . 2)", "'#(1 2)", "''a", '1', '#f', "'()"])
        n, rest = ty[1], ty[2]
        ps = ['v%d' % i for i in range(n)]
        b = ps[0] if n else '4'
        f = 'r' if rest and not n else '(' + ' '.join(ps) + (' . r' if rest else '') + ')'
        return '(lambda %s %s)' % (f, b)

    def leaf(self, ty):
        v = self.vars(ty)
        if v and not self.s.bool(1, 3):
            return self.s.choice(v)
        return self.const(ty)

    def ill(self):
        s = self.s
        self.kinds.add('ill')
        return s.choice(['undefined-variable', '(undefined-procedure 1)', "(car '())", '(1 2)', "(vector-ref '#(1) 1)",
                         '((lambda (x) x))', '((lambda (x) x) 1 2)', '((lambda (x . y) x))', '(if)', '(if 1)',
                         '(if 1 2 3 4)', '(let ((x)) x)', '(let ((x 1 2)) x)', '(let ((1 2)) 1)', '(let ((x 1)))',
                         '(let ((x 1) (x 2)) x)', '(lambda (x))', '(lambda (1) 1)', '(quote)', '(quote 1 2)',
                         '(set! never-defined 1)', '(set! x)', '(set! 1 2)', '(cond)', '(cond 1)', '(cond ())',
                         '(cond (else 1) (#t 2))', '(cond (1 => 2))', '(case)', '(case 1)', '(case 1 (else 1) ((1) 2))',
                         '(do ((i 0 1 2)) (#t) 1)', '(do (i) (#t) 1)', '(do ((i 0)) ())',
                         '(letrec ((a 1) (a 2)) a)', '(let loop ((i 0) (i 1)) i)', '(let x)', '(car 1)', "(car '(1) . 2)",
                         '(apply car 1)', "(apply car '(1 . 2))", "(map car '(1))", "(map + '(1 2) '(1))", "(+ 1 'a)",
                         '(let () (define x 1))', '(let () 1 (define x 1) x)', '(define x)', '(length 5)',
                         "(length '(1 . 2))", '(quotient 1 0)', '(and . 1)', "(list-ref '(1 2) 2)", '(begin . 1)',
                         '(lambda)', '(let)', "(for-each car '(1))",
                         "((lambda (x y) x) 1)", "((lambda (x y . z) x) 1)", '((lambda () 1) 2)', '((lambda x y))',
                         '(let* ((x 1) (y)) x)', '(symbol? )', "(cons 1)", "(cons 1 2 3)", "(list-tail '(1) 2)", 'if',
                         '(let ((if 1)) (if))', '(=> 1)', 'else', "(apply + 1 2 '(3 . 4))", '(vector-ref (vector) -1)'])

    # ---- expressions
    def expr(self, ty, d):
        s = self.s
        if d <= 0:
            if self.bad and s.bool(1, 40 * self.bad):
                return self.ill()
            return self.leaf(ty)
        k = s.below(26)
        if k <= 1:
            return self.leaf(ty)
        m = [None, None, self.e_prim, self.e_prim, self.e_prim, self.e_prim, self.e_if, self.e_if, self.e_let, self.e_let, self.e_letstar,
             self.e_call, self.e_call, self.e_call, self.e_cond, self.e_case, self.e_logic, self.e_named, self.e_do,
             self.e_letrec, self.e_begin, self.e_body, self.e_apply, self.e_trace, self.e_set, self.e_hof][k]
        return m(ty, d - 1)

    def e_trace(self, ty, d):
        if not self.prim('tr'):
            return self.expr(ty, d)
        return '(tr %d %s)' % (self.tid(), self.expr(ty, d))

    def e_prim(self, ty, d):
        s = self.s
        e = self.expr
        if ty == 'int':
            op = s.choice(['+', '-', '*', '+', '-', 'quotient', 'remainder', 'modulo', 'max', 'min', 'abs', 'length', 'car'])
            if not self.prim(op):
                return self.leaf(ty)
            if op in ('quotient', 'remainder', 'modulo'):
                return '(%s %s %s)' % (op, e('int', d), s.choice(['2', '3', '-2', e('int', d)]))
            if op == 'abs':
                return '(abs %s)' % e('int', d)
            if op == 'length':
                return '(length %s)' % e('list', d)
            if op == 'car':
                if not self.prim('cons'):
                    return self.leaf(ty)
                return '(car (cons %s %s))' % (e('int', d), e('list', d))
            n = s.range(1, 4)
            if op == '*':
                n = s.range(1, 2)
            return '(%s %s)' % (op, ' '.join(e('int', d - (n > 2)) for _ in range(n)))
        if ty == 'bool':
            op = s.choice(['=', '<', '>', '<=', '>=', 'zero?', 'even?', 'null?', 'pair?', 'eq?', 'eqv?', 'equal?', 'not',
                           'symbol?', 'procedure?', 'negative?'])
            if not self.prim(op):
                return self.leaf(ty)
            if op in ('=', '<', '>', '<=', '>='):
                return '(%s %s)' % (op, ' '.join(e('int', d) for _ in range(s.range(2, 4))))
            if op in ('zero?', 'even?', 'negative?'):
                return '(%s %s)' % (op, e('int', d))
            if op == 'null?':
                return '(null? %s)' % e('list', d)
            if op in ('eq?', 'eqv?', 'equal?'):
                t = s.choice(['sym', 'bool'] if op == 'eq?' else ['int', 'sym', 'bool'] if op == 'eqv?' else ['int', 'sym', 'list'])
                return '(%s %s %s)' % (op, e(t, d), e(t, d))
            return '(%s %s)' % (op, e(s.choice(['int', 'sym', 'list', 'bool', 'any', ('p', 1, False)]), d))
        if ty == 'list':
            op = s.choice(['cons', 'list', 'append', 'reverse', 'cdr', 'map', 'vector->list'])
            if not self.prim(op) or not self.prim('cons'):
                return self.leaf(ty)
            if op == 'cons':
                return '(cons %s %s)' % (e('int', d), e('list', d))
            if op == 'list':
                return '(list %s)' % ' '.join(e('int', d - 1) for _ in range(s.below(4)))
            if op == 'append':
                return '(append %s)' % ' '.join(e('list', d - 1) for _ in range(s.below(4)))
            if op == 'reverse':
                return '(reverse %s)' % e('list', d)
            if op == 'cdr':
                return '(cdr (cons %s %s))' % (e('int', d), e('list', d))
            if op == 'map':
                if s.bool(1, 4):
                    l = e('list', d)
                    return '(map %s %s %s)' % (e(('p', 2, False), d), l, l)
                return '(map %s %s)' % (e(('p', 1, False), d), e('list', d))
            if not self.prim('vector'):
                return self.leaf(ty)
            return '(vector->list (vector %s))' % ' '.join(e('int', d - 1) for _ in range(s.below(4)))
        if isinstance(ty, tuple):
            return self.e_lambda(ty, d)
        return self.leaf(ty)

    def formals(self, n, rest):
        ns = self.names(n + (1 if rest else 0))
        sc = {v: 'int' for v in ns[:n]}
        if rest:
            sc[ns[n]] = 'list'
            f = ('(' + ' '.join(ns[:n]) + ' . ' + ns[n] + ')') if n else ns[n]
        else:
            f = '(' + ' '.join(ns) + ')'
        return f, sc

    def e_lambda(self, ty, d):
        f, sc = self.formals(ty[1], ty[2])
        self.scopes.append(sc)
        b = self.body('int', d)
        self.scopes.pop()
        return '(lambda %s %s)' % (f, b)

    def body(self, ty, d):
        """<body> text: internal defines, effects, result"""
        s = self.s
        out = []
        if s.bool(1, 4) and d > 0:
            self.kinds.add('idef')
            k = s.range(1, 2)
            ns = self.names(k)
            types = {}
            forms = []
            for v in ns:
                types[v] = s.choice(['int', ('p', s.below(3), s.bool(1, 4))])
            # right-hand sides: constants, or procedures that may use all of them
            hidden = {v: 'hidden' for v in ns}
            for v in ns:
                t = types[v]
                if t == 'int':
                    self.scopes.append(hidden)
                    forms.append('(define %s %s)' % (v, self.leaf('int')))
                    self.scopes.pop()
                else:
                    # no self-reference: bodies see only the non-procedure ones
                    self.scopes.append({w: (types[w] if types[w] == 'int' else 'hidden') for w in ns})
                    f, sc = self.formals(t[1], t[2])
                    self.scopes.append(sc)
                    b = self.body('int', d - 1)
                    self.scopes.pop()
                    self.scopes.pop()
                    if s.bool():
                        fs = f[1:] if f.startswith('(') else '. ' + f + ')'
                        forms.append('(define (%s %s %s)' % (v, fs, b))
                    else:
                        forms.append('(define %s (lambda %s %s))' % (v, f, b))
            if s.bool(1, 5):
                forms = ['(begin %s)' % ' '.join(forms)]
            out += forms
            self.scopes.append(types)
            for _ in range(s.below(2)):
                out.append(self.effect(d))
            out.append(self.expr(ty, d))
            self.scopes.pop()
            return ' '.join(out)
        for _ in range(s.below(5) // 3):
            out.append(self.effect(d))
        out.append(self.expr(ty, d))
        return ' '.join(out)

    def effect(self, d):
        s = self.s
        v = self.vars('int')
        if v and s.bool():
            return '(set! %s %s)' % (s.choice(v), self.expr('int', d - 1))
        return self.e_trace('int', d - 1)

    def e_if(self, ty, d):
        return '(if %s %s %s)' % (self.expr(self.s.choice(['bool', 'bool', 'int', 'list']), d), self.expr(ty, d),
                                  self.expr(ty, d))

    def binds(self, n, d, seq=False):
        s = self.s
        if seq:
            bs = []
            ns = [self.name() for _ in range(n)]
            for v in ns:
                t = self.rtype()
                bs.append('(%s %s)' % (v, self.expr(t, d)))
                self.scopes.append({v: t})
            return bs, n
        ns = self.names(n)
        sc, bs = {}, []
        for v in ns:
            t = self.rtype()
            bs.append('(%s %s)' % (v, self.expr(t, d)))
            sc[v] = t
        self.scopes.append(sc)
        return bs, 1

    def rtype(self):
        return self.s.choice(['int', 'int', 'int', 'list', 'bool', 'sym', ('p', self.s.below(3), self.s.bool(1, 4))])

    def e_let(self, ty, d):
        bs, k = self.binds(self.s.below(4), d)
        b = self.body(ty, d)
        del self.scopes[-k:]
        return '(let (%s) %s)' % (' '.join(bs), b)

    def e_letstar(self, ty, d):
        bs, k = self.binds(self.s.below(4), d, True)
        b = self.body(ty, d)
        if k:
            del self.scopes[-k:]
        return '(let* (%s) %s)' % (' '.join(bs), b)

    def e_letrec(self, ty, d):
        """mutual recursion on a decreasing counter"""
        s = self.s
        self.kinds.add('rec')
        fs = self.names(s.range(1, 2))
        cnt = self.name()
        while cnt in fs:
            cnt += '1'
        bs = []
        hid = {f: 'hidden' for f in fs}
        self.scopes.append(hid)
        for i, f in enumerate(fs):
            other = fs[(i + 1) % len(fs)]
            acc = 'acc'
            self.scopes.append({cnt: 'int', acc: 'int'})
            if self.prim('-') and self.prim('<'):
                rec = '(%s (- %s 1) %s)' % (other, cnt, self.expr('int', d - 1))
                if s.bool(1, 3) and self.prim('+'):
                    rec = '(+ 1 %s)' % rec
                bs.append('(%s (lambda (%s acc) (if (< %s 1) %s %s)))' % (f, cnt, cnt, self.expr('int', d - 1), rec))
            else:
                bs.append('(%s (lambda (%s acc) %s))' % (f, cnt, self.expr('int', d - 1)))
            self.scopes.pop()
        call = '(%s %d %s)' % (s.choice(fs), s.below(5), self.expr('int', d - 1))
        self.scopes.pop()
        if ty != 'int':
            self.scopes.append(hid)
            call = '(begin %s %s)' % (call, self.expr(ty, d))
            self.scopes.pop()
        return '(letrec (%s) %s)' % (' '.join(bs), call)

    def e_named(self, ty, d):
        s = self.s
        self.kinds.add('loop')
        if not (self.prim('<') and self.prim('+')):
            return self.leaf(ty)
        loop, i = 'loop', s.choice(['i', 'j', 'x'])
        n = s.below(5)
        acc_t = ty if not isinstance(ty, tuple) else 'int'
        init = self.expr(acc_t, d - 1)
        if s.bool(1, 8):
            # a variable of the name of the procedure hides it
            loop = s.choice(['loop', 'x', 'i', 'f', 'acc', 'y'])
            other = s.choice([v for v in ('x', 'i', 'y', 'acc') if v != loop])
            init2 = self.expr('int', d - 1)
            self.scopes.append({loop: acc_t, other: 'int'})
            fin = self.expr(ty, d - 1)
            self.scopes.pop()
            bs = ['(%s %s)' % (loop, init), '(%s %s)' % (other, init2)]
            return '(let %s (%s) %s)' % (loop, ' '.join(bs if s.bool() else bs[::-1]), fin)
        self.scopes.append({loop: 'hidden', i: 'int', 'acc': acc_t})
        step = self.expr(acc_t, d - 1)
        fin = self.expr(ty, d - 1)
        eff = self.effect(d - 1) + ' ' if s.bool(1, 4) else ''
        self.scopes.pop()
        if 'set! ' + i in eff or 'set! ' + i in step or 'set! %s ' % i in step + eff:
            eff = ''
            step = self.const(acc_t)
        return '(let loop ((%s 0) (acc %s)) (if (< %s %d) (begin %s(loop (+ %s 1) %s)) %s))' % (
            i, init, i, n, eff, i, step, fin)

    def e_do(self, ty, d):
        s = self.s
        self.kinds.add('do')
        if not (self.prim('=') and self.prim('+')):
            return self.leaf(ty)
        i = s.choice(['i', 'j', 'x'])
        acc_t = ty if not isinstance(ty, tuple) else 'int'
        init = self.expr(acc_t, d - 1)
        self.scopes.append({i: 'int', 'acc': acc_t})
        step = self.expr(acc_t, d - 1)
        fin = self.expr(ty, d - 1)
        cmd = self.effect(d - 1) if s.bool(1, 2) else ''
        self.scopes.pop()
        if 'set! %s ' % i in cmd + step + fin:
            cmd, step = '', self.const(acc_t)
        return '(do ((%s 0 (+ %s 1)) (acc %s%s)) ((= %s %d) %s) %s)' % (
            i, i, init, '' if s.bool(1, 6) else ' ' + step, i, s.below(5), fin, cmd)

    def e_cond(self, ty, d):
        s = self.s
        cl = []
        for _ in range(s.range(0, 3)):
            k = s.below(6)
            t = self.expr(s.choice(['bool', 'bool', 'int']), d)
            if k == 0 and ty == 'int':
                t = '(if %s %s #f)' % (self.expr('bool', d - 1), self.expr('int', d - 1))
                cl.append('(%s)' % t)
            elif k == 1 and ty == 'int':
                t = '(if %s %s #f)' % (self.expr('bool', d - 1), self.expr('int', d - 1))
                cl.append('(%s => %s)' % (t, self.expr(('p', 1, False), d - 1)))
            else:
                cl.append('(%s %s%s)' % (t, self.effect(d - 1) + ' ' if s.bool(1, 4) else '', self.expr(ty, d)))
        cl.append('(else %s)' % self.expr(ty, d))
        return '(cond %s)' % ' '.join(cl)

    def e_case(self, ty, d):
        s = self.s
        cl = []
        for _ in range(s.range(0, 3)):
            ds = [s.choice(['0', '1', '2', '-1', 'a', 'foo', '#\\a', '#t', '()', '7', '"s"']) for _ in range(s.range(0, 4))]
            cl.append('((%s) %s)' % (' '.join(ds), self.expr(ty, d)))
        cl.append('(else %s%s)' % (self.effect(d - 1) + ' ' if s.bool(1, 4) else '', self.expr(ty, d)))
        return '(case %s %s)' % (self.expr(s.choice(['int', 'sym', 'any']), d), ' '.join(cl))

    def e_logic(self, ty, d):
        s = self.s
        n = s.range(0 if ty == 'bool' else 1, 3)
        if s.bool():
            xs = [self.expr('bool', d) for _ in range(max(0, n - 1))]
            return '(if (and %s) %s %s)' % (' '.join(xs), self.expr(ty, d), self.expr(ty, d))
        xs = ['(if %s %s #f)' % (self.expr('bool', d - 1), self.expr(ty, d - 1)) for _ in range(max(0, n - 1))]
        return '(or %s)' % ' '.join(xs + [self.expr(ty, d)])

    def e_begin(self, ty, d):
        return '(begin %s%s)' % (''.join(self.effect(d) + ' ' for _ in range(self.s.below(3))), self.expr(ty, d))

    def e_body(self, ty, d):
        self.scopes.append({})
        b = self.body(ty, d)
        self.scopes.pop()
        return '(let () %s)' % b

    def e_call(self, ty, d):
        s = self.s
        if ty != 'int':
            return self.e_let(ty, d)
        vs = [(n, t) for n, t in sorted(self.visible().items()) if isinstance(t, tuple)]
        if vs and not s.bool(1, 3):
            f, t = s.choice(vs)
        else:
            t = ('p', s.below(4), s.bool(1, 3))
            f = self.e_lambda(t, d)
        n = t[1] + (s.below(3) if t[2] else 0)
        if self.bad and s.bool(1, 12 * self.bad):
            n += s.choice([1, -1])
            self.kinds.add('ill')
        return '(%s%s)' % (f, ''.join(' ' + self.expr('int', d - 1) for _ in range(n)))

    def e_apply(self, ty, d):
        s = self.s
        if ty != 'int' or not self.prim('list'):
            return self.e_if(ty, d)
        t = ('p', s.below(4), s.bool(1, 3))
        n = t[1] + (s.below(3) if t[2] else 0)
        k = s.below(n + 1)
        return '(apply %s%s (list%s))' % (self.expr(t, d), ''.join(' ' + self.expr('int', d - 1) for _ in range(k)),
                                          ''.join(' ' + self.expr('int', d - 1) for _ in range(n - k)))

    def e_set(self, ty, d):
        v = self.vars(ty)
        if not v:
            return self.e_begin(ty, d)
        x = self.s.choice(v)
        return '(begin (set! %s %s) %s)' % (x, self.expr(ty, d), x)

    def e_hof(self, ty, d):
        """closures captured in loops and counters"""
        s = self.s
        if not all(self.prim(n) for n in ('cons', '+', '=', 'list', 'car', '-')):
            return self.leaf(ty)
        self.kinds.add('capture')
        k = s.below(8)
        inner = self.expr('int', d - 1)
        if k >= 5:
            # one name bound again, or assigned, after a closure has captured it
            form = s.choice(['let*', 'let*', 'nested', 'idef', 'rest'])
            e2 = self.expr('int', d - 1)
            if form == 'rest':
                t = '((lambda (a . r) (let ((f (lambda () r)) (g (lambda (v) (set! r (cons v r))))) %s(append (f) r))) %s 1 %s)' % (
                    s.choice(['', '(g a) ', "(set! r (list 0)) ", '(g 1) (g 2) ']), inner, e2) if self.prim('append') else "'()"
            else:
                cap = s.choice(['(f (lambda () x))', '(f (lambda () (set! x (+ x 1)) x))', '(g (lambda (v) (set! x v) x))'])
                use = '(g 50)' if cap[1] == 'g' else '(f)'
                mid = s.choice(['', '(y (+ x 1)) ', '(x (+ x 2)) ', '(y %s) ' % use])
                if form == 'let*':
                    t = '(let* ((x %s) %s %s(x %s)) (list %s x %s))' % (inner, cap, mid, e2, use, use)
                elif form == 'nested':
                    t = '(let ((x %s)) (let (%s) (let ((x %s)) (let* (%s(z x)) (list %s x z)))))' % (inner, cap, e2, mid, use)
                else:
                    t = '(let* ((x %s) %s) (let () (define x 9) (define y (lambda () x)) (list %s x (y))))' % (inner, cap, use)
        elif k == 0:
            t = '(map (lambda (th) (th)) (do ((i 0 (+ i 1)) (acc \'() (cons (lambda () (+ i %s)) acc))) ((= i %d) acc)))' % (
                self.const('int'), s.below(4))
        elif k == 1:
            t = '(let ((c (let ((n %s)) (lambda (k) (set! n (+ n k)) n)))) (list (c 1) (c %s) (c 2)))' % (
                inner, self.expr('int', d - 1))
        elif k == 2:
            t = '(let ((mk (lambda (n) (cons (lambda () n) (lambda (v) (set! n v)))))) (let* ((o (mk %s)) (w (mk %s))) ' \
                '((cdr o) %s) (list ((car o)) ((car w)))))' % (inner, self.expr('int', d - 1), self.const('int'))
        elif k == 3:
            t = '(let loop ((i 0) (acc \'())) (if (= i %d) (map (lambda (q) (q)) acc) (loop (+ i 1) (cons (lambda () ' \
                '(set! i (+ i 10)) i) acc))))' % s.below(4)
        else:
            t = '(let ((x %s)) (let ((f (lambda () x))) (let ((x %s)) (list (f) x ((lambda (x) (f)) 77)))))' % (
                inner, self.expr('int', d - 1))
        if ty == 'list':
            return t
        if ty == 'int' and self.prim('apply'):
            return '(apply + %s)' % t
        return self.expr(ty, d)

    # ---- top level
    def program(self, depth=5, forms=6):
        s = self.s
        out = ['(define (tr n v) (display "<") (display n) (display ">") v)']
        for _ in range(s.range(1, forms)):
            k = s.below(8)
            if k == 0:
                v = s.choice(NAMES)
                t = self.rtype()
                out.append('(define %s %s)' % (v, self.expr(t, depth - 1)))
                self.scopes[0][v] = t
            elif k == 1:
                v = s.choice(['f', 'g', 'h'])
                t = ('p', s.below(4), s.bool(1, 4))
                self.scopes[0].pop(v, None)
                self.scopes[0][v] = 'hidden'
                f, sc = self.formals(t[1], t[2])
                self.scopes.append(sc)
                b = self.body('int', depth - 1)
                self.scopes.pop()
                if s.bool():
                    fs = f[1:] if f.startswith('(') else '. ' + f + ')'
                    out.append('(define (%s %s %s)' % (v, fs, b))
                else:
                    out.append('(define %s (lambda %s %s))' % (v, f, b))
                self.scopes[0][v] = t
            elif k == 2 and self.vars('int'):
                v = s.choice(self.vars('int'))
                out.append('(begin (set! %s %s) %s)' % (v, self.expr('int', depth - 1), v))
            elif k == 3 and self.bad and s.bool(1, 3):
                i = self.ill()
                w = s.below(5)
                out.append(i if w == 0 else '(list 1 %s)' % i if w == 1 else '(if #f %s 5)' % i if w == 2 else
                           '((lambda (x) %s) 3)' % i if w == 3 else '(begin (tr 0 0) %s)' % i)
            else:
                t = s.choice(['int', 'int', 'list', 'bool', 'sym', 'any'])
                out.append(self.expr(t, depth))
        return '\n'.join(out)
