"""define-macro: abstraction of sub-terms into macros never changes a program; definition, expansion and misuse."""
from vlib import sx
from vlib.engine import Case, Part
from vlib.gen import fixrange
from vlib.lines import Lines, check_lines
from vlib.proggen import Prog
from vlib.ref import run_program, Unmodelled
from vlib.sx import Pair, Sym, NIL, Vec, lst, sym

ID = 'P28'
RULE = ('abstract: at least one macro use is evaluated in a modelled program; history: at least one macro is used after '
        'a redefinition, an error or from inside a procedure')
ASSUMPTIONS = ['vlib/ref.py is the reference semantics of the program before abstraction',
               'a macro body is evaluated in the toplevel environment and its expansion in the environment of the use, '
               'anew at each evaluation']
VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san', 'compact-gcs', 'fatty-gcs']

Q = sym('quote')
QQ = sym('quasiquote')
UQ = sym('unquote')
UQS = sym('unquote-splicing')
BODYDEF = {sym('define')}


def contains(o, names):
    st = [o]
    while st:
        o = st.pop()
        if isinstance(o, Pair):
            st += [o.car, o.cdr]
        elif isinstance(o, Vec):
            st += o.v
        elif isinstance(o, Sym) and o in names:
            return True
    return False


def size(o):
    n, st = 0, [o]
    while st:
        o = st.pop()
        n += 1
        if isinstance(o, Pair):
            st += [o.car, o.cdr]
    return n


class Abstract:
    def __init__(self, s, builder_ok, rate):
        self.s, self.defs, self.builder_ok, self.rate = s, [], builder_ok, rate
        self.styles = set()
        self.scope = []

    # ---- where the expressions are
    def seq(self, p):
        """list of expressions (maybe improper)"""
        if isinstance(p, Pair):
            return Pair(self.expr(p.car), self.seq(p.cdr))
        return p

    def body(self, p):
        """body: definitions keep their shape"""
        if isinstance(p, Pair):
            x = p.car
            if isinstance(x, Pair) and isinstance(x.car, Sym) and x.car.name in ('define', 'begin'):
                return Pair(self.keep(x), self.body(p.cdr))
            return self.seq(p)
        return p

    def keep(self, x):
        """a form that must stay syntactically visible; its parts may change"""
        if x.car.name == 'define' and isinstance(x.cdr, Pair) and isinstance(x.cdr.cdr, Pair):
            if isinstance(x.cdr.car, Pair):
                return Pair(x.car, Pair(x.cdr.car, self.body(x.cdr.cdr)))
            return Pair(x.car, Pair(x.cdr.car, self.seq(x.cdr.cdr)))
        if x.car.name == 'begin':
            def f(p):
                if not isinstance(p, Pair):
                    return p
                y = p.car
                if isinstance(y, Pair) and isinstance(y.car, Sym) and y.car.name in ('define', 'begin'):
                    y = self.keep(y)
                return Pair(y, f(p.cdr))
            return Pair(x.car, f(x.cdr))
        return x

    def inner(self, e):
        """e with macro uses below its top"""
        if not isinstance(e, Pair):
            return e
        h = e.car
        if not isinstance(h, Sym):
            return self.seq(e)
        n = h.name
        r = e.cdr
        try:
            if n in ('quote', 'quasiquote'):
                return e
            if n in ('if', 'and', 'or', 'begin', 'delay'):
                return Pair(h, self.seq(r))
            if n == 'set!':
                return Pair(h, Pair(r.car, self.seq(r.cdr)))
            if n == 'lambda':
                return Pair(h, Pair(r.car, self.body(r.cdr)))
            if n == 'define':
                return self.keep(e)
            if n in ('let', 'let*', 'letrec'):
                if n == 'let' and isinstance(r.car, Sym):
                    return Pair(h, Pair(r.car, Pair(self.bindings(r.cdr.car), self.body(r.cdr.cdr))))
                return Pair(h, Pair(self.bindings(r.car), self.body(r.cdr)))
            if n == 'do':
                return Pair(h, Pair(self.bindings(r.car), Pair(self.seq(r.cdr.car), self.seq(r.cdr.cdr))))
            if n == 'cond':
                return Pair(h, self.clauses(r))
            if n == 'case':
                return Pair(h, Pair(self.expr(r.car), self.clauses(r.cdr, True)))
            if n in ('else', '=>'):
                return e
        except AttributeError:          # malformed
            return e
        return self.seq(e)

    def bindings(self, p):
        if not isinstance(p, Pair):
            return p
        b = p.car
        if isinstance(b, Pair):
            b = Pair(b.car, self.seq(b.cdr))
        return Pair(b, self.bindings(p.cdr))

    def clauses(self, p, case=False):
        if not isinstance(p, Pair):
            return p
        c = p.car
        if isinstance(c, Pair):
            keep = case or c.car is sym('else')
            tail = c.cdr
            if isinstance(tail, Pair) and tail.car is sym('=>'):
                tail = Pair(tail.car, self.seq(tail.cdr))
            else:
                tail = self.seq(tail)
            c = Pair(c.car if keep else self.expr(c.car), tail)
        return Pair(c, self.clauses(p.cdr, case))

    def expr(self, e):
        e = self.inner(e)
        if not self.s.bool(*self.rate) or size(e) > 400:
            return e
        if isinstance(e, Sym) and e.name in ('else', '=>'):
            return e
        return self.abstract(e)

    # ---- one macro
    def abstract(self, e):
        s = self.s
        args, params = [], []
        rest = None
        names = ['p', 'q', 'x', 'y', 'list', 'car', 'a', 'r', 'if', 'tr']
        s.shuffle(names)
        budget = s.below(4)
        style = s.weighted([(6, 'qq'), (3, 'build'), (1, 'id'), (1, 'lambda')])
        if contains(e, (QQ, UQ, UQS)):
            style = 'build' if style != 'id' else 'id'
        if style == 'build' and not self.builder_ok:
            style = 'id'
        self.styles.add(style)
        if style == 'build':
            names = [n for n in names if n not in ('list', 'if')]
        names = [n for n in names if n not in ('if',)]
        mark = {}

        def pick(o, depth):
            """replace random sub-terms by parameters"""
            nonlocal rest
            if style == 'id':
                return o
            if len(args) < budget and depth and s.bool(1, 4):
                v = names[len(params)]
                params.append(v)
                args.append(o)
                m = Vec([])
                mark[id(m)] = (m, v, False)
                return m
            if isinstance(o, Pair):
                # splice a proper tail into the rest parameter
                if rest is None and depth and s.bool(1, 12):
                    try:
                        items = sx.unlist(o)
                    except ValueError:
                        items = None
                    if items is not None:
                        v = names[len(names) - 1]
                        rest = (v, items)
                        m = Vec([])
                        mark[id(m)] = (m, v, True)
                        return m
                return Pair(pick(o.car, 1), picktail(o.cdr))
            return o

        def picktail(t):
            # inside a list; a tail may become the spliced rest list
            nonlocal rest
            if not isinstance(t, Pair):
                return t if t is NIL else pick(t, 1)
            if rest is None and s.bool(1, 10):
                try:
                    items = sx.unlist(t)
                except ValueError:
                    items = None
                if items is not None:
                    v = names[len(names) - 1]
                    rest = (v, items)
                    m = Vec([])
                    mark[id(m)] = (m, v, 'tail')
                    return m
            return Pair(pick(t.car, 1), picktail(t.cdr))

        t = pick(e, s.bool(1, 8))
        if style == 'id':
            params, args = ['x'], [e]
        name = 'm%d' % (len(self.defs) + 1)

        def quasi(o):
            """text of the quasiquote template"""
            k = mark.get(id(o))
            if k:
                return ',' + k[1]
            if isinstance(o, Pair):
                out = []
                while isinstance(o, Pair):
                    out.append(quasi(o.car))
                    o = o.cdr
                    k = mark.get(id(o))
                    if k and k[2] == 'tail' and s.bool(2, 3):
                        out.append(',@' + k[1])
                        o = NIL
                if o is not NIL:
                    out += ['.', quasi(o)]
                return '(' + ' '.join(out) + ')'
            return sx.to_write(o)

        def build(o):
            k = mark.get(id(o))
            if k:
                return k[1]
            if isinstance(o, Pair) and has(o):
                if s.bool(1, 3):
                    n = []
                    p = o
                    while isinstance(p, Pair):
                        n.append(build(p.car))
                        p = p.cdr
                    if p is NIL:
                        return '(list %s)' % ' '.join(n)
                return '(cons %s %s)' % (build(o.car), build(o.cdr))
            return "'" + sx.to_write(o)

        def has(o):
            if id(o) in mark:
                return True
            return isinstance(o, Pair) and (has(o.car) or has(o.cdr))

        if style == 'id':
            tmpl = 'x'
        elif style == 'build':
            tmpl = build(t)
        else:
            tmpl = '`' + quasi(t)
        f = ' '.join(params)
        if rest:
            f += ' . ' + rest[0]
        if style == 'lambda' or s.bool(1, 5):
            ff = '(%s)' % f if params or not rest else rest[0]
            d = '(define-macro %s (lambda %s %s))' % (name, ff, tmpl)
        else:
            pre = s.choice(['', '', '(define z 1) ', '(set! %s %s) ' % (params[0], params[0]) if params else ''])
            d = '(define-macro (%s%s) %s%s)' % (name, ' ' + f if f else '', pre, tmpl)
        self.defs.append(d)
        return lst([sym(name)] + args + (rest[1] if rest else []))


def gen_abstract(s):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (3, VARS[2]), (1, VARS[3]), (1, VARS[4]), (1, VARS[5])])
    g = Prog(s, bad=s.choice([0, 4, 12]))
    text = g.program(s.range(2, 4))
    try:
        exp = run_program(text, fixrange(variant))
    except Unmodelled as e:
        return Case(text, None, False, tags=['unmodelled: %s' % e], variant=variant)
    forms = sx.parse_all(text)
    if len(forms) != len(exp):
        return Case(text, None, False, tags=['form count'], variant=variant)
    redefined = any('(define %s ' % n in text or '(define (%s ' % n in text or '(define (%s)' % n in text
                    for n in ('list', 'cons', 'car', 'tr', 'append'))
    a = Abstract(s, not redefined, s.choice([(1, 4), (1, 10), (1, 2)]))
    first = s.bool(1, 3)
    out, want = [], []
    for f, x in zip(forms, exp):
        n = len(a.defs)
        if isinstance(f, Pair) and isinstance(f.car, Sym) and f.car.name in ('define', 'begin') and not s.bool(1, 6):
            f2 = a.inner(f)
        else:
            f2 = a.expr(f)
        if not first:
            out += a.defs[n:]
            want += ['=> #<undef>\n'] * (len(a.defs) - n)
        out.append(sx.to_write(f2))
        want.append(x)
    if first:
        out = a.defs + out
        want = ['=> #<undef>\n'] * len(a.defs) + want
    return Case('\n'.join(out), ''.join(want), bool(a.defs), variant=variant,
                tags=sorted(a.styles) + [variant])


def check_abstract(c, env):
    if c.expect is None:
        return None
    r = env.run(c.text, '-', c.variant, cpu=20)
    if not r.done:
        return 'did not complete: %s\n%s' % (r.describe(), r.text()[-500:])
    if r.text() != c.expect + '#DONE\n':
        return 'expected %r but got %r (%s)' % (c.expect, r.text()[:2000], r.err[:300])


# ---------------------------------------------------------------- history
class Hist:
    """Toplevel names and what they denote"""

    def __init__(self, s):
        self.s, self.l = s, Lines()
        self.t = {}             # name -> ('macro', expander, nparams, rest) | ('var', value)
        self.exp = 0            # the global expansion counter
        self.calls = 0
        self.odd = False

    def define(self, name):
        s = self.s
        n, rest = s.below(3), s.bool(1, 3)
        ps = ['p', 'q'][:n]
        k = s.below(6)
        if k == 0:       # value: sum of the arguments, evaluated at use
            body = "(cons '+ (append (list %s) %s))" % (' '.join(ps), 'r' if rest else "'()")
            fn = 'sum'
        elif k == 1:     # arguments unevaluated, as data
            body = "(list 'quote (append (list %s) %s))" % (' '.join(ps), 'r' if rest else "'()")
            fn = 'data'
        elif k == 2:     # computed at expansion time
            body = '(length (append (list %s) %s))' % (' '.join(ps), 'r' if rest else "'()")
            fn = 'count'
        elif k == 3:     # the expansion counter at expansion time
            body = 'ex'
            fn = 'counter'
        elif k == 4:     # captures the variable v of the use
            body = "`(list v . (%s))" % ' '.join([',' + p for p in ps] + ([',@r'] if rest else []))
            fn = 'capture'
        else:            # reads the toplevel v at expansion time
            body = 'v'
            fn = 'topv'
        f = ' '.join(ps)
        form = s.below(3)
        body = '(set! ex (+ ex 1)) ' + body
        if form == 0:
            ff = '(%s%s)' % (f, ' . r' if rest else '') if n or not rest else 'r'
            t = '(define-macro %s (lambda %s %s))' % (name, ff, body)
        elif form == 1:
            t = '(define-macro (%s%s%s) %s)' % (name, ' ' + f if f else '', ' . r' if rest else '', body)
        else:
            self.l.add('(define cl%d (lambda %s %s))' % (self.calls, '(%s%s)' % (f, ' . r' if rest else '') if n or not rest else 'r', body),
                       '=> cl%d' % self.calls)
            t = '(define-macro %s cl%d)' % (name, self.calls)
            self.t['cl%d' % self.calls] = ('macro', fn, n, rest)        # the closure itself is marked
            self.calls += 1
        self.l.add(t, '=> #<undef>', 'define')
        self.t[name] = ('macro', fn, n, rest)

    def use(self, name, v, nargs):
        """(text, value or None) of a use whose environment has v"""
        k, fn, n, rest = self.t[name]
        s = self.s
        vals = [s.range(-9, 9) for _ in range(nargs)]
        syms = fn == 'data'
        args = [s.choice(['foo', '(a . b)', '"s"', '#f', 'undefined', '(car 1)']) if syms or fn == 'count' or fn in ('counter', 'topv')
                else str(x) for x in vals]
        t = '(%s)' % ' '.join([name] + args)

        def run(v):
            if nargs < n or (nargs > n and not rest):
                return None
            self.exp += 1
            if fn == 'sum':
                return str(sum(vals))
            if fn == 'data':
                return '(%s)' % ' '.join(args)
            if fn == 'count':
                return str(nargs)
            if fn == 'counter':
                return str(self.exp)
            if fn == 'capture':
                return '(%s)' % ' '.join(map(str, [v] + vals))
            return '100'
        return t, run

    def macros(self):
        return sorted(n for n, d in self.t.items() if d[0] == 'macro')

    def step(self):
        s, l = self.s, self.l
        ms = self.macros()
        k = s.below(16)
        names = ['m1', 'm2', 'm3']
        if k <= 2 or not ms:
            name = s.choice(names)
            if name in self.t:
                l.nt = True
                l.tags.append('redefine')
            self.define(name)
            return
        m = s.choice(ms)
        n, rest = self.t[m][2], self.t[m][3]
        if k <= 7:
            t, run = self.use(m, 100, n + (s.below(3) if rest else 0))
            kind = s.below(6)
            l.tags.append('use%d' % kind)
            if kind == 0:
                l.add(t, '=> ' + run(100))
            elif kind == 1:     # v bound locally
                l.add('(let ((v 7)) %s)' % t, '=> ' + run(7))
            elif kind == 2:     # expanded at each evaluation
                i = self.calls
                self.calls += 1
                l.add('(define (f%d v) %s)' % (i, t), '=> (f%d v)' % i)
                for v in (1, 2):
                    l.add('(f%d %d)' % (i, v), '=> ' + run(v), nt=True)
            elif kind == 3:
                vs = []
                for v in (1, 2, 3):
                    vs.append(run(v))
                l.add('(map (lambda (v) %s) (list 1 2 3))' % t, '=> (%s)' % ' '.join(vs), nt=True)
            elif kind == 4:     # arguments of a call, left to right
                t2, run2 = self.use(m, 100, n)
                a = run(100)
                b = run2(100)
                l.add('(list %s %s)' % (t, t2), '=> (%s %s)' % (a, b))
            else:
                l.add('(let* ((v 5) (w %s)) (set! v 6) (list v w %s))' % (t, t), '=> (6 %s %s)' % (run(5), run(6)))
        elif k == 8:
            bad = [i for i in range(n)] if rest else [i for i in range(n + 3) if i != n]
            if bad:
                t, run = self.use(m, 100, s.choice(bad))
                l.add(t, '!E', 'arity', nt=True)
        elif k == 9:
            t = s.choice(['(list %s)', '(define bad %s)', '(apply %s (list 1 2))', "(map %s '(1 2))", '(if #t %s 1)',
                          '(let ((w %s)) 1)', '(set! ex %s)', '(list 1 . (%s))', '(begin %s)']) % m
            if t.startswith('(if') or t.startswith('(begin') or t.startswith('(define'):
                return
            l.add(t, '!E', 'as value', nt=True)
        elif k == 10:
            # local variables hide macros
            l.add('(let ((%s (lambda a (list v a)))) (%s 1 2))' % (m, m), '=> (100 (1 2))', 'shadow')
            l.add('((lambda (%s) (+ %s 1)) 4)' % (m, m), '=> 5')
        elif k == 11:
            l.add(s.choice(['((lambda (x) (define-macro (mm) x) (mm)) 1)', '(define-macro)', '(define-macro mq)',
                            '(define-macro 1 (lambda (x) x))', '(define-macro "m" (lambda (x) x))',
                            '(define-macro (1 x) x)', '(define-macro mq 1 2)',
                            '(let () (define-macro (mm x) x) (mm 1))']), '!E', 'misuse', nt=True)
        elif k == 12:
            x = s.choice(['5', '"str"', "'sym", 'car', "'(1 2)", '(+ 1 2)', 'if', 'and', m, 'undefined-variable'])
            name = s.choice(names)
            l.add('(define-macro %s %s)' % (name, x), '!E', 'not a closure', nt=True)
            if x in ('if', 'and', m, 'undefined-variable'):
                return self.settle(name)    # nothing was defined
            self.t.pop(name, None)
            l.add(name, '!E')               # left unbound
            l.add('(%s 1)' % name, '!E')
        elif k == 13:
            name = s.choice(names)
            l.add('(define (%s . a) (list v a))' % name, '=> (%s . a)' % name, 'now a procedure', nt=True)
            self.t.pop(name, None)
            l.add('(%s 1 2)' % name, '=> (100 (1 2))')
            l.add('(apply %s (list 3))' % name, '=> (100 (3))')
        elif k == 14:
            l.add('ex', '=> %d' % self.exp)
        else:
            # a macro expanding to the use of another, and to a definition
            t, run = self.use(m, 100, n + (s.below(2) if rest else 0))
            name = s.choice(['n1', 'n2'])
            l.add("(define-macro (%s var) (list 'let (list (list var 3)) '%s))" % (name, t), '=> #<undef>')
            l.add('(%s v)' % name, '=> ' + run(3), 'nested', nt=True)
            if s.bool():
                l.add("(define-macro (%s var) (list 'define var '%s))" % (name, t), '=> #<undef>')
                l.add('(%s w)' % name, '=> w')
                val = run(100)
                l.add('w', '=> ' + val)

    def settle(self, name):
        """after a failed definition whose right-hand side was itself an error: the old meaning stays"""
        if name in self.t:
            t, run = self.use(name, 100, self.t[name][2])
            self.l.add(t, '=> ' + run(100))


def gen_history(s):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (3, VARS[2]), (1, VARS[3]), (1, VARS[4]), (1, VARS[5])])
    h = Hist(s)
    h.l.add('(define ex 0)', '=> ex')
    h.l.add('(define v 100)', '=> v')
    for _ in range(s.range(4, 25)):
        h.step()
    return h.l.case([variant], variant=variant)


def check_history(c, env):
    return check_lines(c, env, '-')


PARTS = [Part('abstract', gen_abstract, check_abstract, 7000, 250000, variants=VARS),
         Part('history', gen_history, check_history, 4000, 120000, variants=VARS)]
