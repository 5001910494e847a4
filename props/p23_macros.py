"""syntax-rules: matching, transcription and hygiene against a reference expander."""
from vlib.engine import Part
from vlib.lines import Lines, check_lines
from vlib.sx import sym, Sym, Char, Str, Pair, Vec, NIL, lst, unlist, to_write, parse_all
from vlib import hyg
from props.p01_eval import Scope

ID = 'P23'
RULE = 'at least one macro use is expanded, and the pattern has an ellipsis or the program shadows a name that a template uses'
ASSUMPTIONS = ['hygienic-macro build', 'sequences of unequal length under one ellipsis are not specified', 'macros are not used as values; local syntax bindings come from let-syntax and letrec-syntax']
VARS = ['hygienic-san', 'hygienic-opt', 'hygienic-gcs']
MODE = lambda c: 'g%d' % c.gc if c.variant.endswith('gcs') else '-'
DOTS = sym('...')
ATOMS = [1, 2, 0, -3, True, False, NIL, Char(97), Char(0x3042)]


def atom(s):
    k = s.below(12)
    if k == 11:
        return Str(s.choice(['', 'a', 'あ']))
    if k == 10:
        return Vec([])
    return s.choice(ATOMS)


def gpat(s, st, d, lev=0):
    k = s.below(12)
    if d <= 0 or k < 5:
        if k == 4:
            return atom(s)
        if st['lits'] and k == 3:
            return s.choice(st['lits'])
        if st['names'] and not (k == 2 and st['bad'] and s.bool(1, 3)):
            n = st['names'].pop()
            st['vars'].append((n, lev))
            return n
        if st['vars'] and st['bad']:
            return s.choice(st['vars'])[0]
        return atom(s)
    n = s.range(0, 3)
    xs = [gpat(s, st, d - 1, lev) for _ in range(n)]
    if s.bool():
        xs += [gpat(s, st, d - 1, lev + 1), DOTS]
        if st['bad'] and s.bool(1, 6):
            xs.insert(s.below(len(xs) + 1), s.choice([DOTS, sym('zz')]))
        return Vec(xs) if k > 9 else lst(xs)
    if k > 9:
        return Vec(xs)
    if k == 5 and xs:
        return lst(xs, gpat(s, st, 0, lev))
    return lst(xs)


def gtmpl(s, vars, d, lev, bad):
    """a template; vars: [(name, level)]"""
    k = s.below(12)
    ok = [v for v, l in vars if l == lev] if not (bad and s.bool(1, 15)) else [v for v, _ in vars]
    if d <= 0 or k < 5:
        if ok and k != 4:
            return s.choice(ok)
        return s.choice([sym('a'), sym('foo'), sym('if'), sym('x'), sym('else')]) if s.bool() else atom(s)
    xs = []
    for _ in range(s.range(0, 3)):
        deeper = [v for v, l in vars if l > lev]
        if deeper and s.bool(2, 3):
            # a repetition needs a variable of a deeper level
            v, l = s.choice([x for x in vars if x[1] > lev])
            xs += [gdeep(s, vars, v, l, d - 1, lev + 1, bad), DOTS]
            if bad and s.bool(1, 12):
                xs.append(DOTS)
        else:
            xs.append(gtmpl(s, vars, d - 1, lev, bad))
    if bad and s.bool(1, 15):
        xs += [sym('x'), DOTS]
    if k > 9:
        return Vec(xs)
    if k == 5 and xs:
        return lst(xs, gtmpl(s, vars, 0, lev, bad))
    return lst(xs)


def gdeep(s, vars, v, l, d, lev, bad):
    if l == lev:
        t = v
    else:
        t = lst([gdeep(s, vars, v, l, d - 1, lev + 1, bad), DOTS]) if s.bool(3, 4) else Vec([gdeep(s, vars, v, l, d - 1, lev + 1, bad), DOTS])
    k = s.below(5)
    if k <= 1:
        return t
    # companions of the same level may have another length: those are not specified and get dropped by the model
    x = gtmpl(s, [w for w in vars if w[0] is v or s.bool(1, 3)], d - 1, lev, bad)
    return lst([t, x]) if k == 2 else Vec([x, t]) if k == 3 else Pair(x, t)


def gform(s, p, lits, near):
    """a form that matches the pattern, or nearly"""
    if near and s.bool(1, 12):
        return s.choice([NIL, 1, sym('q'), lst([1]), lst([1, 2], 3), Vec([1]), sym('lit1')])
    if isinstance(p, Sym):
        if p in lits:
            return p
        k = s.below(8)
        if k <= 2:
            return s.range(0, 9)
        if k == 3:
            return s.choice([sym('x'), sym('y'), sym('a'), sym('foo'), sym('lit1')])
        if k == 4:
            return lst([1, sym('x')], s.choice([NIL, 2]))
        if k == 5:
            return Vec([sym('b'), 1])
        return atom(s)
    if isinstance(p, (Pair, Vec)):
        if isinstance(p, Vec):
            ps, pt = p.v, NIL
        else:
            ps, pt = hyg.items(p)
        xs = []
        n = st_len = s.weighted([(3, 2), (2, 1), (2, 0), (2, 3), (1, 4)])
        for i, q in enumerate(ps):
            if q is DOTS:
                continue
            if i + 1 < len(ps) and ps[i + 1] is DOTS:
                xs += [gform(s, q, lits, near) for _ in range(n)]
            else:
                xs.append(gform(s, q, lits, near))
        if near and s.bool(1, 10):
            if xs and s.bool():
                xs.pop(s.below(len(xs)))
            else:
                xs.insert(s.below(len(xs) + 1), 7)
        if isinstance(p, Vec):
            return Vec(xs)
        t = NIL if pt is NIL else gform(s, pt, lits, near)
        if near and s.bool(1, 20) and xs:
            t = s.choice([5, NIL, lst([6])])
        return lst(xs, t)
    return p


def run(lines, it, form, tag, more=()):
    """model one top-level form: append (text, expected) or return False when it is not specified"""
    text = to_write(form) if not isinstance(form, str) else form
    try:
        x = parse_all(text)[0] if isinstance(form, str) else form
        v = it.ev(x, it.top)
        if v is hyg.UNDEF:
            exp = None
        else:
            exp = '=> ' + to_write(v)
            if '#<' in exp:
                return False
    except hyg.Bad:
        exp = '!E'
    except (hyg.Fuel, RecursionError, IndexError, AttributeError) + tuple(more):
        return False
    if exp is None:
        text = '(begin %s 0)' % text if tag != 'define-syntax' else text
        exp = '=> 0' if tag != 'define-syntax' else None
    if exp is None:
        lines.add(text, '=> #<undef>')
    else:
        lines.add(text, exp, tag=tag)
    return True


def macro_src(lits, rules):
    return lst([sym('syntax-rules'), lst(lits)] + [lst([Pair(sym('_'), p), t]) for p, t in rules])


def proper(form):
    while isinstance(form, Pair):
        form = form.cdr
    return form is NIL


def gen_match(s):
    L = Lines()
    it = hyg.Interp()
    dotted = 0
    hits = 0
    bad = s.bool(1, 5)
    for mi in range(s.range(1, 4)):
        lits = [sym(n) for n in s.choice([[], [], ['lit1'], ['lit1', 'else'], ['lit1', '=>', 'lit2'], ['q']])]
        rules = []
        for _ in range(s.range(1, 3)):
            names = [sym(n) for n in s.shuffle(['a', 'b', 'c', 'x', 'y', 'e', 'foo', 'list', 'if', 'lambda'])]
            st = dict(lits=lits, names=names, vars=[], bad=bad)
            p = gpat(s, st, s.range(1, 4))
            if not isinstance(p, Pair) and s.bool(3, 4):
                p = lst([p])
            if isinstance(p, (Pair,)) or p is NIL or p in names or isinstance(p, Sym):
                pass
            else:
                p = lst([p])
            q = lst([sym('quote'), gtmpl(s, st['vars'], s.range(1, 4), 0, bad)])
            rules.append((p, q))
        n = sym('m%d' % mi)
        d = lst([sym('define-syntax'), n, macro_src(lits, rules)])
        try:
            it.ev(d, it.top)
            L.add(to_write(d), '=> #<undef>')
        except hyg.Bad:
            L.add(to_write(d), '!E', tag='malformed')
            hits += 1
            continue
        dotted += '...' in to_write(d)
        for _ in range(s.range(1, 5)):
            p, _t = s.choice(rules)
            f = gform(s, p, lits, s.bool(1, 2))
            if not proper(f):
                continue
            use = Pair(n, f)
            if lits and s.bool(1, 4):
                use = lst([sym('let'), lst([lst([s.choice(lits), 1])]), use])
            before = it.expansions
            if run(L, it, use, 'use'):
                hits += it.expansions > before
                if use.car is n and s.bool(1, 4) and not L.t[-1].startswith(b'(begin '):
                    # the two steps one by one
                    L.add('(eval (expand-macro %s (interaction-environment))' % to_write(use)[1:], L.e[-1].decode(), 'expand-macro')
        if s.bool(1, 10):
            L.add('(expand-macro %s 1)' % s.choice(['car', '5', '"m"', 'not-bound', "'%s" % to_write(n), '(list)']), '!E', 'expand-macro of no macro')
    return L.case(variant=s.choice(VARS), nontrivial=hits > 0 and (dotted > 0 or bad), gc=s.choice([1, 3, 20]))


def gen_data(s):
    """the match form: the variables of the first pattern that matches a datum"""
    L = Lines()
    hits = 0
    hyg.COST[0] = 10 ** 6
    for _ in range(s.range(1, 5)):
        clauses = []
        for _ in range(s.range(1, 4)):
            st = dict(lits=[], names=[sym(n) for n in s.shuffle(['a', 'b', 'c', 'x', 'y', 'e', 'foo', 'out'])], vars=[], bad=False)
            clauses.append((gpat(s, st, s.range(1, 4)), st['vars']))
        f = gform(s, s.choice(clauses)[0], [], s.bool())
        exp, cl = '#<undef>', []
        for i, (p, vs) in enumerate(clauses):
            names = [v for v, _ in vs]
            body = '(list %d%s out)' % (i, ''.join(' ' + to_write(v) for v in names))
            cl.append('(%s %s%s)' % (to_write(p), s.choice(['', '', '5 ', '(set! cnt (+ cnt 1)) ']), body))
            o = {}
            if exp == '#<undef>' and hyg.match(p, f, [], None, o):
                exp = to_write(lst([i] + [hyg_value(o[v]) for v in names] + [hyg_value(o[sym('out')]) if sym('out') in o else sym('outer')]))
                hits += bool(o)
        if '#<farsym' in exp:
            continue
        L.add("(let ((out 'outer)) (match '%s %s))" % (to_write(f), ' '.join(cl)), '=> ' + exp, 'clause' if exp[0] == '(' else 'none')
    return L.case(variant=s.choice(VARS), nontrivial=hits > 0, gc=s.choice([1, 3, 20]))


def hyg_value(v):
    return lst([hyg_value(x) for x in v]) if isinstance(v, list) else v


def gen_deep(s):
    """ellipses nested deeper than the index buffers"""
    L = Lines()
    it = hyg.Interp()
    n = s.choice([3, 8, 14, 15, 16, 17, 18, 20, 31, 32, 33, 34, 40])
    kinds = [s.bool() for _ in range(n)]
    a, b = sym('a'), sym('b')
    p = lst([a, b, DOTS])
    t = s.choice([lst([lst([b, b]), DOTS, a]), lst([a, b, DOTS, b, DOTS]), Vec([a, lst([b]), DOTS]), lst([b, DOTS, a, a])])

    def leaf():
        return lst([s.range(0, 9) for _ in range(s.range(1, 4))])
    for k in kinds:
        p = (Vec if k else lst)([p, DOTS])
        t = (lst if s.bool() else Vec)([t, DOTS] + ([t, DOTS] if s.bool(1, 25) else []))

    def form(i):
        if i < 0:
            return leaf()
        return (Vec if kinds[i] else lst)([form(i - 1) for _ in range(s.weighted([(12, 1), (1, 2), (1, 0)]) if i % 4 == 0 else 1)])
    d = lst([sym('define-syntax'), sym('m'), macro_src([], [(lst([p]), lst([sym('quote'), t])), (sym('x'), lst([sym('quote'), sym('no')]))])])
    it.fuel = 10 ** 6
    it.ev(d, it.top)
    L.add(to_write(d), '=> #<undef>')
    for _ in range(s.range(1, 3)):
        f = form(n - 1)
        if s.bool(1, 4):
            f = lst([f])
        run(L, it, lst([sym('m'), f]), 'deep')
    return L.case(variant=s.choice(VARS), nontrivial=n >= 14, gc=s.choice([3, 20]))


def check(c, env):
    return check_lines(c, env, mode=MODE(c), preload='(define cnt 0)\n')


PARTS = [Part('match', gen_match, check, 4000, 150000, variants=VARS, batch=20),
         Part('data', gen_data, check, 2000, 60000, variants=VARS, batch=20),
         Part('deep', gen_deep, check, 300, 6000, variants=VARS, batch=10)]


# ---- hygiene --------------------------------------------------------------

CORE = 'define if let let* letrec lambda begin cond case and or set! do quote let-syntax letrec-syntax'.split()
PRIMS = {'+': 2, '-': 2, '*': 2}
TESTS = ['=', '<', 'not']
POOL = ['x', 'y', 't', 'u', 'x', 'y', 't', 'if', 'let', '+', 'begin', 'list', 'lambda', 'set!', '=', 'or', 'quote', 'tmp', 'm', 'f', '-', 'let*', 'cond', 'define', 'do']
PVN = ['p', 'q', 'x', 'y', 'e', 't', 'if', 'body', 'n', 'let', '+']


class G:
    def __init__(self, s):
        self.s = s
        self.shadow = 0
        self.nm = 0

    def have(self, env, *names):
        return all(env.get(n) == ('core',) for n in names)

    def binder(self, env, n=1):
        s = self.s
        out = []
        while len(out) < n:
            b = s.choice(POOL) if s.bool(5, 6) else s.choice(['v1', 'v2', 'v3', 'v4'])
            if env.get(b, (0,))[0] in ('pe', 'pid', 'pbody', 'pes', 'plit') or b in out:
                b = 'v%d' % s.range(5, 99)
                if b in out:
                    continue
            if env.get(b) == ('core',):
                self.shadow += 1
            out.append(b)
        return out

    def expr(self, env, d):
        s = self.s
        for _ in range(6):
            r = self.try_expr(env, d)
            if r is not None:
                return r
        return str(s.range(0, 9))

    def test(self, env, d):
        s = self.s
        ops = [o for o in ('=', '<') if self.have(env, o)]
        k = s.below(6)
        if ops and k < 4:
            return '(%s %s %s)' % (s.choice(ops), self.expr(env, d - 1), self.expr(env, d - 1))
        if k == 4 and self.have(env, 'not'):
            return '(not %s)' % s.choice(['#t', '#f', '1'])
        return s.choice(['#t', '#f'])

    def leaf(self, env):
        s = self.s
        vs = [n for n in env if env[n][0] in ('int', 'pe')]
        if vs and s.bool(5, 6):
            return s.choice(vs)
        return str(s.range(0, 9))

    def try_expr(self, env, d):
        s = self.s
        have = self.have
        if d <= 0:
            return self.leaf(env)
        macs = [n for n in env if env[n][0] == 'mac']
        pids = [n for n in env if env[n][0] == 'pid']
        pess = [n for n in env if env[n][0] == 'pes']
        if macs and s.bool(2, 5):
            return self.use(env, s.choice(macs), d)
        if pids and s.bool(2, 5):
            return self.pid(env, s.choice(pids), d)
        if pess and s.bool(1, 4):
            v = s.choice(pess)
            ops = [o for o in ('+', '*') if have(env, o)]
            if not ops:
                return None
            return '(%s %s ...)' % (s.choice(ops), v) if s.bool() else ('(%s (%s %s 1) ...)' % (s.choice(ops), s.choice(ops), v))
        k = s.below(18)
        if k == 0:
            return self.leaf(env)
        if k <= 3:
            ops = [o for o in PRIMS if have(env, o)]
            fns = [n for n in env if env[n][0] == 'fn']
            if fns and (k == 3 or not ops):
                f = s.choice(fns)
                return '(%s%s)' % (f, ''.join(' ' + self.expr(env, d - 1) for _ in range(env[f][1])))
            return '(%s %s %s)' % (s.choice(ops), self.expr(env, d - 1), self.expr(env, d - 1)) if ops else None
        if k == 4:
            return '(if %s %s %s)' % (self.test(env, d), self.expr(env, d - 1), self.expr(env, d - 1)) if have(env, 'if') else None
        if k in (5, 6):
            if not have(env, 'let'):
                return None
            bs = self.binder(env, s.range(1, 2))
            e2 = {**env, **{b: ('int',) for b in bs}}
            return '(let (%s) %s)' % (' '.join('(%s %s)' % (b, self.expr(env, d - 1)) for b in bs), self.expr(e2, d - 1))
        if k == 7:
            if not have(env, 'lambda'):
                return None
            b, = self.binder(env)
            return '((lambda (%s) %s) %s)' % (b, self.expr({**env, b: ('int',)}, d - 1), self.expr(env, d - 1))
        if k == 8:
            if not have(env, 'letrec', 'lambda'):
                return None
            f, = self.binder(env)
            e1 = {k2: v for k2, v in env.items() if k2 != f}
            if not self.have(e1, 'lambda'):
                return None
            b, = self.binder(e1)
            return '(letrec ((%s (lambda (%s) %s))) %s)' % (f, b, self.expr({**e1, b: ('int',)}, d - 2), self.expr({**env, f: ('fn', 1)}, d - 1))
        if k == 9:
            vs = [n for n in env if env[n][0] == 'int']
            if not vs or not have(env, 'begin', 'set!'):
                return None
            return '(begin (set! %s %s) %s)' % (s.choice(vs), self.expr(env, d - 1), self.expr(env, d - 1))
        if k == 10:
            if not have(env, 'do', '+', '='):
                return None
            b, = self.binder(env)
            e2 = {**env, b: ('int',)}
            if not self.have(e2, '+', '='):
                return None
            return '(do ((%s 0 (+ %s 1))) ((= %s %d) %s))' % (b, b, b, s.range(0, 3), self.expr(e2, d - 1))
        if k == 11:
            return '(cond (%s %s) (else %s))' % (self.test(env, d), self.expr(env, d - 1), self.expr(env, d - 1)) if have(env, 'cond') else None
        if k == 12:
            return '(case %s ((0 1 2) %s) ((7 x y) 8) (else %s))' % (self.expr(env, d - 1), self.expr(env, d - 1), self.expr(env, d - 1)) if have(env, 'case') else None
        if k == 13:
            w = s.choice(['or', 'and'])
            return '(%s %s %s)' % (w, self.expr(env, d - 1), self.expr(env, d - 1)) if have(env, w) else None
        if k == 14:
            if not have(env, 'let*'):
                return None
            b, c = self.binder(env, 2)
            e2 = {**env, b: ('int',)}
            return '(let* ((%s %s) (%s %s)) %s)' % (b, self.expr(env, d - 1), c, self.expr(e2, d - 1), self.expr({**e2, c: ('int',)}, d - 1))
        if k == 15:
            pe = [n for n in env if env[n][0] == 'pe']
            if pe and have(env, 'begin', 'quote'):
                p = s.choice(pe)
                return '(begin (quote %s) %s)' % (s.choice([p, '(%s x)' % p, '#(y %s)' % p]), p)
            return None
        if k == 17:
            if not have(env, 'let', 'define'):
                return None
            b, c = self.binder(env, 2)
            if 'define' in (b, c):
                return None
            e1 = {n: v for n, v in env.items() if n not in (b, c)}
            e2 = {**env, b: ('int',), c: ('fn', 1)}
            v, = self.binder(e1)
            return '(let () (define %s %s) (define (%s %s) %s) %s)' % (b, self.expr(e1, d - 1), c, v, self.expr({**e1, v: ('int',)}, d - 2), self.expr(e2, d - 1))
        if k == 16:
            w = s.choice(['let-syntax', 'letrec-syntax'])
            if d < 2 or not have(env, w):
                return None
            b, = self.binder(env)
            env1 = env if w == 'let-syntax' else {k2: v for k2, v in env.items() if k2 != b}
            src, sig = self.macro(env1, d - 1, any(env[n][0] in ('pe', 'pid', 'pes', 'pbody', 'plit') for n in env))
            return '(%s ((%s %s)) %s)' % (w, b, src, self.expr({**env, b: ('mac', sig)}, d - 1))

    def pid(self, env, v, d):
        """bind the identifier that is the argument around its body"""
        s = self.s
        body = env[v][1]
        wrap = body
        if s.bool(1, 3) and self.have(env, 'let'):
            b, = self.binder(env)
            wrap = '(let ((%s %s)) %s)' % (b, self.expr(env, 1), body)
        elif s.bool(1, 3) and self.have(env, '+'):
            wrap = '(+ %s %s)' % (body, self.expr(env, 1))
        e = self.expr(env, d - 1)
        k = s.below(4)
        if k == 0 and self.have(env, 'let'):
            return '(let ((%s %s)) %s)' % (v, e, wrap)
        if k == 1 and self.have(env, 'lambda'):
            return '((lambda (%s) %s) %s)' % (v, wrap, e)
        if k == 2 and self.have(env, 'let*'):
            b, = self.binder(env)
            return '(let* ((%s %s) (%s %s)) %s)' % (b, self.expr(env, 1), v, e, wrap)
        if k == 3 and self.have(env, 'do', '+', '='):
            return '(do ((%s 0 (+ %s 1))) ((= %s 2) %s))' % (v, v, v, wrap)
        return None

    def macro(self, env, d, nested):
        s = self.s
        if not nested and s.bool(1, 3):
            r = self.idiom(env)
            if r:
                return r
        rules = []
        sigs = []
        lits = []
        for _ in range(1 if s.bool(2, 3) else 2):
            names = [n for n in s.shuffle(PVN) if env.get(n, (0,))[0] not in ('pe', 'pid', 'pbody', 'pes', 'plit')]
            e2 = dict(env)
            pat, sig = [], []
            if s.bool(1, 4):
                l = s.choice(['lit', 'x', 'y', 'if', 'to'])
                if l in names or env.get(l, (0,))[0] not in ('pe', 'pid', 'pbody', 'pes', 'plit'):
                    lits.append(l)
                    pat.append(l)
                    sig.append(('lit', l))
                    names = [n for n in names if n != l]
            for _ in range(s.range(0, 3)):
                if len(names) < 3:
                    break
                k = s.below(4)
                if k <= 1:
                    v = names.pop()
                    e2[v] = ('pe',)
                    pat.append(v)
                    sig.append(('e',))
                elif k == 2 or nested:
                    v, w = names.pop(), names.pop()
                    e2[v] = ('pid', w)
                    e2[w] = ('pbody',)
                    pat += [v, w]
                    sig.append(('id',))
                elif not (sig and sig[-1] == ('es',)):
                    v = names.pop()
                    e2[v] = ('pes',)
                    pat += [v, '...']
                    sig.append(('es',))
                    break
            # a pattern variable of this rule must not be a literal of another one
            rules.append((pat, e2))
            sigs.append(sig)
        rules = [(p, e) for p, e in rules]
        for p, e in rules:
            for l in lits:
                if e.get(l, (0,))[0] in ('pe', 'pid', 'pbody', 'pes') and e.get(l) != env.get(l):
                    return self.macro(env, d, nested)
        src = '(syntax-rules (%s)%s)' % (' '.join(sorted(set(lits))), ''.join(' ((_%s) %s)' % (''.join(' ' + x for x in p), self.expr(e, d)) for p, e in rules))
        return src, ('rules', sigs)

    def use(self, env, m, d):
        s = self.s
        sig = env[m][1]
        if sig[0] == 'idiom':
            return sig[1](m, env, d)
        out = []
        for p in s.choice(sig[1]):
            if p[0] == 'lit':
                out.append(p[1])
            elif p[0] == 'e':
                out.append(self.expr(env, d - 1))
            elif p[0] == 'es':
                out += [self.expr(env, d - 1) for _ in range(s.range(0, 3))]
            else:
                b, = self.binder(env)
                out += [b, self.expr({**env, b: ('int',)}, d - 1)]
        return '(%s%s)' % (m, ''.join(' ' + x for x in out))

    def idiom(self, env):
        """well-known macros, with the names of their temporaries chosen badly"""
        s = self.s
        have = self.have
        t, t2 = self.binder({**env, 'e': ('pe',), 'r': ('pe',), 'b': ('pe',), 'i': ('pe',), 'n': ('pe',), 'v': ('pe',), 'a': ('pe',)}, 2)
        if t in ('if', 'let', '=', '+', 'set!', 'begin', 'do', 'lambda', 'letrec') or t2 in ('if', 'let', '=', '+', 'set!', 'begin', 'do', 'lambda', 'letrec'):
            return None
        k = s.below(8)
        E = self.expr

        def es(env, d, lo, hi):
            return ''.join(' ' + E(env, d - 1) for _ in range(s.range(lo, hi)))
        self_name = '_self'
        if k == 0 and have(env, 'let', 'if', '='):
            return ('(syntax-rules () ((_) 0) ((_ e) e) ((_ e r) (let ((%s e)) (if (= %s 0) r %s))) ((_ e r b) (let ((%s e)) (if (= %s 0) (let ((%s r)) (if (= %s 0) b %s)) %s))))' % ((t,) * 9),
                    ('idiom', lambda m, env, d: '(%s%s)' % (m, es(env, d, 0, 3))))
        if k == 1 and have(env, 'let', 'set!'):
            def usw(m, env, d):
                vs = [n for n in env if env[n][0] == 'int']
                if len(vs) < 2 or not have(env, 'begin'):
                    return None
                a, b = s.choice(vs), s.choice(vs)
                return '(begin (%s %s %s) %s)' % (m, a, b, E(env, d - 1))
            return '(syntax-rules () ((_ a b) (let ((%s a)) (set! a b) (set! b %s))))' % (t, t), ('idiom', usw)
        if k == 2 and have(env, 'let', 'do', '=', '+', 'set!', 'begin'):
            def udo(m, env, d):
                b, = self.binder(env)
                return '(%s (%s %d) %s)' % (m, b, s.range(0, 3), E({**env, b: ('int',)}, d - 1))
            return '(syntax-rules () ((_ (i n) b) (let ((%s 0) (%s n)) (do ((i 0 (+ i 1))) ((= i %s) %s) (set! %s (+ %s b))))))' % (t, t2, t2, t, t, t), ('idiom', udo)
        if k == 3 and have(env, 'letrec', 'lambda', 'if'):
            def uloop(m, env, d):
                f, = self.binder(env)
                a, = self.binder({k2: v for k2, v in env.items() if k2 != f})
                return '(%s %s %s %s %s)' % (m, f, a, E(env, d - 1), E({**env, f: ('fn0', 1), a: ('int',)}, d - 1))
            return '(syntax-rules () ((_ n a v b) ((letrec ((n (lambda (a) b))) n) v)))', ('idiom', uloop)
        if k == 4 and have(env, 'if'):
            return '(syntax-rules (then else) ((_ a then b else e) (if a b e)) ((_ a then b) (if a b 0)) ((_ a b) 77))', \
                ('idiom', lambda m, env, d: s.choice(['(%s %s then %s else %s)', '(%s %s then %s)  ; %s', '(%s %s %s) ; %s']).split(';')[0] % ((m, self.test(env, d), E(env, d - 1), E(env, d - 1))[:4] if False else ()) if False else
                 ('(%s %s then %s else %s)' % (m, self.test(env, d), E(env, d - 1), E(env, d - 1)) if s.bool() else '(%s %s then %s)' % (m, self.test(env, d), E(env, d - 1))))
        if k == 5 and have(env, 'let', 'lambda'):
            def ulet(m, env, d):
                bs = self.binder(env, s.range(0, 3))
                return '(%s (%s) %s)' % (m, ' '.join('(%s %s)' % (b, E(env, d - 1)) for b in bs), E({**env, **{b: ('int',) for b in bs}}, d - 1))
            return '(syntax-rules () ((_ ((n v) ...) b) ((lambda (n ...) b) v ...)))', ('idiom', ulet)
        if k == 6 and have(env, 'let', '+'):
            return '(syntax-rules () ((_ (e v) ...) (let ((%s (+ e ...)) (%s (+ v ...))) (+ %s %s))))' % (t, t2, t, t2), \
                ('idiom', lambda m, env, d: '(%s%s)' % (m, ''.join(' (%s %s)' % (E(env, d - 1), E(env, d - 1)) for _ in range(s.range(0, 3)))))
        if k == 7 and have(env, 'let', 'begin', 'quote'):
            return "(syntax-rules () ((_ e r ...) (let ((%s 'e)) (begin '(r ...) e))))" % t, ('idiom', lambda m, env, d: '(%s%s)' % (m, es(env, d, 1, 3)))
        return None

    def recursive(self, env, name):
        """recursive macros for define-syntax and letrec-syntax"""
        s = self.s
        have = self.have
        t, = self.binder({**env, 'e': ('pe',), 'r': ('pe',), 'b': ('pe',), 'n': ('pe',), 'v': ('pe',)})
        if t in ('if', 'let', '=', '+', 'lambda', 'set!', 'begin') or t == name:
            t = 'v0'
        E = self.expr

        def es(env, d, lo, hi):
            return ''.join(' ' + E(env, d - 1) for _ in range(s.range(lo, hi)))

        def lets(m, env, d):
            bs, cur, out = self.binder(env, s.range(0, 3)), dict(env), []
            for b in bs:
                out.append('(%s %s)' % (b, E(cur, d - 1)))
                cur[b] = ('int',)
            return '(%s (%s) %s)' % (m, ' '.join(out), E(cur, d - 1)), bs
        k = s.below(6)
        if k == 0 and have(env, 'let', 'if', '='):
            return '(syntax-rules () ((_) 0) ((_ e) e) ((_ e r ...) (let ((%s e)) (if (= %s 0) (%s r ...) %s))))' % (t, t, name, t), \
                ('idiom', lambda m, env, d: '(%s%s)' % (m, es(env, d, 0, 4)))
        if k == 1 and have(env, 'let'):
            return '(syntax-rules () ((_ () b) (let () b)) ((_ ((n v) r ...) b) (let ((n v)) (%s (r ...) b))))' % name, ('idiom', lambda m, env, d: lets(m, env, d)[0])
        if k == 2 and have(env, 'let'):
            # temporaries generated by recursion: all of one name, all different
            def ut(m, env, d):
                bs = self.binder(env, s.range(0, 4))
                return '(%s (%s) () () %s)' % (m, ' '.join('(%s %s)' % (b, E(env, d - 1)) for b in bs), E({**env, **{b: ('int',) for b in bs}}, d - 1))
            return '(syntax-rules () ((_ () ((n e) ...) ((r v) ...) b) (let ((e v) ...) (let ((n e) ...) b))) ((_ ((n v) r ...) (p ...) (q ...) b) (%s (r ...) (p ... (n %s)) (q ... (%s v)) b)))' % (name, t, t), ('idiom', ut)
        if k == 3 and have(env, 'let', '+'):
            return '(syntax-rules () ((_) 0) ((_ e r ...) (let ((%s e)) (+ %s (%s r ...)))))' % (t, t, name), ('idiom', lambda m, env, d: '(%s%s)' % (m, es(env, d, 0, 4)))
        if k == 4:
            return '(syntax-rules () ((_ () (e ...)) (e ...)) ((_ (e r ...) (v ...)) (%s (r ...) (e v ...))))' % name, \
                ('idiom', lambda m, env, d: '(%s (%s) ())' % (m, ' '.join([E(env, d - 1) for _ in range(s.range(1, 3))] + [s.choice([o for o in ('+', '*', '-') if have(env, o)] or ['+'])])) if any(have(env, o) for o in '+*-') else None)
        if k == 5 and have(env, 'if'):
            return '(syntax-rules (else) ((_) 0) ((_ (else e)) e) ((_ (e b) r ...) (if e b (%s r ...))))' % name, \
                ('idiom', lambda m, env, d: '(%s%s%s)' % (m, ''.join(' (%s %s)' % (self.test(env, d), E(env, d - 1)) for _ in range(s.range(0, 3))), ' (else %s)' % E(env, d - 1) if s.bool() else ''))
        return None


def gen_hyg(s):
    g = G(s)
    L = Lines()
    it = hyg.Interp(3000)
    env = {n: ('core',) for n in CORE + list(PRIMS) + TESTS + ['list']}
    for n in ('x', 'y', 't'):
        v = s.range(10, 99)
        L.add('(define %s %d)' % (n, v), '=> ' + n)
        it.top.d[sym(n)] = hyg.Cell(v)
        env[n] = ('int',)
    ok = 0
    for i in range(s.range(2, 7)):
        k = s.below(8)
        d = s.range(1, 4)
        if k <= 2:
            n = 'm%d' % s.range(1, 3)
            r = g.recursive({**env}, n) if s.bool(1, 3) else None
            src, sig = r or g.macro(env, d, False)
            if run(L, it, '(define-syntax %s %s)' % (n, src), 'define-syntax'):
                env[n] = ('mac', sig)
            else:
                break
        elif k == 3:
            f = s.choice(['f', 'g'])
            b, = g.binder(env)
            e = '(define (%s %s) %s)' % (f, b, g.expr({**env, b: ('int',)}, d))
            x = parse_all(e)[0]
            it.ev(x, it.top)
            L.add('(begin %s 0)' % e, '=> 0')
            env[f] = ('fn', 1)
        elif k == 4:
            n = s.choice(['x', 'y', 't', 'u'])
            if not run(L, it, '(define %s %d)' % (n, s.range(0, 99)), 'define'):
                break
            env[n] = ('int',)
        else:
            before = it.expansions
            e = '(list %s %s x y t)' % (g.expr(env, d), g.expr(env, d + 1))
            it.fuel = 3000
            # an error in the middle leaves both sides in the same state
            if not run(L, it, e, 'expression'):
                break
            ok += it.expansions > before and L.e[-1] != b'!E'
    return L.case(variant=s.choice(VARS), nontrivial=ok > 0, gc=s.choice([1, 3, 20]))


PARTS.append(Part('hygiene', gen_hyg, check, 6000, 300000, variants=VARS, batch=20))


# ---- soup: all binding forms and macros over two to four names -------------
class Soup(Scope):
    def __init__(self, s, names):
        Scope.__init__(self, s, names)
        self.k = 0
        self.macs = {}

    def expr(self, d):
        s = self.s
        k = s.below(24) if d > 0 else s.below(3)
        if k > 19:
            k = 3
        if k == 0:
            return self.const()
        if k <= 2:
            return self.name()
        e = lambda: self.expr(d - 1)
        if self.macs and d > 0 and s.bool():
            n = s.choice(sorted(self.macs))
            ps = s.choice(self.macs[n])
            a = []
            for p in ps:
                if p == 'r':
                    a += [e() for _ in range(s.below(4))]
                elif p in self.names:
                    a.append(e() if s.bool() else self.name())
                elif p[0] == '(' and p != '()':
                    a.append('(%s %s)' % (self.name(), e()))
                elif p != '...':
                    a.append(p)
            return '(%s%s)' % (n, ''.join(' ' + x for x in a))
        if k <= 4:
            w = s.choice(['let-syntax', 'letrec-syntax'])
            names = s.shuffle(self.names)[:s.range(1, 2)]
            old = self.macs
            inner = {k2: v for k2, v in old.items() if k2 not in names} if w == 'letrec-syntax' else old
            rs = {}
            for n in names:
                self.macs = inner
                rs[n] = self.rules(d - 1)
                old = {**old, n: self.pats}
            keep, self.macs = self.macs, old
            r = '(%s (%s) %s)' % (w, ' '.join('(%s %s)' % (n, rs[n]) for n in names), self.body(d - 1))
            self.macs = {k2: v for k2, v in inner.items() if k2 not in names}
            return r
        if k <= 8:
            return '(%s%s)' % (self.name(), ''.join(' ' + e() for _ in range(s.below(4))))
        if k == 9:
            return '((lambda %s %s)%s)' % (self.formals(), self.body(d - 1), ''.join(' ' + e() for _ in range(s.below(4))))
        if k == 10:
            return '(lambda %s %s)' % (self.formals(), self.body(d - 1))
        if k == 11:
            return '(let (%s) %s)' % (self.binds(d), self.body(d - 1))
        if k == 12:
            return '(let %s (%s) %s)' % (self.name(), self.binds(d), self.body(d - 1))
        if k == 13:
            return '(%s (%s) %s)' % (s.choice(['let*', 'let*', 'letrec']), self.binds(d), self.body(d - 1))
        if k == 14:
            return '(letrec (%s) %s)' % (self.binds(d, True), self.body(d - 1))
        if k == 15:
            return '(begin %s (set! %s %s) %s)' % (e(), self.name(), e(), e())
        if k == 16:
            return '(do ((it 0 (+ it 1)) (%s %s %s)) ((= it %d) %s))' % (self.name(), e(), e(), s.below(3), e())
        if k == 17:
            return "(list %s '%s %s)" % (e(), s.choice([self.name(), '(%s %s)' % (self.name(), self.name())]), e())
        if k == 18:
            return s.choice(['(if %s %s %s)', '(cond (%s %s) (else %s))', '(case %s ((1 2 3) %s) (else %s))', '(and %s %s %s)', '(or %s %s %s)', '`(1 ,%s (,%s) ,%s)']) % (e(), e(), e())
        return '(begin (set! %s %s) %s)' % (self.name(), e(), self.name())

    def rules(self, d):
        s = self.s
        lits = [n for n in self.names if s.bool(1, 8)]
        out = []
        pats = []
        for _ in range(s.weighted([(5, 1), (3, 2), (1, 3)])):
            used = []

            def pat(dd):
                k = s.below(8)
                free = [n for n in self.names if n not in used and n not in lits]
                if k <= 4 and free:
                    n = s.choice(free)
                    used.append(n)
                    return n
                if k == 5 and lits:
                    return s.choice(lits)
                if k == 6 and dd:
                    return '(%s %s)' % (pat(dd - 1), pat(dd - 1))
                return s.choice(['1', '()', '#t']) if s.bool(1, 3) or not free else (used.append(free[0]) or free[0])
            ps = [pat(1) for _ in range(s.below(4))]
            t = self.expr(d)
            if used and s.bool():
                t = s.choice(['(list %s %s)', '(let ((%s 3)) (list %s %s))' % (s.choice(self.names), '%s', '%s'), '(let ((%s %%s)) %%s)' % s.choice(self.names), '((lambda (%s) (list %%s 1 %%s)) 4)' % s.choice(used)]) % (s.choice(used), t)
            if s.bool(1, 4):
                # a rest of arguments that goes to the end of a call
                ps += ['r', '...']
                t = s.choice(['(list %s r ...)' % t, '(%s r ...)' % s.choice(self.names), '(begin %s r ...)' % self.const(), '(lambda (r ...) %s)' % t])
            pats.append(ps)
            out.append('((_%s) %s)' % (''.join(' ' + p for p in ps), t))
        self.pats = pats
        return '(syntax-rules (%s) %s)' % (' '.join(lits), ' '.join(out))

    def body(self, d):
        if self.s.bool(1, 8):
            n = self.name()
            return '(define %s %s) %s' % (n, self.expr(d - 1), self.expr(d))
        return self.expr(d)


SHOW = "(define (show v) (cond ((procedure? v) 'proc) ((pair? v) (cons (show (car v)) (show (cdr v)))) (else v)))"


def show(v):
    if isinstance(v, (hyg.Clo, hyg.Prim)):
        return sym('proc')
    return Pair(show(v.car), show(v.cdr)) if isinstance(v, Pair) else v


def gen_soup(s):
    L = Lines()
    it = hyg.Interp(3000)
    it.top.d[sym('show')] = hyg.Cell(hyg.Prim(show))
    L.add(SHOW, '=> (show v)')
    g = Soup(s, s.choice([['a', 'b', 'c'], ['a', 'b'], ['a', 'b', 'c', 'd'], ['a', 'b', 'list'], ['a', 'b', 'if'], ['a', 'b', 'it', '+']]))
    for n in g.names:
        if n in 'abcd' and s.bool(3, 4):
            run(L, it, '(define %s %s)' % (n, s.choice(['100', '200', '(lambda (x) (list x))', '(lambda x x)'])), 'define', (TypeError,))
    ok = 0
    for i in range(s.range(2, 6)):
        it.fuel = 3000
        before = it.expansions
        if s.bool(1, 3) or i == 0:
            n = s.choice([n for n in g.names if n in 'abcd'])
            if not run(L, it, '(define-syntax %s %s)' % (n, g.rules(s.range(1, 3))), 'define-syntax', (TypeError,)):
                break
            if L.e[-1] != b'!E':
                g.macs[n] = g.pats
        elif not run(L, it, '(show (let () %s))' % g.expr(s.range(2, 5)), 'expression', (TypeError, KeyError)):
            break
        ok += it.expansions > before and L.e[-1] != b'!E'
    return L.case(variant=s.choice(VARS), nontrivial=ok > 0, gc=s.choice([1, 3, 20]))


PARTS.append(Part('soup', gen_soup, check, 4000, 300000, variants=VARS, batch=20))
