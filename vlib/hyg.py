"""Reference implementation of syntax-rules and of a core language with
hygienic macros: identifiers are symbols or aliases (a name together with the
environment of the macro definition that introduced it)."""
from .sx import Sym, sym, Char, Str, Pair, Vec, Const, NIL, to_write, parse_all


class Bad(Exception):
    """an error that the program raises"""


class Fuel(Exception):
    """the program runs too long for the model"""


def plist(*xs, tail=NIL):
    r = tail
    for x in reversed(xs):
        r = Pair(x, r)
    return r


class Alias:
    __slots__ = ('id', 'env')

    def __init__(self, id, env):
        self.id, self.env = id, env


def isid(x):
    return isinstance(x, (Sym, Alias))


def strip(x, budget=None):
    """datum of a form; a form can be a DAG of exponential size"""
    if budget is None:
        budget = [20000]
    budget[0] -= 1
    if budget[0] < 0:
        raise Fuel()
    while isinstance(x, Alias):
        x = x.id
    if isinstance(x, Pair):
        return Pair(strip(x.car, budget), strip(x.cdr, budget))
    if isinstance(x, Vec):
        return Vec([strip(e, budget) for e in x.v], x.const)
    return x


class Env:
    def __init__(self, parent, vars=None):
        self.parent = parent
        self.d = dict(vars or {})
        for k in self.d:
            if not isid(k):
                raise Fuel()     # malformed binding: how and when it is reported is not modelled


def lookup(i, env):
    """the binding cell of an identifier, or the symbol itself when it is free"""
    while True:
        e = env
        while e is not None and e.parent is not None:
            if i in e.d:
                return e.d[i]
            e = e.parent
        if isinstance(i, Alias):
            i, env = i.id, i.env
            continue
        top = e
        return top.d.get(i, i)


class Cell:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Special:
    def __init__(self, name):
        self.name = name


class Macro:
    def __init__(self, lits, rules, env):
        self.lits, self.rules, self.env = lits, rules, env


class Clo:
    def __init__(self, formals, rest, body, env):
        self.formals, self.rest, self.body, self.env = formals, rest, body, env


class Prim:
    def __init__(self, f):
        self.f = f


DOTS = sym('...')


def items(x):
    r = []
    while isinstance(x, Pair):
        r.append(x.car)
        x = x.cdr
    return r, x


COST = [0]       # nodes that expansions may still visit


def spend():
    COST[0] -= 1
    if COST[0] < 0:
        raise Fuel()


# ---- patterns -------------------------------------------------------------

def pat_vars(p, lits, lev=0, out=None):
    """pattern variable -> level; raises Bad on what is no pattern"""
    spend()
    out = {} if out is None else out
    if isid(p):
        if p is DOTS:
            raise Bad('misplaced ellipsis')
        if not any(p is l for l in lits):
            if p in out:
                raise Bad('duplicate pattern variable')
            out[p] = lev
    elif isinstance(p, (Pair, Vec)):
        xs, tail = (p.v, NIL) if isinstance(p, Vec) else items(p)
        for k, x in enumerate(xs):
            if x is DOTS:
                if k == 0 or k != len(xs) - 1 or tail is not NIL or xs[k - 1] is DOTS:
                    raise Bad('misplaced ellipsis')
                continue
            pat_vars(x, lits, lev + (k + 1 < len(xs) and xs[k + 1] is DOTS), out)
        if tail is not NIL:
            pat_vars(tail, lits, lev, out)
    return out


def same_const(a, b):
    if isinstance(a, Str):
        return isinstance(b, Str) and a.s == b.s
    if isinstance(a, Char):
        return isinstance(b, Char) and a.c == b.c
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, int):
        return isinstance(b, int) and a == b
    return a is b


def match(p, f, lits, same, out):
    if isid(p):
        if any(p is l for l in lits):
            return isid(f) and same(p, f)
        out[p] = f
        return True
    if isinstance(p, Vec) or isinstance(p, Pair):
        if isinstance(p, Vec):
            if not isinstance(f, Vec):
                return False
            ps, pt, fs, ft = p.v, NIL, f.v, NIL
        else:
            ps, pt = items(p)
            fs, ft = items(f)
        if ps and ps[-1] is DOTS:
            k = len(ps) - 2
            if len(fs) < k or ft is not NIL:
                return False
            for a, b in zip(ps[:k], fs):
                if not match(a, b, lits, same, out):
                    return False
            vs = pat_vars(ps[k], lits)
            acc = {v: [] for v in vs}
            for b in fs[k:]:
                o = {}
                if not match(ps[k], b, lits, same, o):
                    return False
                for v in vs:
                    acc[v].append(o[v])
            out.update(acc)
            return True
        if len(fs) < len(ps):
            return False
        for a, b in zip(ps, fs):
            if not match(a, b, lits, same, out):
                return False
        rest = plist(*fs[len(ps):], tail=ft) if not isinstance(p, Vec) else (NIL if len(fs) == len(ps) else 0)
        if pt is NIL:
            return rest is NIL
        return match(pt, rest, lits, same, out)
    if p is NIL:
        return f is NIL
    return same_const(p, f)


# ---- templates ------------------------------------------------------------

def tmpl_check(t, vs, lev=0):
    """number of pattern variables in a template; raises Bad"""
    spend()
    if isid(t):
        if t is DOTS:
            raise Bad('misplaced ellipsis')
        if t in vs:
            if vs[t] != lev:
                raise Bad('wrong level')
            return 1
        return 0
    if isinstance(t, (Pair, Vec)):
        xs, tail = (t.v, NIL) if isinstance(t, Vec) else items(t)
        n = 0
        for k, x in enumerate(xs):
            if x is DOTS:
                if k == 0 or xs[k - 1] is DOTS:
                    raise Bad('misplaced ellipsis')
                continue
            rep = k + 1 < len(xs) and xs[k + 1] is DOTS
            m = tmpl_check(x, vs, lev + rep)
            if rep and not m:
                raise Bad('constant repetition')
            n += m
        if tail is not NIL:
            n += tmpl_check(tail, vs, lev)
        return n
    return 0


def tmpl_vars(t, b):
    if isid(t):
        return {t} if t in b else set()
    if isinstance(t, Pair):
        return tmpl_vars(t.car, b) | tmpl_vars(t.cdr, b)
    if isinstance(t, Vec):
        return set().union(*[tmpl_vars(x, b) for x in t.v]) if t.v else set()
    return set()


def fill(t, b, ren):
    spend()
    if isid(t):
        return b[t] if t in b else ren(t)
    if isinstance(t, (Pair, Vec)):
        xs, tail = (t.v, NIL) if isinstance(t, Vec) else items(t)
        r = []
        k = 0
        while k < len(xs):
            if k + 1 < len(xs) and xs[k + 1] is DOTS:
                vs = tmpl_vars(xs[k], b)
                ns = {len(b[v]) for v in vs if isinstance(b[v], list)}
                if len(ns) != 1:
                    raise Fuel()     # not specified
                n = ns.pop()
                for j in range(n):
                    r.append(fill(xs[k], {**b, **{v: b[v][j] for v in vs if isinstance(b[v], list)}}, ren))
                k += 2
            else:
                r.append(fill(xs[k], b, ren))
                k += 1
        if isinstance(t, Vec):
            return Vec(r)
        return plist(*r, tail=NIL if tail is NIL else fill(tail, b, ren))
    return t


def make_macro(args, env):
    xs, t = items(args)
    if len(xs) < 2 or t is not NIL:
        raise Bad('syntax-rules')
    lits, lt = items(xs[0])
    if lt is not NIL or not all(isid(l) for l in lits):
        raise Bad('literals')
    rules = []
    for r in xs[1:]:
        ys, t = items(r)
        if len(ys) != 2 or t is not NIL or not isinstance(ys[0], Pair) or not isid(ys[0].car):
            raise Bad('rule')
        vs = pat_vars(ys[0].cdr, lits)
        tmpl_check(ys[1], vs)
        rules.append((ys[0].cdr, ys[1]))
    return Macro(lits, rules, env)


def expand(m, args, env):
    def same(l, f):
        return lookup(l, m.env) is lookup(f, env)
    for p, t in m.rules:
        b = {}
        if match(p, args, m.lits, same, b):
            al = {}

            def ren(i):
                if i not in al:
                    al[i] = Alias(i, m.env)
                return al[i]
            return fill(t, b, ren)
    raise Bad('no matching pattern')


SHAPE = {'if': (2, 3), 'let': (2, 0), 'let*': (2, 0), 'letrec': (2, 0), 'lambda': (2, 0), 'begin': (1, 0), 'cond': (1, 0), 'case': (2, 0), 'and': (0, 0), 'or': (0, 0), 'set!': (2, 2), 'do': (2, 0),
         'quote': (1, 1), 'quasiquote': (1, 1), 'define': (2, 0), 'define-syntax': (2, 2), 'let-syntax': (2, 0), 'letrec-syntax': (2, 0)}


# ---- evaluator ------------------------------------------------------------

class Interp:
    def __init__(self, fuel=4000):
        self.fuel = fuel
        COST[0] = 300000
        self.expansions = 0
        top = self.top = Env(None)
        for n in ('if let let* letrec lambda begin cond case and or set! do quote quasiquote define define-syntax let-syntax letrec-syntax').split():
            top.d[sym(n)] = Cell(Special(n))
        P = {'+': lambda *a: sum(self.num(a)), '-': self.sub, '*': self.mul, 'list': lambda *a: plist(*a, tail=NIL), 'cons': Pair, 'car': self.car, 'cdr': self.cdr,
             '=': lambda a, b: self.num((a, b))[0] == b, '<': lambda a, b: self.num((a, b))[0] < b, 'not': lambda a: a is False, 'null?': lambda a: a is NIL,
             'vector': lambda *a: Vec(a), 'eq?': lambda a, b: a is b if not isinstance(a, int) else a == b}
        for n, f in P.items():
            top.d[sym(n)] = Cell(Prim(f))

    @staticmethod
    def num(a):
        if not all(isinstance(x, int) and not isinstance(x, bool) for x in a):
            raise Bad('number')
        return a

    def sub(self, *a):
        self.num(a)
        if not a:
            raise Bad('-')
        return -a[0] if len(a) == 1 else a[0] - sum(a[1:])

    def mul(self, *a):
        r = 1
        for x in self.num(a):
            r *= x
        if abs(r) > 1 << 50:
            raise Fuel()
        return r

    @staticmethod
    def car(p):
        if not isinstance(p, Pair):
            raise Bad('car')
        return p.car

    @staticmethod
    def cdr(p):
        if not isinstance(p, Pair):
            raise Bad('cdr')
        return p.cdr

    def body(self, b, env):
        xs, t = items(b)
        if not xs or t is not NIL:
            raise Bad('body')
        k = 0
        defs = []
        while k < len(xs) and isinstance(xs[k], Pair) and isid(xs[k].car) and self.special(xs[k].car, env) == 'define':
            d, _ = items(xs[k])
            if isinstance(d[1], Pair):
                defs.append((d[1].car, plist(sym('lambda'), d[1].cdr, *d[2:], tail=NIL), d[1].cdr, d[2:]))
            else:
                defs.append((d[1], d[2], None, None))
            if not isid(defs[-1][0]) or defs[-1][0] in [x[0] for x in defs[:-1]]:
                raise Fuel()
            k += 1
        if defs:
            if k == len(xs):
                raise Bad('body')
            env = Env(env, {d[0]: Cell(UNBOUND) for d in defs})
            vals = [self.ev(d[1], env) if d[2] is None and d[3] is None else self.clo(d[2], plist(*d[3], tail=NIL), env) for d in defs]
            for d, v in zip(defs, vals):
                env.d[d[0]].v = v
        for x in xs[k:-1]:
            self.ev(x, env)
        return self.ev(xs[-1], env)

    @staticmethod
    def bindings(bs, dup=False):
        """what is not a list of distinct identifiers and their values is not specified"""
        xs, t = items(bs)
        out = []
        for b in xs:
            b, t2 = items(b)
            if t2 is not NIL or len(b) < 2 or not isid(b[0]) or (b[0] in [x[0] for x in out] and not dup):
                raise Fuel()
            out.append(b)
        if t is not NIL:
            raise Fuel()
        return out

    def special(self, i, env):
        c = lookup(i, env)
        return c.v.name if isinstance(c, Cell) and isinstance(c.v, Special) else None

    def clo(self, formals, body, env):
        fs, rest = items(formals)
        if not all(isid(f) for f in fs) or not (rest is NIL or isid(rest)) or len(set(fs)) != len(fs):
            raise Fuel()
        return Clo(fs, None if rest is NIL else rest, body, env)

    def apply(self, f, a):
        if isinstance(f, Prim):
            try:
                return f.f(*a)
            except TypeError:
                raise Bad('arity')
        if not isinstance(f, Clo):
            raise Fuel()     # whether the arguments are evaluated before the error is not specified
        if len(a) < len(f.formals) or (f.rest is None and len(a) != len(f.formals)):
            raise Bad('arity')
        env = Env(f.env, {n: Cell(v) for n, v in zip(f.formals, a)})
        if f.rest is not None:
            env.d[f.rest] = Cell(plist(*a[len(f.formals):], tail=NIL))
        return self.body(f.body, env)

    def ev(self, x, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()
        if isid(x):
            c = lookup(x, env)
            if not isinstance(c, Cell):
                raise Bad('unbound')
            if c.v is UNBOUND or isinstance(c.v, (Special, Macro)):
                raise Fuel()
            return c.v
        if not isinstance(x, Pair):
            return strip(x)
        h = x.car
        if isid(h):
            c = lookup(h, env)
            if isinstance(c, Cell) and isinstance(c.v, Special):
                return self.spec(c.v.name, x.cdr, env)
            if isinstance(c, Cell) and isinstance(c.v, Macro):
                self.expansions += 1
                return self.ev(expand(c.v, x.cdr, env), env)
        f = self.ev(h, env)
        if not isinstance(f, (Clo, Prim)):
            raise Fuel()     # whether the arguments are evaluated before the error is not specified
        return self.apply(f, [self.ev(a, env) for a in items(x.cdr)[0]])

    def mac(self, spec, env):
        if isinstance(spec, Pair) and isid(spec.car) and lookup(spec.car, env) is sym('syntax-rules'):
            return make_macro(spec.cdr, env)
        raise Bad('macro required')

    def spec(self, n, args, env):
        a, t = items(args)
        lo, hi = SHAPE[n]
        if t is not NIL or len(a) < lo or (hi and len(a) > hi):
            raise Fuel()
        if n in ('cond', 'case') and not all(isinstance(c, Pair) and isinstance(c.cdr, Pair) or n == 'cond' and isinstance(c, Pair) and c.cdr is NIL for c in a[n == 'case':]):
            raise Fuel()
        ev = self.ev
        if n == 'quote':
            return strip(a[0])
        if n == 'quasiquote':
            return self.qq(a[0], env)
        if n == 'if':
            if ev(a[0], env) is not False:
                return ev(a[1], env)
            return ev(a[2], env) if len(a) > 2 else UNDEF
        if n == 'lambda':
            return self.clo(a[0], args.cdr, env)
        if n == 'begin':
            r = UNDEF
            for e in a:
                r = ev(e, env)
            return r
        if n in ('let', 'letrec', 'let*'):
            if n == 'let' and isid(a[0]):
                bs = self.bindings(a[1])
                vals = [ev(b[1], env) for b in bs]
                e2 = Env(env, {a[0]: Cell(UNBOUND)})
                f = self.clo(plist(*[b[0] for b in bs], tail=NIL), args.cdr.cdr, e2)
                e2.d[a[0]].v = f
                return self.apply(f, vals)
            bs = self.bindings(a[0], n == 'let*')
            if n == 'let':
                return self.body(args.cdr, Env(env, {b[0]: Cell(v) for b, v in [(b, ev(b[1], env)) for b in bs]}))
            if n == 'let*':
                for b in bs:
                    env = Env(env, {b[0]: Cell(ev(b[1], env))})
                return self.body(args.cdr, Env(env))
            e2 = Env(env, {b[0]: Cell(UNBOUND) for b in bs})
            vals = [ev(b[1], e2) for b in bs]
            for b, v in zip(bs, vals):
                e2.d[b[0]].v = v
            return self.body(args.cdr, e2)
        if n == 'do':
            bs = self.bindings(a[0])
            vals = [ev(b[1], env) for b in bs]
            while True:
                e2 = Env(env, {b[0]: Cell(v) for b, v in zip(bs, vals)})
                t = items(a[1])[0]
                if ev(t[0], e2) is not False:
                    r = UNDEF
                    for e in t[1:]:
                        r = ev(e, e2)
                    return r
                for e in a[2:]:
                    ev(e, e2)
                vals = [ev(b[2], e2) if len(b) > 2 else e2.d[b[0]].v for b in bs]
        if n == 'and':
            r = True
            for e in a:
                r = ev(e, env)
                if r is False:
                    break
            return r
        if n == 'or':
            r = False
            for e in a:
                r = ev(e, env)
                if r is not False:
                    break
            return r
        if n == 'cond':
            for c in a:
                c = items(c)[0]
                if isid(c[0]) and strip(c[0]) is sym('else'):
                    v = True
                else:
                    v = ev(c[0], env)
                if v is not False:
                    if len(c) == 1:
                        return v
                    if isid(c[1]) and strip(c[1]) is sym('=>'):
                        return self.apply(ev(c[2], env), [v])
                    for e in c[1:]:
                        v = ev(e, env)
                    return v
            return UNDEF
        if n == 'case':
            k = ev(a[0], env)
            for c in a[1:]:
                c = items(c)[0]
                if (isid(c[0]) and strip(c[0]) is sym('else')) or (not isid(c[0]) and any(same_const(strip(d), k) for d in items(c[0])[0])):
                    v = UNDEF
                    for e in c[1:]:
                        v = ev(e, env)
                    return v
            return UNDEF
        if n == 'set!':
            if not isid(a[0]):
                raise Fuel()
            v = ev(a[1], env)
            c = lookup(a[0], env)
            if not isinstance(c, Cell):
                raise Bad('unbound')
            if c.v is UNBOUND or isinstance(c.v, (Special, Macro)):
                raise Fuel()
            c.v = v
            return UNDEF
        if n == 'define':
            if isinstance(a[0], Pair):
                nm, v = a[0].car, self.clo(a[0].cdr, args.cdr, env)
            else:
                nm, v = a[0], ev(a[1], env)
            if env is not self.top or not isid(nm):
                raise Fuel()
            nm = strip(nm)
            c = self.top.d.get(nm)
            if isinstance(c, Cell):
                c.v = v
            else:
                self.top.d[nm] = Cell(v)
            return UNDEF
        if n == 'define-syntax':
            if env is not self.top:
                raise Fuel()
            self.top.d[strip(a[0])] = Cell(self.mac(a[1], env))
            return UNDEF
        if n in ('let-syntax', 'letrec-syntax'):
            bs = self.bindings(a[0])
            e2 = Env(env)
            e2.d.update({b[0]: Cell(self.mac(b[1], e2 if n == 'letrec-syntax' else env)) for b in bs})
            return self.body(args.cdr, e2)
        raise Bad(n)

    def qq(self, t, env):
        # one level only
        if isinstance(t, Pair):
            if isid(t.car) and strip(t.car) is sym('unquote'):
                return self.ev(t.cdr.car, env)
            if isinstance(t.car, Pair) and isid(t.car.car) and strip(t.car.car) is sym('unquote-splicing'):
                xs, tl = items(self.ev(t.car.cdr.car, env))
                if tl is not NIL:
                    raise Fuel()
                return plist(*xs, tail=self.qq(t.cdr, env))
            return Pair(self.qq(t.car, env), self.qq(t.cdr, env))
        return strip(t)


UNBOUND = object()
UNDEF = object()
