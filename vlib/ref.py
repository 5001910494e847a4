"""Definitional interpreter for the SigScheme core language (the oracle).

Works on the data of vlib.sx.  Written from R5RS, SRFI-2/8/34 and doc/spec.txt
with nested (escape-only) continuations."""
from .sx import *

FIX_MIN, FIX_MAX = -(1 << 59), (1 << 59) - 1


class Unmodelled(Exception):
    """the program left the modelled domain; the case is skipped"""


class SErr(Exception):
    """internal: an error is being signalled (turned into raise of ErrObj)"""
    def __init__(self, msg='', objs=None):
        self.msg, self.objs = msg, objs


class TopRaise(Exception):
    def __init__(self, obj):
        self.obj = obj


class Escape(Exception):
    def __init__(self, k, val):
        self.k, self.val = k, val


class ErrObj:
    """msg is None when the text is the implementation's own"""
    def __init__(self, msg=None, objs=()):
        self.msg, self.objs = msg, list(objs)

    def write_rep(self):
        if self.msg is None:
            raise Unmodelled('text of a system error')
        return '#<error ' + ' '.join([to_write(self.msg)] + [to_write(o) for o in self.objs]) + '>'


class Prim:
    def __init__(self, name, fn, lo, hi):
        self.name, self.fn, self.lo, self.hi = name, fn, lo, hi

    def write_rep(self):
        raise Unmodelled('procedure written')


class Closure:
    def __init__(self, formals, rest, body, env):
        self.formals, self.rest, self.body, self.env = formals, rest, body, env

    def write_rep(self):
        raise Unmodelled('procedure written')


class Kont:
    def __init__(self, winds):
        self.winds, self.valid = winds, True

    def write_rep(self):
        raise Unmodelled('continuation written')


class Promise:
    def __init__(self, exp, env):
        self.done, self.val, self.exp, self.env = False, None, exp, env

    def write_rep(self):
        raise Unmodelled('promise written')


class Syntax:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def write_rep(self):
        raise Unmodelled('syntax written')


class Env:
    __slots__ = ('d', 'up')

    def __init__(self, d, up):
        self.d, self.up = d, up


UNBOUND = Const('unbound')
PROCS = (Prim, Closure, Kont)


class Tail:
    __slots__ = ('x', 'env')

    def __init__(self, x, env):
        self.x, self.env = x, env


def items(p, what='list'):
    out = []
    while isinstance(p, Pair):
        out.append(p.car)
        p = p.cdr
    if p is not NIL:
        raise SErr('improper ' + what)
    return out


S = sym
s_quote, s_else, s_arrow, s_define, s_begin = map(sym, ['quote', 'else', '=>', 'define', 'begin'])
s_qq, s_uq, s_uqs = map(sym, ['quasiquote', 'unquote', 'unquote-splicing'])


class Interp:
    def __init__(self, fix=(FIX_MIN, FIX_MAX), budget=20000):
        self.fix = fix
        self.budget = budget
        self.depth = 0
        self.out = []
        self.outlen = 0
        self.handlers = None       # linked list (handler, rest) or None
        self.winds = None          # linked list ((before, after), rest)
        self.konts = []
        self.glob = {}
        self.maxdepth = 0
        install(self)

    # -- helpers
    def fixnum(self, n):
        if not self.fix[0] <= n <= self.fix[1]:
            raise Unmodelled('fixnum overflow')
        return n

    def emit(self, t):
        self.out.append(t)
        self.outlen += len(t)
        if self.outlen > 20000:
            raise Unmodelled('too much output')

    # -- lookup
    def lookup(self, name, env):
        while env is not None:
            if name in env.d:
                v = env.d[name]
                if v is UNBOUND:
                    raise Unmodelled('letrec variable used before its initialisation')
                return v
            env = env.up
        try:
            return self.glob[name]
        except KeyError:
            raise SErr('unbound variable ' + name.name)

    # -- eval with error -> raise conversion at each primitive operation
    def ev(self, x, env):
        return self.finish(Tail(x, env))

    def finish(self, r):
        self.depth += 1
        if self.depth > 900:
            raise Unmodelled('too deep')
        d0 = self.depth
        try:
            while isinstance(r, Tail):
                self.budget -= 1
                if self.budget < 0:
                    raise Unmodelled('too long')
                r = self.step(r.x, r.env)
            return r
        except SErr as e:
            self.depth = d0
            return self.do_raise(ErrObj(Str(e.msg) if e.objs is not None else None, e.objs or ()))
        finally:
            self.depth = d0 - 1

    def step(self, x, env):
        if isinstance(x, Sym):
            return self.lookup(x, env)
        if not isinstance(x, Pair):
            if x is NIL:
                return x
            return x
        op = x.car
        f = self.ev(op, env)
        if isinstance(f, Syntax):
            args = x.cdr
            return f.fn(self, args, env)
        if not isinstance(f, PROCS):
            raise SErr('not a procedure')
        if isinstance(f, Prim) and f.name in REDUCE:
            return self.reduce(f, x.cdr, env)
        args = [self.arg(a, env) for a in items(x.cdr, 'argument list')]
        return self.apply_tail(f, args)

    def arg(self, a, env):
        v = self.ev(a, env)
        if isinstance(v, Syntax):
            raise SErr('syntactic keyword as value')
        if isinstance(v, Values):
            raise Unmodelled('values as argument')
        return v

    def reduce(self, f, args, env):
        # operands are evaluated in order; type errors show up as they come
        vals = []
        st = None
        while isinstance(args, Pair):
            v = self.arg(args.car, env)
            args = args.cdr
            vals.append(v)
            if len(vals) >= 2 and st is not False:
                st = REDUCE[f.name](self, vals[-2] if f.name in CMP or st is None else st, v)
        if args is not NIL:
            raise SErr('improper')
        if len(vals) < 2:
            return f.fn(self, *vals)
        return st

    def apply_tail(self, f, args):
        if isinstance(f, Prim):
            if len(args) < f.lo or (f.hi is not None and len(args) > f.hi):
                raise SErr('wrong number of arguments')
            return f.fn(self, *args)
        if isinstance(f, Closure):
            n = len(f.formals)
            if len(args) < n or (len(args) > n and f.rest is None):
                raise SErr('wrong number of arguments')
            d = dict(zip(f.formals, args))
            if f.rest is not None:
                d[f.rest] = lst(args[n:])
            return body(self, f.body, Env(d, f.env))
        if isinstance(f, Kont):
            return self.throw(f, args[0] if len(args) == 1 else Values(args))
        if isinstance(f, Syntax):
            raise SErr('syntax applied')
        raise SErr('not a procedure')

    def call(self, f, *args):
        self.depth += 1
        d0 = self.depth
        if self.depth > 900:
            raise Unmodelled('too deep')
        try:
            return self.finish(self.apply_tail(f, list(args)))
        except SErr as e:
            self.depth = d0
            return self.do_raise(ErrObj(Str(e.msg) if e.objs is not None else None, e.objs or ()))
        finally:
            self.depth = d0 - 1

    # -- continuations
    def callcc(self, f):
        k = Kont(self.winds)
        self.konts.append(k)
        try:
            r = self.call(f, k)
        except Escape as e:
            if e.k is not k:
                raise
            return e.val
        self.expire(k)
        return r

    def expire(self, k):
        while self.konts:
            t = self.konts.pop()
            t.valid = False
            if t is k:
                return

    def throw(self, k, val):
        if not k.valid:
            raise SErr('expired continuation')
        self.expire(k)
        while self.winds is not k.winds and self.winds is not None:
            (b, a), self.winds = self.winds
            self.pycall(a)
        raise Escape(k, val)

    def pycall(self, t):
        if callable(t):
            t()
        else:
            self.call(t)

    def wind(self, before, thunk, after):
        self.pycall(before)
        self.winds = ((before, after), self.winds)
        r = thunk() if callable(thunk) else self.call(thunk)
        self.winds = self.winds[1]
        self.pycall(after)
        return r

    # -- exceptions
    def with_handlers(self, new, thunk):
        prev = self.handlers

        def b():
            self.handlers = new

        def a():
            self.handlers = prev
        return self.wind(b, thunk, a)

    def do_raise(self, obj):
        if self.handlers is None:
            raise TopRaise(obj)
        h, rest = self.handlers

        def run():
            if callable(h):
                h(obj)
            else:
                self.call(h, obj)
            # the handler returned
            return self.do_raise(ErrObj())
        return self.with_handlers(rest, run)

    def guard(self, var, clauses, bodyforms, env):
        k = Kont(self.winds)
        self.konts.append(k)

        def handler(cond):
            hk_env = Env({var: cond}, env)
            r = cond_internal(self, clauses, hk_env)
            if r is NOMATCH:
                self.do_raise(cond)
                return
            self.throw(k, self.finish(r))
        try:
            r = self.with_handlers((handler, self.handlers), lambda: self.finish(body(self, bodyforms, env)))
            self.expire(k)
            return r
        except Escape as e:
            if e.k is not k:
                raise
            return e.val

    # -- top level
    def top(self, x):
        """-> output text of the harness for this form"""
        self.out = []
        try:
            v = self.ev(x, None)
            self.emit('=> ' + ('#<values>' if isinstance(v, Values) else to_write(v)) + '\n')
        except TopRaise as e:
            o = e.obj
            # the harness catches with guard: winds are unwound after the print
            if isinstance(o, ErrObj):
                self.emit('!E\n')
            else:
                self.emit('!R ' + to_write(o) + '\n')
            return ''.join(self.out), True
        return ''.join(self.out), False


NOMATCH = Const('nomatch')


# ---------------------------------------------------------------- syntax
def need(args, lo, hi=None):
    a = items(args)
    if len(a) < lo or (hi is not None and len(a) > hi):
        raise SErr('bad syntax')
    return a


def sequence(I, forms, env, allow_empty=False):
    if not forms:
        if allow_empty:
            return UNDEF
        raise SErr('at least 1 expression')
    for f in forms[:-1]:
        v = I.ev(f, env)
        if isinstance(v, Values):
            raise Unmodelled('values of a command')
        if isinstance(v, Syntax):
            raise SErr('syntactic keyword as value')
    return Tail(forms[-1], env)


def is_form(x, name, env, I):
    return isinstance(x, Pair) and x.car is sym(name) and not shadowed(sym(name), env)


def shadowed(s, env):
    while env is not None:
        if s in env.d:
            return True
        env = env.up
    return False


def body(I, forms, env):
    """<body>: leading internal definitions, then expressions"""
    forms = items(forms) if not isinstance(forms, list) else forms
    defs, i = [], 0
    while i < len(forms):
        f = forms[i]
        if is_form(f, 'define', env, I):
            defs.append(f)
        elif is_form(f, 'begin', env, I) and f.cdr is not NIL and all(
                is_form(g, 'define', env, I) for g in items(f.cdr)):
            defs.extend(items(f.cdr))
        else:
            break
        i += 1
    if defs:
        names, exps = [], []
        for d in defs:
            n, e = parse_define(d)
            if n in names:
                raise Unmodelled('duplicate internal definition')
            names.append(n)
            exps.append(e)
        new = Env({n: UNBOUND for n in names}, env)
        vals = [I.arg(e, new) for e in exps]
        for n, v in zip(names, vals):
            new.d[n] = v
        env = new
    return sequence(I, forms[i:], env)


def parse_define(d):
    a = items(d.cdr)
    if not a:
        raise SErr('define')
    if isinstance(a[0], Pair):
        if not isinstance(a[0].car, Sym):
            raise SErr('define')
        return a[0].car, Pair(SYN_LAMBDA, Pair(a[0].cdr, d.cdr.cdr))
    if len(a) != 2 or not isinstance(a[0], Sym):
        raise SErr('define')
    return a[0], a[1]


def make_lambda(formals, bodyf, env):
    names, rest = [], None
    while isinstance(formals, Pair):
        if not isinstance(formals.car, Sym):
            raise SErr('bad formals')
        names.append(formals.car)
        formals = formals.cdr
    if formals is not NIL:
        if not isinstance(formals, Sym):
            raise SErr('bad formals')
        rest = formals
    if not isinstance(bodyf, Pair):
        raise SErr('no body')
    items(bodyf)
    return Closure(names, rest, bodyf, env)


def syn_lambda(I, a, env):
    if not isinstance(a, Pair):
        raise SErr('lambda')
    return make_lambda(a.car, a.cdr, env)


SYN_LAMBDA = Syntax('lambda', syn_lambda)


def syn_define(I, a, env):
    if env is not None:
        raise SErr('internal define at a wrong place')
    n, e = parse_define(Pair(s_define, a))
    v = I.ev(e, env)
    if isinstance(v, (Syntax, Values)):
        raise Unmodelled('define syntax')
    I.glob[n] = v
    p = items(a)[0]
    return p if isinstance(p, Sym) else p


def syn_set(I, a, env):
    n, e = need(a, 2, 2)
    if not isinstance(n, Sym):
        raise SErr('set!')
    v = I.arg(e, env)
    t = env
    while t is not None:
        if n in t.d:
            if t.d[n] is UNBOUND:
                raise Unmodelled('assignment of a letrec variable before it is defined')
            t.d[n] = v
            return v
        t = t.up
    if n not in I.glob:
        raise SErr('unbound')
    I.glob[n] = v
    return v


def syn_if(I, a, env):
    a = need(a, 2, 3)
    if I.arg(a[0], env) is not False:
        return Tail(a[1], env)
    return Tail(a[2], env) if len(a) == 3 else UNDEF


def syn_quote(I, a, env):
    return need(a, 1, 1)[0]


def cond_internal(I, clauses, env):
    if clauses is NIL:
        raise SErr('cond: no clause')
    cl = items(clauses)
    for i, c in enumerate(cl):
        if not isinstance(c, Pair):
            raise SErr('bad clause')
        if c.car is s_else and not shadowed(s_else, env):
            if i != len(cl) - 1:
                raise SErr('else not last')
            return sequence(I, items(c.cdr), env)
        t = I.arg(c.car, env)
        if t is False:
            continue
        rest = items(c.cdr)
        if not rest:
            return t
        if rest[0] is s_arrow and len(rest) == 2 and not shadowed(s_arrow, env):
            f = I.arg(rest[1], env)
            if not isinstance(f, PROCS):
                raise SErr('=> not a procedure')
            return I.apply_tail(f, [t])
        return sequence(I, rest, env)
    return NOMATCH


def syn_cond(I, a, env):
    r = cond_internal(I, a, env)
    return UNDEF if r is NOMATCH else r


def syn_case(I, a, env):
    if not isinstance(a, Pair) or a.cdr is NIL:
        raise SErr('case')
    key = I.arg(a.car, env)
    cl = items(a.cdr)
    for i, c in enumerate(cl):
        if not isinstance(c, Pair):
            raise SErr('bad clause')
        if c.car is s_else:
            if i != len(cl) - 1:
                raise SErr('else not last')
            return sequence(I, items(c.cdr), env)
        if any(eqv(key, d) for d in items(c.car)):
            return sequence(I, items(c.cdr), env)
    return UNDEF


def syn_and(I, a, env):
    a = items(a)
    if not a:
        return True
    for x in a[:-1]:
        if I.arg(x, env) is False:
            return False
    return Tail(a[-1], env)


def syn_or(I, a, env):
    a = items(a)
    if not a:
        return False
    for x in a[:-1]:
        v = I.arg(x, env)
        if v is not False:
            return v
    return Tail(a[-1], env)


def bindings(b):
    out = []
    for x in items(b, 'bindings'):
        p = items(x) if isinstance(x, Pair) else None
        if p is None or len(p) != 2 or not isinstance(p[0], Sym):
            raise SErr('invalid binding')
        out.append((p[0], p[1]))
    return out


def nodup(names):
    if len(set(names)) != len(names):
        raise SErr('duplicate variable')


def syn_let(I, a, env):
    if not isinstance(a, Pair):
        raise SErr('let')
    if isinstance(a.car, Sym):
        name = a.car
        if not isinstance(a.cdr, Pair):
            raise SErr('named let')
        bs = bindings(a.cdr.car)
        nodup([n for n, _ in bs])
        vals = [I.arg(e, env) for _, e in bs]
        new = Env({name: UNBOUND}, env)
        f = make_lambda(lst([n for n, _ in bs]), a.cdr.cdr, new)
        new.d[name] = f
        return I.apply_tail(f, vals)
    bs = bindings(a.car)
    nodup([n for n, _ in bs])
    vals = [I.arg(e, env) for _, e in bs]
    return body(I, a.cdr, Env(dict(zip([n for n, _ in bs], vals)), env))


def syn_letstar(I, a, env):
    if not isinstance(a, Pair):
        raise SErr('let*')
    for n, e in bindings(a.car):
        env = Env({n: I.arg(e, env)}, env)
    else:
        env = Env({}, env)
    return body(I, a.cdr, env)


def syn_letrec(I, a, env):
    if not isinstance(a, Pair):
        raise SErr('letrec')
    bs = bindings(a.car)
    nodup([n for n, _ in bs])
    new = Env({n: UNBOUND for n, _ in bs}, env)
    vals = [I.arg(e, new) for _, e in bs]
    for (n, _), v in zip(bs, vals):
        new.d[n] = v
    return body(I, a.cdr, Env({}, new))


def syn_begin(I, a, env):
    return sequence(I, items(a), env, allow_empty=env is None)


def syn_do(I, a, env):
    a = need(a, 2)
    specs = []
    for b in items(a[0]):
        p = items(b) if isinstance(b, Pair) else []
        if len(p) not in (2, 3) or not isinstance(p[0], Sym):
            raise SErr('do binding')
        specs.append(p)
    nodup([p[0] for p in specs])
    t = items(a[1])
    if not t:
        raise SErr('do test')
    cur = Env({p[0]: v for p, v in zip(specs, [I.arg(p[1], env) for p in specs])}, env)
    while True:
        if I.arg(t[0], cur) is not False:
            break
        for c in a[2:]:
            I.ev(c, cur)
        nv = [I.arg(p[2], cur) if len(p) == 3 else cur.d[p[0]] for p in specs]
        cur = Env({p[0]: v for p, v in zip(specs, nv)}, env)
        I.budget -= 1
        if I.budget < 0:
            raise Unmodelled('too long')
    return sequence(I, t[1:], cur, allow_empty=True)


def syn_delay(I, a, env):
    return Promise(need(a, 1, 1)[0], env)


def syn_guard(I, a, env):
    if not isinstance(a, Pair) or not isinstance(a.car, Pair) or not isinstance(a.cdr, Pair):
        raise SErr('guard')
    if not isinstance(a.car.car, Sym):
        raise SErr('guard')
    return I.guard(a.car.car, a.car.cdr, a.cdr, env)


def syn_receive(I, a, env):
    if not isinstance(a, Pair) or not isinstance(a.cdr, Pair):
        raise SErr('receive')
    v = I.ev(a.cdr.car, env)
    vals = v.v if isinstance(v, Values) else [v]
    f = make_lambda(a.car, a.cdr.cdr, env)
    return I.apply_tail(f, vals)


def syn_andlet(I, a, env):
    if not isinstance(a, Pair):
        raise SErr('and-let*')
    val = True
    for c in items(a.car):
        if isinstance(c, Sym):
            val = I.arg(c, env)
        elif isinstance(c, Pair):
            p = items(c)
            if len(p) == 1:
                val = I.arg(p[0], env)
            elif len(p) == 2 and isinstance(p[0], Sym):
                val = I.arg(p[1], env)
                env = Env({p[0]: val}, env)
            else:
                raise SErr('and-let* claw')
        else:
            raise SErr('and-let* claw')
        if val is False:
            return False
    if a.cdr is NIL:
        return val
    return body(I, a.cdr, Env({}, env))


def syn_letopt(I, a, env):
    if not isinstance(a, Pair) or not isinstance(a.cdr, Pair):
        raise SErr('let-optionals*')
    vals = I.arg(a.car, env)
    bs = a.cdr.car
    while isinstance(bs, Pair):
        b = bs.car
        if isinstance(b, Pair):
            p = items(b)
            if len(p) != 2 or not isinstance(p[0], Sym):
                raise SErr('let-optionals* binding')
            n = p[0]
        elif isinstance(b, Sym):
            n, p = b, None
        else:
            raise SErr('let-optionals* binding')
        if isinstance(vals, Pair):
            v, vals = vals.car, vals.cdr
        elif p is None:
            v = UNDEF
        else:
            v = I.arg(p[1], env)
        env = Env({n: v}, env)
        bs = bs.cdr
    if isinstance(bs, Sym):
        env = Env({bs: vals}, env)
    elif bs is not NIL:
        raise SErr('let-optionals* formals')
    return body(I, a.cdr.cdr, Env({}, env))


def syn_qq(I, a, env):
    return qq(I, need(a, 1, 1)[0], 1, env)


def uq_like(x, s):
    return isinstance(x, Pair) and x.car is s and isinstance(x.cdr, Pair) and x.cdr.cdr is NIL


def qq_arg(I, x, env):
    v = I.ev(x, env)
    if isinstance(v, (Syntax, Values)):
        raise Unmodelled('syntax in quasiquotation')
    return v


def qq(I, x, n, env):
    if isinstance(x, Vec):
        r = qq(I, lst(x.v), n, env) if x.v else NIL
        return Vec(items(r))
    if not isinstance(x, Pair):
        return x
    if uq_like(x, s_uq):
        if n == 1:
            return qq_arg(I, x.cdr.car, env)
        return lst([s_uq, qq(I, x.cdr.car, n - 1, env)])
    if uq_like(x, s_qq):
        return lst([s_qq, qq(I, x.cdr.car, n + 1, env)])
    if uq_like(x.car, s_uqs):
        if n == 1:
            v = qq_arg(I, x.car.cdr.car, env)
            if x.cdr is NIL:
                # the last splice is shared as it is; R5RS requires a list
                items(v)
                return v
            vs = items(v)
            return lst(vs, qq(I, x.cdr, n, env))
        a = lst([s_uqs, qq(I, x.car.cdr.car, n - 1, env)])
        return Pair(a, qq(I, x.cdr, n, env))
    if uq_like(x, s_uqs):
        raise SErr('unquote-splicing outside of a list')
    a = qq(I, x.car, n, env)
    return Pair(a, qq(I, x.cdr, n, env))


# ---------------------------------------------------------------- primitives
def ck(v, t, why='type'):
    if not isinstance(v, t) or (t is int and isinstance(v, bool)):
        raise SErr(why)
    return v


def num(v):
    if isinstance(v, bool) or not isinstance(v, int):
        raise SErr('integer required')
    return v


def _add(I, a, b):
    return I.fixnum(num(a) + num(b))


def _mul(I, a, b):
    return I.fixnum(num(a) * num(b))


def _sub(I, a, b):
    return I.fixnum(num(a) - num(b))


def _cmp(op):
    return lambda I, a, b: op(num(a), num(b))


CMP = {'=': _cmp(lambda a, b: a == b), '<': _cmp(lambda a, b: a < b), '>': _cmp(lambda a, b: a > b),
       '<=': _cmp(lambda a, b: a <= b), '>=': _cmp(lambda a, b: a >= b)}
REDUCE = dict(CMP)
REDUCE.update({'+': _add, '*': _mul, '-': _sub, 'max': lambda I, a, b: max(num(a), num(b)),
               'min': lambda I, a, b: min(num(a), num(b))})


def fold_reduce(name):
    def f(I, *vals):
        if len(vals) == 0:
            if name == '+':
                return 0
            if name == '*':
                return 1
            raise SErr('arity')
        if len(vals) == 1:
            if name in CMP:
                raise SErr('arity')
            n = num(vals[0])
            return I.fixnum(-n) if name == '-' else n
        st = None
        for i in range(1, len(vals)):
            if st is False:
                break
            st = REDUCE[name](I, vals[i - 1] if name in CMP or st is None else st, vals[i])
        return st
    return f


def trunc_div(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def p_div(kind):
    def f(I, a, b):
        num(a), num(b)
        if b == 0:
            raise SErr('division by zero')
        if kind == 'q':
            return I.fixnum(trunc_div(a, b))
        if kind == 'r':
            return a - b * trunc_div(a, b)
        return a % b
    return f


def p_apply(I, f, *args):
    if not isinstance(f, PROCS):
        raise SErr('apply')
    return I.apply_tail(f, list(args[:-1]) + items(args[-1]))


def p_map(I, f, *ls):
    if not isinstance(f, PROCS):
        raise SErr('map')
    ls = list(ls)
    out = []
    while True:
        done = [not isinstance(l, Pair) for l in ls]
        if any(done):
            if not all(done) or any(l is not NIL for l in ls):
                raise SErr('unequal lists')
            return lst(out)
        r = I.call(f, *[l.car for l in ls])
        if isinstance(r, Values):
            raise Unmodelled('values in map')
        out.append(r)
        ls = [l.cdr for l in ls]


def p_foreach(I, f, *ls):
    p_map(I, f, *ls)
    return UNDEF


def p_force(I, p):
    if not isinstance(p, Promise):
        raise SErr('force')
    if p.done:
        return p.val
    v = I.ev(p.exp, p.env)
    if p.done:
        return p.val
    p.done, p.val = True, v
    return v


def p_cwv(I, prod, cons):
    if not isinstance(prod, PROCS) or not isinstance(cons, PROCS):
        raise SErr('call-with-values')
    v = I.call(prod)
    return I.apply_tail(cons, v.v if isinstance(v, Values) else [v])


def p_dw(I, b, t, a):
    for f in (b, t, a):
        if not isinstance(f, PROCS):
            raise SErr('dynamic-wind')
    return I.wind(b, t, a)


def p_append(I, *ls):
    if not ls:
        return NIL
    r = ls[-1]
    for l in reversed(ls[:-1]):
        r = lst(items(l), r)
    return r


def p_weh(I, h, t):
    if not isinstance(h, PROCS) or not isinstance(t, PROCS):
        raise SErr('weh')
    return I.with_handlers((h, I.handlers), t)


def p_callcc(I, f):
    if not isinstance(f, PROCS):
        raise SErr('call/cc')
    return I.callcc(f)


def p_error(I, reason, *objs):
    return I.do_raise(ErrObj(reason, objs))


def p_out(display):
    def f(I, x):
        I.emit(to_write(x, display))
        return UNDEF
    return f


def p_vref(I, v, i):
    ck(v, Vec), num(i)
    if not 0 <= i < len(v.v):
        raise SErr('range')
    return v.v[i]


def p_vset(I, v, i, x):
    ck(v, Vec), num(i)
    if v.const:
        raise SErr('const')
    if not 0 <= i < len(v.v):
        raise SErr('range')
    v.v[i] = x
    return UNDEF


def setcar(I, p, x):
    ck(p, Pair).car = x
    return UNDEF


def setcdr(I, p, x):
    ck(p, Pair).cdr = x
    return UNDEF


def mem(eq):
    def f(I, x, l):
        while isinstance(l, Pair):
            if eq(x, l.car):
                return l
            l = l.cdr
        if l is not NIL:
            raise SErr('improper')
        return False
    return f


def ass(eq):
    def f(I, x, l):
        while isinstance(l, Pair):
            if eq(x, ck(l.car, Pair).car):
                return l.car
            l = l.cdr
        if l is not NIL:
            raise SErr('improper')
        return False
    return f


def eq_(a, b):
    return eqv(a, b)


def cxr(path):
    def f(I, p):
        for c in reversed(path):
            ck(p, Pair)
            p = p.car if c == 'a' else p.cdr
        return p
    return f


def isnum(v):
    return isinstance(v, int) and not isinstance(v, bool)


def p_reverse(I, l):
    return lst(items(l)[::-1])


def p_listtail(I, l, k):
    num(k)
    if k < 0:
        raise SErr('range')
    while k:
        l = ck(l, Pair).cdr
        k -= 1
    return l


def install(I):
    g = I.glob

    def p(name, fn, lo, hi=-1):
        g[sym(name)] = Prim(name, fn, lo, lo if hi == -1 else hi)
    for n in REDUCE:
        p(n, fold_reduce(n), 0, None)
    p('quotient', p_div('q'), 2)
    p('remainder', p_div('r'), 2)
    p('modulo', p_div('m'), 2)
    p('abs', lambda I, a: I.fixnum(abs(num(a))), 1)
    p('zero?', lambda I, a: num(a) == 0, 1)
    p('positive?', lambda I, a: num(a) > 0, 1)
    p('negative?', lambda I, a: num(a) < 0, 1)
    p('even?', lambda I, a: num(a) % 2 == 0, 1)
    p('odd?', lambda I, a: num(a) % 2 == 1, 1)
    p('not', lambda I, a: a is False, 1)
    p('eq?', lambda I, a, b: eq_(a, b), 2)
    p('eqv?', lambda I, a, b: eqv(a, b), 2)
    p('equal?', lambda I, a, b: equal(a, b), 2)
    p('cons', lambda I, a, b: Pair(a, b), 2)
    p('list', lambda I, *a: lst(a), 0, None)
    for c in ('a', 'd', 'aa', 'ad', 'da', 'dd', 'add', 'ddd', 'addd'):
        p('c%sr' % c, cxr(c), 1)
    p('set-car!', setcar, 2)
    p('set-cdr!', setcdr, 2)
    p('null?', lambda I, a: a is NIL, 1)
    p('pair?', lambda I, a: isinstance(a, Pair), 1)
    p('symbol?', lambda I, a: isinstance(a, Sym), 1)
    p('number?', lambda I, a: isnum(a), 1)
    p('boolean?', lambda I, a: isinstance(a, bool), 1)
    p('string?', lambda I, a: isinstance(a, Str), 1)
    p('vector?', lambda I, a: isinstance(a, Vec), 1)
    p('procedure?', lambda I, a: isinstance(a, PROCS), 1)
    p('length', lambda I, l: len(items(l)), 1)
    p('append', p_append, 0, None)
    p('reverse', p_reverse, 1)
    p('list-tail', p_listtail, 2)
    p('list-ref', lambda I, l, k: ck(p_listtail(I, l, k), Pair).car, 2)
    p('memq', mem(eq_), 2)
    p('memv', mem(eqv), 2)
    p('member', mem(equal), 2)
    p('assq', ass(eq_), 2)
    p('assv', ass(eqv), 2)
    p('assoc', ass(equal), 2)
    p('apply', p_apply, 2, None)
    p('map', p_map, 2, None)
    p('for-each', p_foreach, 2, None)
    p('vector', lambda I, *a: Vec(a), 0, None)
    p('vector-ref', p_vref, 2)
    p('vector-set!', p_vset, 3)
    p('vector-length', lambda I, v: len(ck(v, Vec).v), 1)
    p('vector->list', lambda I, v: lst(ck(v, Vec).v), 1)
    p('list->vector', lambda I, l: Vec(items(l)), 1)
    p('force', p_force, 1)
    p('values', lambda I, *a: a[0] if len(a) == 1 else Values(a), 0, None)
    p('call-with-values', p_cwv, 2)
    p('call-with-current-continuation', p_callcc, 1)
    p('call/cc', p_callcc, 1)
    p('dynamic-wind', p_dw, 3)
    p('with-exception-handler', p_weh, 2)
    p('raise', lambda I, x: I.do_raise(x), 1)
    p('error', p_error, 1, None)
    p('%%error-object?', lambda I, x: isinstance(x, ErrObj), 1)
    p('display', p_out(True), 1)
    p('write', p_out(False), 1)

    def s(name, fn):
        g[sym(name)] = Syntax(name, fn)
    for n, f in [('lambda', syn_lambda), ('define', syn_define), ('set!', syn_set), ('if', syn_if), ('quote', syn_quote),
                 ('cond', syn_cond), ('case', syn_case), ('and', syn_and), ('or', syn_or), ('let', syn_let),
                 ('let*', syn_letstar), ('letrec', syn_letrec), ('begin', syn_begin), ('do', syn_do),
                 ('delay', syn_delay), ('guard', syn_guard), ('receive', syn_receive), ('and-let*', syn_andlet),
                 ('let-optionals*', syn_letopt), ('quasiquote', syn_qq)]:
        s(n, f)


def run_program(text, fix=(FIX_MIN, FIX_MAX), budget=20000):
    """-> list of per-form outputs, or raises Unmodelled"""
    I = Interp(fix, budget)
    outs = []
    try:
        forms = parse_all(text, fix_min=fix[0], fix_max=fix[1], const=True)
        for f in forms:
            t, failed = I.top(f)
            outs.append(t)
            if failed:
                # leave the dynamic extent as the harness's guard does
                while I.winds is not None:
                    (b, a), I.winds = I.winds
                    mark = len(I.out)
                    I.pycall(a)
                    outs[-1] += ''.join(I.out[mark:])
                I.handlers = None
                for k in I.konts:
                    k.valid = False
                I.konts = []
    except RecursionError:
        raise Unmodelled('recursion')
    except Escape:
        raise Unmodelled('escape at top level')
    except TopRaise:
        raise Unmodelled('raise while unwinding at top level')
    return outs
