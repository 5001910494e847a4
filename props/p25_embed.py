"""Programs embedding libsscm: the C API over histories of several interpreter lifetimes."""
import os, shutil, subprocess
from vlib import build as B
from vlib.engine import Case, Part
from vlib.gen import g_datum, g_int, g_str, g_symname, fixrange
from vlib.sx import *

ID = 'P25'
RULE = 'at least two lifetimes, a collection between making and using a protected object, or a call through a C function'
ASSUMPTIONS = ['objects are used by the client only while protected, on the stack of a GC-ready function or reachable from such',
               'the text of error messages on the standard error is not compared']
VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san', 'fatty-san', 'compact-gcs', 'fatty-gcs']


class MPair(Pair):
    """a mutable pair"""
    __slots__ = ()


class Raised(Exception):
    pass


class Escaped(Exception):
    pass


def mlist(xs, tail=NIL):
    for x in reversed(xs):
        tail = MPair(x, tail)
    return tail


def contains(v, t, n=0):
    if v is t:
        return True
    if isinstance(v, Pair):
        return contains(v.car, t, n + 1) or contains(v.cdr, t, n + 1)
    if isinstance(v, Vec):
        return any(contains(x, t, n + 1) for x in v.v)
    return False


def weight(v):
    if isinstance(v, Pair):
        return 1 + weight(v.car) + weight(v.cdr)
    if isinstance(v, Vec):
        return 1 + sum(weight(x) for x in v.v)
    return 1


def red(args):
    if not args:
        return mlist([0])
    if len(args) == 1:
        return mlist([1, args[0]])
    a = args[0]
    for r in args[1:-1]:
        if type(r) is int and r == 99:
            return mlist([sym('stop'), a])
        a = mlist([sym('part'), a, r])
    return mlist([sym('last'), a, args[-1]])


KINDS = {
    'c0': (0, False, lambda a: 42),
    'c1': (1, False, lambda a: mlist([a[0], a[0]])),
    'c2': (2, False, lambda a: MPair(a[0], a[1])),
    'c3': (3, False, lambda a: mlist(a[::-1])),
    'c4': (4, False, lambda a: mlist(a[::-1])),
    'c5': (5, False, lambda a: mlist(a[::-1])),
    'v0': (0, True, lambda a: mlist(a[::-1])),
    'v1': (1, True, lambda a: mlist([a[0], mlist(a[1:])])),
    'v2': (2, True, lambda a: mlist([a[0], a[1], mlist(a[2:])])),
    'v3': (3, True, lambda a: mlist([a[0], a[1], a[2], mlist(a[3:])])),
    'red': (0, True, red),
    'v4': (4, True, lambda a: mlist(a[:4] + [mlist(a[4:])])),
    'v5': (5, True, lambda a: mlist(a[:5] + [mlist(a[5:])])),
}
for _n in range(6):
    KINDS['ft%d' % _n] = (_n, False, mlist)
    KINDS['vt%d' % _n] = (_n, True, lambda a, n=_n: mlist(a[:n] + [mlist(a[n:])]))
# kinds of syntax: (least number of forms, variadic, do all forms get evaluated, value)
SKINDS = {}
for _n in range(6):
    SKINDS['sf%d' % _n] = (_n, False, True, lambda a: mlist(a[::-1]))
    SKINDS['sv%d' % _n] = (_n, True, True, lambda a, n=_n: mlist(a[:n] + [mlist(a[n:])]))
    SKINDS['st%d' % _n] = (_n, False, False, lambda a: a[-1] if a else sym('none'))
    if _n:
        SKINDS['sw%d' % _n] = (_n, True, False, lambda a: a[-1])
NAMES = ['f1', 'f2', 'f3', 'f4', 'f5', 'c-proc', 'cadr', 'list-ref', 'string?', 'caddr']
GLOB = ['g1', 'g2', 'g3', 'g4']
FILES = ['a.scm', 'b.scm', 'sub/c.scm']


class M:
    def __init__(self, s, variant):
        self.s, self.variant = s, variant
        self.ops, self.out = [], []
        self.tags = set()

    def op(self, *w):
        self.ops.append(' '.join(str(x) for x in w))

    def start(self, n):
        s = self.s
        self.slot, self.glob, self.reg, self.prov = {}, {}, {}, set()
        self.cb = False
        self.path = None
        self.loads = []
        if s.bool(1, 3):
            conf = [0] * 5
        else:
            h = s.choice([64, 100, 257, 1000, 4096])
            conf = [h, s.choice([1, h // 4, h // 2, h]), 4000, s.choice([1, 1, 2, 5]), s.choice([1, 2, 3, 64, 1024])]
        argv = ['@LIB@']
        rest = s.choice([[], [], ['x'], ['file.scm', '-x', 'y'], ['@D@/f']])
        self.op('I', *(conf + ['emb', '--system-load-path'] + argv + rest))
        self.out.append('init ' + (rest[0] if rest else '-'))
        if s.bool(1, 2) or n == 0:
            self.set_path()
        elif s.bool(1, 3):
            self.op('q')
            self.out.append('""')
        for _ in range(s.below(3)):
            # nothing is left of the life before
            k = s.choice(NAMES[:6] + GLOB + ['loads', 'rec'])
            self.show("(symbol-bound? '%s)" % k, False)
        i = self.fresh()
        self.op('E', i, "(begin (define loads '()) (use srfi-34) 0)")
        self.slot[i] = 0

    def set_path(self):
        s = self.s
        self.path = s.choice(['@D@', '@D@/none:@D@', '@D@:@D@/sub', '/nonexistent', ':@D@', '/nonexistent::@D@'])
        self.op('Q', self.path)
        if s.bool(1, 3):
            self.op('q')
            self.out.append('"%s"' % self.path)

    # expressions -> (text, thunk giving the value)
    def expr(self, d, env=(), top=False):
        s = self.s
        if d <= 0:
            k = s.below(4)
        else:
            k = s.below(26)
        if k == 0 or (k == 1 and not self.glob and not env):
            v = g_datum(s, 2, self.variant)
            return "(quote %s)" % to_write(v), lambda e: v
        if k == 1:
            if env and s.bool():
                n = s.choice(env)
                return n, lambda e: e[n]
            if not self.glob:
                return '5', lambda e: 5
            n = s.choice(sorted(self.glob))
            return n, lambda e: self.glob[n]
        if k == 2:
            i = g_int(s, self.variant)
            return str(i), lambda e: i
        if k == 3:
            t = g_str(s, 6)
            return '(string-copy %s)' % to_write(Str(t)), lambda e: Str(t)
        sub = lambda: self.expr(d - 1, env)
        if k in (4, 5):
            xs = [sub() for _ in range(s.below(4))]
            if k == 4:
                return '(list %s)' % ' '.join(x[0] for x in xs), lambda e: mlist([x[1](e) for x in xs])
            return '(vector %s)' % ' '.join(x[0] for x in xs), lambda e: Vec([x[1](e) for x in xs])
        if k == 6:
            a, b = sub(), sub()

            def f(e):
                x = a[1](e)
                return MPair(x, b[1](e))
            return '(let* ((p %s) (q %s)) (cons p q))' % (a[0], b[0]), f
        if k == 7:
            a = sub()
            op = s.choice(['car', 'cdr'])

            def f(e):
                v = a[1](e)
                return getattr(v, op) if isinstance(v, Pair) else False
            return '(let ((p %s)) (if (pair? p) (%s p) #f))' % (a[0], op), f
        if k in (8, 9, 10, 11, 12) and self.reg:
            n = s.choice(sorted(self.reg))
            kind = self.reg[n]
            if kind in KINDS or kind in SKINDS:
                lo, var = (KINDS.get(kind) or SKINDS[kind])[:2]
                if (lo or not var) and s.bool(1, 8):
                    cnt = s.below(lo) if lo and (var or s.bool()) else lo + s.range(1, 3)
                    self.tags.add('arity')
                    return '(guard (c (#t (quote arity))) (%s%s))' % (n, ' 1' * cnt), lambda e: sym('arity')
            if kind in SKINDS:
                lo, var, every, fn = SKINDS[kind]
                xs = [sub() for _ in range(lo + (s.below(4) if var else 0))]
                self.tags.add('C syntax')
                if not every:
                    return '(%s%s)' % (n, ''.join(' ' + (x[0] if x is xs[-1] else '(undefined-proc)') for x in xs)), lambda e: fn([x[1](e) for x in xs[-1:]])
                return '(%s%s)' % (n, ''.join(' ' + x[0] for x in xs)), lambda e: fn([x[1](e) for x in xs])
            if kind in KINDS:
                lo, var, fn = KINDS[kind]
                xs = [sub() for _ in range(lo + (s.below(4) if var else 0))]
                self.tags.add('C function')
                f = lambda e: fn([x[1](e) for x in xs])
                if k == 12:
                    return '(apply %s (list %s))' % (n, ' '.join(x[0] for x in xs)), f
                if k == 11 and kind == 'c1':
                    ys = [sub() for _ in range(s.below(4))]
                    return '(map %s (list %s))' % (n, ' '.join(x[0] for x in ys)), \
                        lambda e: mlist([fn([v]) for v in [x[1](e) for x in ys]])
                return '(%s%s)' % (n, ''.join(' ' + x[0] for x in xs)), f
            if kind == 'tail1':
                self.tags.add('tail C function')
                xs = [sub() for _ in range(s.below(4))]
                p = s.choice(['list', 'vector', '(lambda (a . r) (list r a))'])
                if p[0] == '(' and not xs:
                    xs = [sub()]
                fn = {'list': mlist, 'vector': Vec}.get(p, lambda a: mlist([mlist(a[1:]), a[0]]))
                return '(%s %s%s)' % (n, p, ''.join(' ' + x[0] for x in xs)), lambda e: fn([x[1](e) for x in xs])
            if kind == 'synv':
                self.tags.add('C syntax')
                a, b = sub(), sub()
                return '(%s (undefined-proc) %s %s)' % (n, a[0], b[0]), lambda e: b[1](e)
            if kind == 'syn1':
                self.tags.add('C syntax')
                a = sub()
                t = "(cdr (%s %s))" % (n, a[0])
                return t, lambda e: mlist([a[1](e)])
            if kind == 'callback':
                self.tags.add('callback')
                v = 'x%d' % d
                a = self.expr(d - 1, env + (v,))
                j = s.below(3)
                if j == 0:
                    # out through the C frame
                    def f(e):
                        return a[1](dict(e, **{v: mlist([7]).car}))
                    return '(call/cc (lambda (k) (%s (lambda (%s) (k %s)))))' % (n, v, a[0]), f

                def f(e):
                    return mlist([sym('cb'), mlist([7]), a[1](dict(e, **{v: 7}))])
                if j == 1:
                    return '(%s (lambda (%s) %s))' % (n, v, a[0]), f
                return '(dynamic-wind (lambda () #f) (lambda () (%s (lambda (%s) %s))) (lambda () #t))' % (n, v, a[0]), f
            if kind == 'fail':
                self.tags.add('C error')
                a, b = sub(), sub()

                def f(e):
                    a[1](e)
                    return b[1](e)
                return '(guard (c (#t %s)) (%s %s) 1)' % (b[0], n, a[0]), f
            if kind == 'nest' and not env:
                self.tags.add('nested eval')
                a = sub()
                j = s.below(3)
                if j == 0:
                    def f(e):
                        a[1](e)
                        return sym('caught')
                    t = "(begin %s (raise 'x))" % a[0]
                    return "(guard (c ((eq? c 'x) 'caught)) (%s (string-copy %s)))" % (n, to_write(Str(t))), f
                t = a[0]
                return '(%s (string-copy %s))' % (n, to_write(Str(t))), lambda e: mlist([a[1](e), mlist([Str(t)])])
        if k == 13 and self.glob and top:
            n = s.choice(sorted(self.glob))
            a = sub()

            def f(e):
                v = a[1](e)
                self.glob[n] = v
                return v
            return '(begin (set! %s %s) %s)' % (n, a[0], n), f
        if k in (13, 14, 15, 16) and self.glob and top:
            n = s.choice(sorted(self.glob))
            g = self.glob[n]
            a = sub()
            if isinstance(g, MPair):
                op = s.choice(['car', 'cdr'])

                # the cell may be replaced while A is evaluated: take it first
                def f(e):
                    o = self.glob[n]
                    v = a[1](e)
                    if isinstance(o, MPair) and not contains(v, o) and weight(v) < 60:
                        setattr(o, op, v)
                        return v
                    raise Escaped
                return '(let* ((o %s) (v %s)) (set-%s! o v) v)' % (n, a[0], op), f
            if isinstance(g, Vec) and not g.const and g.v:
                i = s.below(len(g.v))

                def f(e):
                    o = self.glob[n]
                    v = a[1](e)
                    if isinstance(o, Vec) and len(o.v) > i and not o.const and not contains(v, o) and weight(v) < 60:
                        o.v[i] = v
                        return v
                    raise Escaped
                return '(let* ((o %s) (v %s)) (vector-set! o %d v) v)' % (n, a[0], i), f
        if k == 17:
            a, b = sub(), sub()
            n = 'y%d' % d

            def f(e):
                return mlist([e[n] for e in [dict(e, **{n: a[1](e)})]])
            return '(let ((%s %s)) (list %s))' % (n, a[0], n), f
        if k == 18:
            a, b = sub(), sub()
            return '(if (pair? %s) %s %s)' % (a[0], b[0], "'()"), lambda e: b[1](e) if isinstance(a[1](e), Pair) else NIL
        if k == 19:
            a = sub()

            def f(e):
                return mlist([a[1](e), 3])
            return '(call-with-values (lambda () (values %s 3)) list)' % a[0], f
        return self.expr(0, env)

    def fresh(self, protect=True):
        """a protected slot"""
        s = self.s
        if self.slot and s.bool(1, 3):
            return s.choice(sorted(self.slot))
        i = s.below(40)
        if i not in self.slot:
            self.op('P', i)
            self.slot[i] = False
        return i

    def data(self):
        return [i for i in sorted(self.slot) if not callable(self.slot[i])]

    def show(self, text, v):
        i = self.fresh()
        self.op('E', i, text)
        self.slot[i] = v
        self.op('S', i)
        self.out.append(to_write(v))

    def eval(self, d):
        for _ in range(10):
            t, f = self.expr(d, (), True)
            if len(t) > 3000:
                continue
            try:
                v = f({})
                if weight(v) < 300:
                    return t, v
            except Escaped:
                # the mutation would make a cycle, nothing has been changed
                pass
        return '1', 1

    def step(self):
        s = self.s
        k = s.below(32)
        if k == 30 and self.data():
            i = s.choice(self.data())
            self.op('O', i)
            self.out += ['1', '1']
            self.tags.add('protectedp')
        elif k == 31 and self.data():
            i = s.choice(self.data())
            if tree(self.slot[i]) and '.scm' not in to_write(self.slot[i]):
                self.op('w', i)
                self.out += [to_write(self.slot[i]), '(%s a b)' % to_write(self.slot[i], True)]
        elif k <= 6:
            t, v = self.eval(s.range(1, 4))
            i = self.fresh()
            self.op('E', i, t)
            self.slot[i] = v
        elif k <= 9:
            if self.data():
                i = s.choice(self.data())
                self.op('S', i)
                self.out.append(to_write(self.slot[i]))
        elif k <= 11:
            self.op('G', s.choice([1, 20, 100, 500, 3000]))
            if self.slot:
                self.tags.add('gc')
        elif k == 12 and self.slot:
            i = s.choice(sorted(self.slot))
            self.op('U', i)
            del self.slot[i]
        elif k == 13:
            n = s.choice(NAMES)
            kind = s.choice(sorted(KINDS) + sorted(SKINDS) + ['tail1', 'syn1', 'synv', 'callback', 'fail', 'nest', 'red', 'c1', 'v1'] * 4)
            self.op('R', n, kind)
            self.reg[n] = kind
            self.glob.pop(n, None)
        elif k == 14 and self.reg:
            a = s.choice(sorted(self.reg))
            b = s.choice(NAMES)
            self.op('A', b, a)
            self.reg[b] = self.reg[a]
        elif k in (15, 16):
            n = s.choice(GLOB)
            if s.bool() and self.data():
                i = s.choice(self.data())
                self.op('V', i, n)
                self.glob[n] = self.slot[i]
            else:
                t, v = self.eval(s.range(0, 3))
                self.run('(define %s %s)' % (n, t))
                self.glob[n] = v
        elif k == 17 and self.glob:
            n = s.choice(sorted(self.glob))
            i = self.fresh()
            self.op('W', i, n)
            self.slot[i] = self.glob[n]
        elif k in (18, 19):
            self.call()
        elif k == 20 and self.data():
            ls = [i for i in self.data() if self.slot[i] is NIL or isinstance(self.slot[i], Pair)]
            ls = [i for i in ls if is_list(self.slot[i])]
            if ls:
                i = s.choice(ls)
                xs = unlist(self.slot[i])
                j = self.fresh()
                if xs and all(type(x) is int and abs(x) < 1 << 40 for x in xs) and s.bool():
                    self.op('M', j, i)
                    xs = [2 * x for x in xs]
                else:
                    self.op('L', j, i)
                self.slot[j] = mlist(xs)
                self.out.append(str(len(xs)))
        elif k == 21:
            f = s.choice(['feat-%d' % s.below(4), '*a.scm-loaded*', 'srfi-2', 'srfi-8', 'srfi-60'])
            j = s.below(3)
            if j == 0 and f.startswith('feat'):
                self.op('p', f)
                self.prov.add(f)
            elif j == 1 and f.startswith('srfi'):
                self.op(s.choice(['u', 'm']), f)
                self.out.append('1')
                self.prov.add(f)
            else:
                self.op('v', f)
                self.out.append('1' if f in self.prov else '0')
        elif k == 22:
            self.set_path()
        elif k in (23, 24) and self.path and self.path != '/nonexistent':
            f = s.choice(FILES)
            if s.bool():
                self.op('r', f)
                if '*' + f + '-loaded*' not in self.prov:
                    self.loads.insert(0, f)
                    self.prov.add('*' + f + '-loaded*')
            else:
                self.op('l', f)
                self.loads.insert(0, f)
            self.show('loads', lst([sym(x) for x in self.loads]))
        elif k == 25:
            self.op('X')
            self.out += ['0', '1']
        elif k == 26:
            n = s.choice([1, 50, 1000, 5000])
            self.op('K', n)
            for i in range(8):
                self.out.append(('"object %d"' if i % 2 else '(%d "object %d")' % (i, i)).replace('%d', str(i)))
            self.tags.add('gc')
        elif k == 27:
            self.make()
        elif k == 28 and self.data():
            i = s.choice(self.data())
            self.op('Y', i)
            self.out.append(describe(self.slot[i]))
        elif k == 29 and self.reg:
            n = s.choice(sorted(self.reg))
            # C functions bound at the toplevel are named
            self.show("(symbol-bound? '%s)" % n, True)

    def run(self, text):
        """evaluates, the value is not observed"""
        i = next(i for i in range(64) if i not in self.slot)
        self.op('P', i)
        self.op('E', i, text)
        self.op('U', i)

    def make(self):
        s = self.s
        d = self.data()
        t = s.choice(['int', 'char', 'str', 'istr', 'sym', 'bool', 'nil', 'cons', 'list', 'vec'])
        if t in ('cons', 'list', 'vec') and not d:
            t = 'int'
        j = self.fresh()
        d = self.data()
        pick = lambda: s.choice(d)
        if t == 'int':
            v = g_int(s, self.variant)
            w = [v]
        elif t == 'char':
            v = Char(s.choice([97, 0x20, 0x3042, 0x10ffff, 0x41, 10]))
            w = [v.c if type(v.c) is int else ord(v.c)]
        elif t in ('str', 'istr'):
            x = s.choice(['abc', 'x', 'あい', 'long-string-' * 5, '"', '\\'])
            v, w = Str(x), [x]
        elif t == 'sym':
            x = s.choice(['abc', 'car', 'λ', 'new-symbol-%d' % s.below(100), '+'])
            v, w = sym(x), [x]
        elif t == 'bool':
            v = s.bool()
            w = [int(v)]
        elif t == 'nil':
            v, w = NIL, []
        elif t == 'cons':
            a, b = pick(), pick()
            v, w = MPair(self.slot[a], self.slot[b]), [a, b]
        elif t == 'list':
            w = [pick() for _ in range(3)]
            v = mlist([self.slot[x] for x in w])
        else:
            w = [pick() for _ in range(s.below(5))]
            v = Vec([self.slot[x] for x in w])
        if weight(v) > 300:
            v, t, w = 1, 'int', [1]
        self.op('N', j, t, *w)
        self.slot[j] = v

    def call(self):
        """scm_call()"""
        s = self.s
        d = self.data()
        if not d:
            return
        n = s.choice([x for x in sorted(self.reg) if self.reg[x] in KINDS] + ['list', 'cons', 'vector'])
        if n in self.reg:
            lo, var, fn = KINDS[self.reg[n]]
        else:
            lo, var, fn = {'list': (0, True, mlist), 'cons': (2, False, lambda a: MPair(*a)), 'vector': (0, True, Vec)}[n]
        f = s.below(40)
        if f in self.slot:
            return
        self.op('P', f)
        self.slot[f] = fn
        args = [s.choice(d) for _ in range(lo + (s.below(4) if var else 0))]
        vals = [self.slot[a] for a in args]
        if s.bool(1, 3):
            self.op('E', f, '(let ((p %s)) (lambda args (apply p args)))' % n)
        else:
            self.op('W', f, n)
        j = self.fresh()
        if j == f:
            j = d[0]
        v = fn(vals)
        if weight(v) > 300:
            del self.slot[f]
            self.op('U', f)
            return
        self.op('C', j, f, len(args), *args)
        self.slot[j] = v
        self.tags.add('call')
        del self.slot[f]
        self.op('U', f)


def is_list(v):
    n = 0
    while isinstance(v, Pair) and n < 1000:
        v = v.cdr
        n += 1
    return v is NIL


def tree(v, seen=None):
    """without shared parts, also no literal that may be shared"""
    seen = set() if seen is None else seen
    if isinstance(v, (Pair, Vec, Str)):
        if id(v) in seen or len(seen) > 60:
            return False
        seen.add(id(v))
        return all(tree(x, seen) for x in ([v.car, v.cdr] if isinstance(v, Pair) else v.v if isinstance(v, Vec) else []))
    return True


def describe(o):
    if o is True:
        return 'T'
    if o is False:
        return 'F'
    if o is NIL:
        return 'N'
    if type(o) is int:
        return 'I%d' % o
    if isinstance(o, Char):
        return 'C%d' % (o.c if type(o.c) is int else ord(o.c))
    if isinstance(o, Str):
        return 'S%d:%s' % (len(o.v), o.s)
    if isinstance(o, Sym):
        return 'Y' + o.name
    if isinstance(o, Pair):
        r = '('
        while isinstance(o, Pair):
            r += describe(o.car) + ' '
            o = o.cdr
        return r + describe(o) + ')'
    if isinstance(o, Vec):
        return '#(' + ''.join(describe(x) + ' ' for x in o.v) + ')'
    return '?'


def gen(s):
    variant = s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2]), (2, VARS[3]), (1, VARS[4]), (2, VARS[5]), (1, VARS[6])])
    m = M(s, variant)
    status = 0
    lives = s.choice([1, 1, 2, 2, 3, 4])
    for n in range(lives):
        m.start(n)
        for _ in range(s.range(2, 30)):
            m.step()
        for i in m.data():
            m.op('S', i)
            m.out.append(to_write(m.slot[i]))
        if n == lives - 1 and s.bool(1, 4):
            # an error that nothing handles ends the process
            if s.bool():
                m.op('T')
                m.out.append('fatal callback')
            k = s.below(3)
            i = m.fresh()
            if k == 0:
                m.op('E', i, s.choice(['(car 5)', "(raise 'x)", '(undefined-thing)', '(error "x" 1)', '(']))
            elif k == 1:
                m.op('l', 'missing.scm')
            else:
                m.op('R', 'fail-now', 'fail')
                m.op('E', i, '(fail-now 1)')
            m.op('t never')
            status = 1
            m.tags.add('fatal')
            break
        if n < lives - 1 or s.bool(2, 3):
            m.op('F')
            m.out.append('fin')
    nt = lives > 1 or bool(m.tags - {'fatal'})
    return Case('\n'.join(m.ops) + '\n', '\n'.join(m.out) + '\n', nt, variant=variant, status=status,
                tags=[variant, 'lives=%d' % lives] + sorted(m.tags))


EXE = {}


def check(c, env):
    d = env.dir()
    w = os.path.join(d, 'emb')
    if not os.path.isdir(w):
        os.makedirs(os.path.join(w, 'sub'))
        for f in FILES:
            with open(os.path.join(w, f), 'w') as fd:
                fd.write("(set! loads (cons '%s loads))\n" % f)
    exe = EXE.get(c.variant)
    if not exe:
        exe = os.path.join(B.build(c.variant), 'emb')
        if not os.path.exists(exe):
            raise B.BuildError('harness/emb.c does not compile')
        EXE[c.variant] = exe
    e = {'PATH': os.environ['PATH'], 'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=1',
         'LC_ALL': 'C'}
    sub = lambda t: t.replace('@D@', w).replace('@LIB@', B.LIB)
    try:
        p = subprocess.run([exe], input=sub(c.text).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=w, env=e, timeout=60)
    except subprocess.TimeoutExpired:
        return 'did not end within 60 s'
    out = p.stdout.decode('utf-8', 'backslashreplace')
    err = p.stderr.decode('utf-8', 'backslashreplace')
    want = sub(c.expect)
    if out != want:
        a, b = out.split('\n'), want.split('\n')
        i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
        return 'output line %d: expected %r but got %r; status %d stderr %r' % (i + 1, b[i:i + 2], a[i:i + 2], p.returncode, err[-1500:])
    if p.returncode != c.status:
        return 'exit status %d instead of %d; stderr %r' % (p.returncode, c.status, err[-800:])
    return None


PARTS = [Part('history', gen, check, 5000, 150000, variants=VARS)]
