"""Equivalence predicates, symbols and SRFI-69 hash tables against models."""
from vlib.engine import Part
from vlib.gen import g_uchar, UNI
from vlib.lines import Lines, check_lines

ID = 'P12'
RULE = 'the history compares structured or mutated objects, interns names that share a hash bucket, or uses a table with two keys or more'
ASSUMPTIONS = ['eq? on numbers, characters, empty strings and empty vectors is unspecified and not checked',
               'when hash-table-merge! meets a key of both tables the second table wins, as in the reference implementation']
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']


def pick_variant(s):
    return s.weighted([(5, VARS[0]), (3, VARS[1]), (1, VARS[2]), (1, VARS[3])])


def bl(x):
    return '#t' if x else '#f'


# ---------------------------------------------------------------- equality
class O:
    """kind: int char bool nil sym str pair vec opaque"""
    def __init__(self, kind, v, lit=False):
        self.kind, self.v, self.lit = kind, v, lit

    def small(self):
        return self.kind in ('int', 'char', 'bool', 'nil', 'sym')


def is_eqv(a, b):
    return a is b or a.small() and a.kind == b.kind and a.v == b.v


def is_equal(a, b):
    if is_eqv(a, b):
        return True
    if a.kind != b.kind:
        return False
    if a.kind == 'str':
        return a.v == b.v
    if a.kind in ('pair', 'vec'):
        return len(a.v) == len(b.v) and all(is_equal(x, y) for x, y in zip(a.v, b.v))
    return False


def reach(a, b):
    return a is b or a.kind in ('pair', 'vec') and any(reach(x, b) for x in a.v)


def weight(a):
    return 1 + sum(map(weight, a.v)) if a.kind in ('pair', 'vec') else 1


OPQ = ['car', '(lambda (x) x)', '(current-output-port)', '(delay 1)', '(open-input-string "a")', '(call/cc (lambda (k) k))', 'cdr', 'if-none',
       '(read (open-input-string ""))']
CH = [97, 98, 65, 0x3b1, 0x3042, 0x1f600, 32, 48, 0x10061, 0x161, 0x100041]


def g_strv(s):
    return ''.join(chr(s.choice(CH)) for _ in range(s.size(4)))


def slit(v):
    return '"%s"' % v


class EQ:
    def __init__(self, s):
        self.s = s
        self.o = []
        self.L = Lines()
        self.unique = {}

    def leaf(self):
        s = self.s
        k = s.below(6)
        if k == 0:
            n = s.choice([0, 1, -1, 2, 48, 97, (1 << 59) - 1, -(1 << 59), 1 << 32, s.range(-300, 300)])
            return O('int', n), str(n)
        if k == 1:
            c = s.choice(CH)
            return O('char', c), '(integer->char %d)' % c if s.bool() else '#\\x%x' % c
        if k == 2:
            b = s.bool()
            return O('bool', b), bl(b)
        if k == 3:
            return O('nil', ()), "'()"
        if k == 4:
            n = s.choice(['a', 'b', 'ab', 'A', 'car', '|', 'あ'] if s.bool() else ['a', 'b', 'c'])
            if n == '|':
                n = 'nil'
            return O('sym', n), "'" + n if s.bool() else '(string->symbol "%s")' % n
        v = g_strv(s)
        j = s.below(3)
        if j == 0:
            return O('str', v, True), slit(v)
        if j == 1:
            return O('str', v), '(string-copy %s)' % slit(v)
        return O('str', v), '(string-append %s %s)' % (slit(v[:1]), slit(v[1:]))

    def ref(self):
        """component: an earlier object or a new leaf"""
        s = self.s
        if self.o and s.bool(2, 3):
            i = s.below(len(self.o))
            if weight(self.o[i]) < 30:
                return self.o[i], 'o%d' % i
        return self.leaf()

    def new(self):
        s = self.s
        k = s.below(12)
        if k <= 3:
            o, e = self.leaf()
        elif k == 4:
            e = s.choice(OPQ)
            if e == 'if-none':
                e = '(if #f #f)'
            if e in ('car', 'cdr', '(current-output-port)', '(if #f #f)', '(read (open-input-string ""))'):
                o = self.unique.setdefault(e, O('opaque', e))
            else:
                o = O('opaque', e)
        elif k <= 6:
            (a, x), (b, y) = self.ref(), self.ref()
            o, e = O('pair', [a, b]), '(cons %s %s)' % (x, y)
        elif k <= 8:
            cs = [self.ref() for _ in range(s.below(4))]
            o, e = O('nil', ()), '(list%s)' % ''.join(' ' + x for _, x in cs)
            for a, _ in reversed(cs):
                o = O('pair', [a, o])
        elif k <= 10:
            cs = [self.ref() for _ in range(s.below(4))]
            o, e = O('vec', [a for a, _ in cs]), '(vector%s)' % ''.join(' ' + x for _, x in cs)
        else:
            i = s.below(len(self.o)) if self.o else None
            if i is None or self.o[i].kind not in ('pair', 'vec', 'str'):
                return self.new()
            # a copy of an existing object, one level deep
            x = self.o[i]
            if x.kind == 'pair':
                o, e = O('pair', list(x.v)), '(cons (car o%d) (cdr o%d))' % (i, i)
            elif x.kind == 'vec':
                o, e = O('vec', list(x.v)), '(list->vector (vector->list o%d))' % i
            else:
                o, e = O('str', x.v), '(string-copy o%d)' % i
        n = len(self.o)
        self.L.add('(define o%d %s)' % (n, e), '=> o%d' % n)
        self.o.append(o)

    def compare(self):
        s = self.s
        i, j = s.below(len(self.o)), s.below(len(self.o))
        a, b = self.o[i], self.o[j]
        if s.bool(1, 2):
            # prefer a likely pair
            same = [k for k, x in enumerate(self.o) if k != i and x.kind == a.kind]
            if same:
                j = s.choice(same)
                b = self.o[j]
        empty = a.kind in ('str', 'vec') and not a.v and b.kind == a.kind and not b.v and a is not b
        nt = a.kind in ('pair', 'vec', 'str') and a.kind == b.kind
        ev, eq = is_eqv(a, b), is_equal(a, b)
        tag = '%s %s' % (a.kind, 'equal' if eq else 'not')
        if empty or a.lit and b.lit and a is not b:
            return self.L.add('(equal? o%d o%d)' % (i, j), '=> ' + bl(eq), tag, nt)
        if a.kind in ('int', 'char') and ev:
            self.L.add('(let ((e (eq? o%d o%d))) (list (boolean? e) (eqv? o%d o%d) (equal? o%d o%d)))' % ((i, j) * 3), '=> (#t #t #t)', tag)
            return
        self.L.add('(list (eq? o%d o%d) (eqv? o%d o%d) (equal? o%d o%d))' % ((i, j) * 3), '=> (%s %s %s)' % (bl(ev), bl(ev), bl(eq)), tag, nt)

    def search(self):
        s = self.s
        n = s.below(7)
        ks = [s.below(len(self.o)) for _ in range(n)]
        i = s.choice(ks) if ks and s.bool(2, 3) else s.below(len(self.o))
        x = self.o[i]
        k = s.below(6)
        f = ['memv', 'member', 'memq', 'assv', 'assoc', 'assq'][k]
        if k in (2, 5) and any(y.kind in ('int', 'char') or y.kind in ('str', 'vec') and not y.v or y.lit for y in [x] + [self.o[t] for t in ks]):
            return
        if k in (0, 3) and any(y.kind in ('str', 'vec') and not y.v or y.lit for y in [x] + [self.o[t] for t in ks]):
            return
        rel = is_equal if k in (1, 4) else is_eqv
        p = next((t for t, y in enumerate(ks) if rel(x, self.o[y])), None)
        if k < 3:
            self.L.add('(let ((r (%s o%d (list%s)))) (and r (length r)))' % (f, i, ''.join(' o%d' % t for t in ks)),
                       '=> ' + ('#f' if p is None else str(n - p)), f, n > 1)
        else:
            self.L.add('(let ((r (%s o%d (list%s)))) (and r (cdr r)))' % (f, i, ''.join(' (cons o%d %d)' % (t, q) for q, t in enumerate(ks))),
                       '=> ' + ('#f' if p is None else str(p)), f, n > 1)

    def mutate(self):
        s = self.s
        ks = [k for k, x in enumerate(self.o) if x.v and (x.kind in ('pair', 'vec') or x.kind == 'str' and not x.lit)]
        if not ks:
            return
        i = s.choice(ks)
        x = self.o[i]
        if x.kind == 'str':
            k, c = s.below(len(x.v)), s.choice(CH)
            x.v = x.v[:k] + chr(c) + x.v[k + 1:]
            return self.L.add('(begin (string-set! o%d %d (integer->char %d)) 0)' % (i, k, c), '=> 0', 'mutate', True)
        j = s.below(len(self.o))
        y = self.o[j]
        if reach(y, x) or weight(y) > 25:
            return
        k = s.below(len(x.v))
        x.v[k] = y
        if weight(x) > 300:
            return self.L.add('(begin 0)', '=> 0') or None
        f = '(vector-set! o%d %d o%d)' % (i, k, j) if x.kind == 'vec' else '(set-c%sr! o%d o%d)' % ('ad'[k], i, j)
        self.L.add('(begin %s 0)' % f, '=> 0', 'mutate', True)


def gen_eq(s):
    e = EQ(s)
    v = pick_variant(s)
    for _ in range(s.range(2, 8)):
        e.new()
    for _ in range(s.range(2, 16)):
        k = s.below(10)
        if k <= 1:
            e.new()
        elif k == 2:
            big = max(map(weight, e.o))
            if big < 150:
                e.mutate()
        elif k <= 4:
            e.search()
        else:
            e.compare()
    return e.L.case(tags=[v], variant=v)


# ---------------------------------------------------------------- symbols
def bucket(b, size=1024):
    h = 0
    for c in b:
        h = ((h * 17) ^ c) % size
    return h


ALPHA = 'abcdefghijklmnopqrstuvwxyz!$%&*/:<=>?^_~0123456789+-.@ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def g_name(s, pool):
    k = s.below(8)
    if pool and k == 0:
        n = s.choice(pool)
        return n + s.choice(['x', '0', '-', 'あ'])
    if pool and k == 1:
        n = s.choice(pool)
        return n[:-1] if len(n) > 1 else n + n
    if pool and k == 2:
        n = s.choice(pool)
        i = s.below(len(n))
        return n[:i] + s.choice(ALPHA) + n[i + 1:]
    if pool and k in (3, 4):
        # a name in the same bucket
        n = s.choice(pool)
        t = bucket(n.encode())
        a = s.choice(ALPHA[:26]) + s.choice(ALPHA)
        for x in ALPHA:
            for y in ALPHA:
                if bucket((a + x + y).encode()) == t:
                    return a + x + y
        return a
    if k == 5:
        return s.choice(ALPHA[:26]) + ''.join(s.choice(UNI) for _ in range(s.range(1, 3)))
    if k == 6 and s.bool(1, 4):
        return s.choice(ALPHA[:26]) * s.range(50, 400)
    return s.choice(ALPHA[:26]) + ''.join(s.choice(ALPHA) for _ in range(s.below(5)))


def gen_sym(s):
    v = pick_variant(s)
    L = Lines()
    names = []
    for _ in range(s.range(2, 9)):
        n = 'zq' + g_name(s, [x[2:] for x in names if len(x) > 2])
        names.append(n)
    if s.bool(1, 4):
        names.append(names[0].upper())

    def sym(n):
        """expressions for the symbol named n"""
        k = s.below(5)
        if k == 0:
            return '(string->symbol "%s")' % n
        if k == 1:
            return '(string->symbol (string-append "%s" "%s"))' % (n[:2], n[2:])
        if k == 2:
            return '(read (open-input-string "%s"))' % n
        if k == 3:
            return "(car '(%s))" % n
        return "'" + n
    vals = {}
    fresh = iter(range(100, 10000))
    for _ in range(s.range(4, 16)):
        a, b = s.choice(names), s.choice(names)
        k = s.below(8)
        if k <= 2:
            L.add('(let ((a %s) (b %s)) (list (eq? a b) (eqv? a b) (equal? a b) (symbol? a)))' % (sym(a), sym(b)),
                  '=> (%s #t)' % ' '.join([bl(a == b)] * 3), 'eq?', a != b or len(a) > 20)
        elif k == 3:
            L.add('(let ((n (symbol->string %s))) (list (string=? n "%s") (string-length n)))' % (sym(a), b),
                  '=> (%s %d)' % (bl(a == b), len(a)), 'symbol->string')
        elif k <= 5:
            # symbols name distinct top-level variables
            n = next(fresh)
            vals[a] = n
            L.add('(begin (eval (list (quote define) %s %d) (interaction-environment)) 0)' % (sym(a), n), '=> 0', 'define', True)
        elif k == 6:
            L.add('(eval %s (interaction-environment))' % sym(a), '=> %d' % vals[a] if a in vals else '!E', 'eval', True)
        else:
            # the name a symbol was made from stays independent of the string
            L.add('(let* ((t (string-copy "%s")) (x (string->symbol t))) (string-set! t 0 #\\Y) (list (eq? x %s) (string=? t (symbol->string x))))' % (a, sym(a)),
                  '=> (#t #f)', 'copied name', True)
    for a in sorted(vals):
        L.add(a, '=> %d' % vals[a], 'value', True)
    nb = len({bucket(n.encode()) for n in set(names)})
    return L.case(tags=[v] + (['shared bucket'] if nb < len(set(names)) else []), nontrivial=len(set(names)) > 1, variant=v)


def gen_many(s):
    """so many symbols that they meet in every bucket, with names that differ only late"""
    v = pick_variant(s)
    L = Lines()
    pre = ''.join(s.choice(['a', 'b', 'z', '-', 'é', '漢']) for _ in range(s.choice([1, 5, 15, 31, 63, 64, 100, 127, 255, 256, 300])))
    post = s.choice(['', '', 'x', 'yyyyyyyyyyyyyyyyyyyy'])
    n = s.choice([300, 1000, 2500])
    L.add('(define (nm i) (string-append "q%s" (number->string i) "%s"))' % (pre, post), '=> (nm i)', 'name', False)
    L.add('(define v (make-vector %d 0))' % n, '=> v', 'vector', False)
    L.add('(do ((i 0 (+ i 1))) ((= i %d) 0) (vector-set! v i (string->symbol (nm i))))' % n, '=> 0', 'make', False)
    L.add('(do ((i 0 (+ i 1)) (bad 0 (if (string=? (nm i) (symbol->string (vector-ref v i))) bad (+ bad 1)))) ((= i %d) bad))' % n, '=> 0', 'names', True)
    L.add('(do ((i 0 (+ i 1)) (bad 0 (if (eq? (string->symbol (nm i)) (vector-ref v i)) bad (+ bad 1)))) ((= i %d) bad))' % n, '=> 0', 'interned', True)
    L.add('(do ((i 0 (+ i 1)) (bad 0 (if (eq? (read (open-input-string (nm i))) (vector-ref v i)) bad (+ bad 1)))) ((= i %d) bad))' % n, '=> 0', 'read', True)
    L.add('(do ((i 0 (+ i 1))) ((= i %d) 0) (eval (list (quote define) (vector-ref v i) i) (interaction-environment)))' % n, '=> 0', 'define', False)
    L.add('(do ((i 0 (+ i 1)) (bad 0 (if (eqv? i (eval (vector-ref v i) (interaction-environment))) bad (+ bad 1)))) ((= i %d) bad))' % n, '=> 0', 'variables', True)
    return L.case(tags=[v, 'prefix %d' % len(pre)], nontrivial=True, variant=v)


# ---------------------------------------------------------------- hash tables
def strkeys(s):
    return s.choice(['', 'a', 'b', 'ab', 'ba', 'abc', 'あ', 'い', 'あい', 'A', 'B', 'Ab', 'aB', 'zz', 'Zz', 'q1', 'hello', 'HELLO', 'x' * 40])


def key_any(s, d=2):
    k = s.below(9 if d else 6)
    if k == 0:
        n = s.choice([0, 1, -1, 7, 64, 128, -64, 1000003, -(1 << 40), (1 << 59) - 1, -(1 << 59)])
        return str(n), ('i', n)
    if k == 1:
        n = s.range(0, 12)
        return str(n), ('i', n)
    if k == 2:
        c = s.choice(CH)
        return '(integer->char %d)' % c, ('c', c)
    if k == 3:
        t = strkeys(s)
        return '(string-append "" "%s")' % t if s.bool() else '"%s"' % t, ('s', t)
    if k == 4:
        t = s.choice(['a', 'b', 'ab', 'あ', 'c', 'Zz'])
        return "'" + t, ('y', t)
    if k == 5:
        return s.choice([("'()", ('n',)), ('#t', ('t',)), ('#f', ('f',))])
    cs = [key_any(s, d - 1) for _ in range(s.below(4))]
    if k == 6:
        return '(vector%s)' % ''.join(' ' + e for e, _ in cs), ('v',) + tuple(c for _, c in cs)
    if k == 7 or len(cs) < 2:
        r = ('n',)
        for _, c in reversed(cs):
            r = ('p', c, r)
        return '(list%s)' % ''.join(' ' + e for e, _ in cs), r
    return '(cons %s %s)' % (cs[0][0], cs[1][0]), ('p', cs[0][1], cs[1][1])


def key_int(s):
    n = s.choice([0, 1, -1, 64, -64, 63, 65, 1 << 40, (1 << 59) - 1, -(1 << 59)]) if s.bool(1, 3) else s.range(-20, 40)
    return str(n), n


def key_eqv(s):
    k = s.below(3)
    if k == 0:
        n = s.range(-5, 20)
        return str(n), ('i', n)
    if k == 1:
        c = s.choice(CH)
        return '(integer->char %d)' % c, ('c', c)
    t = s.choice(['a', 'b', 'ab', 'あ', 'c', 'Zz'])
    return "'" + t, ('y', t)


def key_sym(s):
    t = s.choice('abcdefgh') + s.choice(['', 'x', 'あ', '1'])
    return s.choice(["'%s", '(string->symbol "%s")']) % t, t


def key_str(s):
    t = strkeys(s)
    return s.choice(['"%s"', '(string-copy "%s")']) % t, t


def key_ci(s):
    e, t = key_str(s)
    return e, t.lower() if t.isascii() else ''.join(c.lower() if c.isascii() else c for c in t)


def key_mod(s):
    n = s.range(-30, 30)
    return str(n), n % 7


MOD7 = '(lambda (a b) (= (modulo a 7) (modulo b 7)))'
# name -> (key generator, [constructor, ...] each with %s for a size or nothing)
SIZES = ['', ' 1', ' 2', ' 3', ' 5', ' 64']
KINDS = {
    'equal': (key_any, [('(make-hash-table)', 0), ('(make-hash-table equal?)', 0), ('(make-hash-table equal? hash%s)', 1),
                        ('(make-hash-table equal? (lambda (k n) 0)%s)', 1)], 'equal?', 'hash'),
    'eqv': (key_eqv, [('(make-hash-table eqv?)', 0), ('(make-hash-table eqv? hash%s)', 1)], 'eqv?', 'hash'),
    'eq': (key_sym, [('(make-hash-table eq?)', 0), ('(make-hash-table eq? hash-by-identity%s)', 1), ('(make-hash-table eq? symbol-hash%s)', 1)], 'eq?', 'hash-by-identity'),
    'string': (key_str, [('(make-hash-table string=?)', 0), ('(make-hash-table string=? string-hash%s)', 1)], 'string=?', 'string-hash'),
    'ci': (key_ci, [('(make-hash-table string-ci=?)', 0), ('(make-hash-table string-ci=? string-ci-hash%s)', 1)], 'string-ci=?', 'string-ci-hash'),
    'int': (key_int, [('(make-hash-table = modulo%s)', 1), ('(make-hash-table = (lambda (k n) (- n 1))%s)', 1)], '=', 'modulo'),
    'mod': (key_mod, [('(make-hash-table %s (lambda (k n) (modulo (modulo k 7) n))%%s)' % MOD7, 1)], MOD7, '(lambda (k . n) (modulo (modulo k 7) (if (null? n) 100 (car n))))'),
}
NT = 3
TPRE = '''
(require-extension (srfi 69))
(define (srt l) (let ins ((l l) (r '())) (if (null? l) r (ins (cdr l) (let put ((x (car l)) (r r)) (cond ((null? r) (list x)) ((< x (car r)) (cons x r)) (else (cons (car r) (put x (cdr r))))))))))
(define (rd t) (map (lambda (k) (hash-table-ref/default t k '-)) keys))
(define (st t) (list (hash-table-size t) (rd t) (srt (hash-table-values t))))
(define (found same? k l) (let loop ((l l) (n 0)) (if (null? l) n (loop (cdr l) (if (same? k (car l)) (+ n 1) n)))))
(define (ks same? t) (map (lambda (k) (found same? k (hash-table-keys t))) keys))
'''


def gen_table(s):
    v = pick_variant(s)
    kind = s.choice(sorted(KINDS))
    gk, ctors, same, hf = KINDS[kind]
    U = [gk(s) for _ in range(s.range(2, 14))]
    L = Lines()
    L.add('(define keys (list%s))' % ''.join(' ' + e for e, _ in U), '=> keys')
    T = []

    def ctor():
        c, sz = s.choice(ctors)
        return c % s.choice(SIZES) if sz else c
    for i in range(NT):
        L.add('(define t%d %s)' % (i, ctor()), '=> t%d' % i)
        T.append({})

    def key():
        """-> (expression, canonical)"""
        i = s.below(len(U))
        return (U[i][0] if s.bool() else '(list-ref keys %d)' % i), U[i][1]

    def state(m):
        return '(%d (%s) (%s))' % (len(m), ' '.join(str(m[c]) if c in m else '-' for _, c in U), ' '.join(map(str, sorted(m.values()))))

    def do(i, form, tag):
        L.add('(begin %s (st t%d))' % (form, i), '=> ' + state(T[i]), tag, len(T[i]) > 1)
    for _ in range(s.range(3, 26)):
        i = s.below(NT) if s.bool() else 0
        m = T[i]
        e, c = key()
        n = s.range(-50, 200)
        op = s.below(24)
        if op <= 7:
            m[c] = n
            do(i, '(hash-table-set! t%d %s %d)' % (i, e, n), 'set!')
        elif op <= 10:
            m.pop(c, None)
            do(i, '(hash-table-delete! t%d %s)' % (i, e), 'delete!')
        elif op == 11:
            L.add('(hash-table-ref t%d %s)' % (i, e), '=> %d' % m[c] if c in m else '!E', 'ref')
        elif op == 12:
            L.add("(hash-table-ref t%d %s (lambda () 'dflt))" % (i, e), '=> %s' % m.get(c, 'dflt'), 'ref thunk')
        elif op == 13:
            L.add('(list (hash-table-exists? t%d %s) (hash-table-size t%d))' % (i, e, i), '=> (%s %d)' % (bl(c in m), len(m)), 'exists?')
        elif op == 14:
            if c in m:
                m[c] = m[c] * 2 + 1
                do(i, '(hash-table-update! t%d %s (lambda (x) (+ x x 1)))' % (i, e), 'update!')
            else:
                L.add('(hash-table-update! t%d %s (lambda (x) (+ x x 1)))' % (i, e), '!E', 'update! missing', True)
                L.add('(st t%d)' % i, '=> ' + state(m))
        elif op == 15:
            m[c] = (m[c] if c in m else n) + 5
            do(i, '(hash-table-update! t%d %s (lambda (x) (+ x 5)) (lambda () %d))' % (i, e, n), 'update! thunk')
        elif op == 16:
            m[c] = (m[c] if c in m else n) - 3
            do(i, '(hash-table-update!/default t%d %s (lambda (x) (- x 3)) %d)' % (i, e, n), 'update!/default')
        elif op == 17:
            j = s.below(NT)
            T[j] = dict(m)
            do(j, '(set! t%d (hash-table-copy t%d))' % (j, i), 'copy')
        elif op == 18:
            j = s.below(NT)
            if i == j:
                continue
            m.update(T[j])
            L.add('(let ((r (hash-table-merge! t%d t%d))) (list (st r) (st t%d)))' % (i, j, j), '=> (%s %s)' % (state(m), state(T[j])), 'merge!', True)
            if s.bool():
                L.add('(st t%d)' % i, '=> ' + state(m))
        elif op == 19:
            al = [key() for _ in range(s.below(6))]
            r = {}
            for q, (_, cc) in enumerate(al):
                r.setdefault(cc, q)
            T[i] = r
            args = {'equal': s.choice(['', ' equal?', ' equal? hash 2']), 'eqv': ' eqv?', 'eq': ' eq?', 'string': ' string=?', 'ci': ' string-ci=?',
                    'int': ' = modulo', 'mod': ' %s %s' % (MOD7, hf)}[kind]
            do(i, '(set! t%d (alist->hash-table (list%s)%s))' % (i, ''.join(' (cons %s %d)' % (x[0], q) for q, x in enumerate(al)), args), 'alist->')
        elif op == 20:
            L.add('(list (ks %s t%d) (length (hash-table-keys t%d)) (hash-table-fold t%d (lambda (k v a) (+ v a)) 1000) '
                  '(let ((a 0)) (hash-table-walk t%d (lambda (k v) (set! a (+ a (* v v))))) a))' % (same, i, i, i, i),
                  '=> ((%s) %d %d %d)' % (' '.join('1' if cc in m else '0' for _, cc in U), len(m), 1000 + sum(m.values()), sum(x * x for x in m.values())),
                  'keys fold walk', len(m) > 1)
        elif op == 21:
            L.add('(let ((al (hash-table->alist t%d))) (list (length al) (map (lambda (k) (let loop ((l al)) (cond ((null? l) (quote -)) ((%s k (caar l)) (cdar l)) (else (loop (cdr l)))))) keys)))' % (i, same),
                  '=> (%d (%s))' % (len(m), ' '.join(str(m[cc]) if cc in m else '-' for _, cc in U)), '->alist', len(m) > 1)
        elif op == 22:
            # equivalent keys hash alike, below the bound
            a, b = key(), key()
            bound = s.choice(['', ' 1', ' 2', ' 7', ' 64', ' 1000'])
            if kind == 'int' and not bound:
                bound = ' 64'
            top = int(bound) if bound else 1 << 29
            if a[1] == b[1]:
                L.add('(let ((a (%s %s%s)) (b (%s %s%s))) (list (= a b) (<= 0 a) (< a %d)))' % (hf, a[0], bound, hf, b[0], bound, top), '=> (#t #t #t)', 'hash', True)
            else:
                L.add('(let ((a (%s %s%s))) (list (<= 0 a) (< a %d)))' % (hf, a[0], bound, top), '=> (#t #t)', 'hash', True)
        else:
            L.add('(list (hash-table? t%d) (hash-table? 5) (hash-table? (vector t%d)) (procedure? (hash-table-hash-function t%d)) '
                  '(procedure? (hash-table-equivalence-function t%d)))' % (i, i, i, i), '=> (#t #f #f #t #t)', 'hash-table?')
    for i in range(NT):
        L.add('(list (st t%d) (ks %s t%d))' % (i, same, i), '=> (%s (%s))' % (state(T[i]), ' '.join('1' if cc in T[i] else '0' for _, cc in U)), 'final', len(T[i]) > 1)
    return L.case(tags=[v, kind], variant=v)


def check_eq(c, env):
    return check_lines(c, env, preload='(use srfi-6)\n')


def check_table(c, env):
    return check_lines(c, env, preload=TPRE)


PARTS = [Part('equality', gen_eq, check_eq, 12000, 250000, variants=VARS), Part('symbols', gen_sym, check_eq, 6000, 120000, variants=VARS),
         Part('many', gen_many, check_eq, 60, 2000, variants=VARS),
         Part('tables', gen_table, check_table, 8000, 150000, variants=VARS)]
