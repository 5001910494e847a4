"""List operations against Python lists and a graph of pairs."""
from vlib.engine import Part
from vlib.lines import Lines, check_lines

ID = 'P10'
RULE = 'a list operation runs on a list of two or more elements, on several lists, on a dotted or circular list, or on ill-typed arguments'
ASSUMPTIONS = ['where SRFI-1 leaves an order or the sharing of a result unspecified only the multiset or the value is compared']
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']
PRE = '''
(use srfi-8)
(define r5map map)
(define r5for-each for-each)
(define (srt l) (let ins ((l l) (r '())) (if (null? l) r (ins (cdr l) (let put ((x (car l)) (r r)) (cond ((null? r) (list x)) ((< x (car r)) (cons x r)) (else (cons (car r) (put x (cdr r))))))))))
(define lg '())
(define (tr . x) (set! lg (append lg (list (if (null? (cdr x)) (car x) x)))))
(define-macro vals (lambda (e) (list 'call-with-values (list 'lambda '() e) 'list)))
'''
PRE1 = '(use srfi-1)\n' + PRE


class Sy:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Sy) and o.n == self.n

    def __hash__(self):
        return hash(self.n)


class D:
    """dotted list"""
    def __init__(self, items, tail):
        self.items, self.tail = items, tail


def w(x):
    if x is True:
        return '#t'
    if x is False:
        return '#f'
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return '"%s"' % x
    if isinstance(x, Sy):
        return x.n
    if isinstance(x, D):
        return '(%s . %s)' % (' '.join(map(w, x.items)), w(x.tail)) if x.items else w(x.tail)
    return '(%s)' % ' '.join(map(w, x))


def q(x):
    """expression that builds a fresh object"""
    if isinstance(x, list):
        return '(list%s)' % ''.join(' ' + q(e) for e in x)
    if isinstance(x, D):
        r = q(x.tail)
        for e in reversed(x.items):
            r = '(cons %s %s)' % (q(e), r)
        return r
    if isinstance(x, Sy):
        return "'" + x.n
    return w(x)


PREDS = [('odd?', lambda x: x % 2 == 1), ('even?', lambda x: x % 2 == 0), ('positive?', lambda x: x > 0), ('zero?', lambda x: x == 0),
         ('(lambda (x) (< x 3))', lambda x: x < 3), ('(lambda (x) #f)', lambda x: False), ('(lambda (x) #t)', lambda x: True),
         ('(lambda (x) (> x 1))', lambda x: x > 1)]
PRED2 = [('<', lambda a, b: a < b), ('=', lambda a, b: a == b), ('(lambda (a b) (odd? (+ a b)))', lambda a, b: (a + b) % 2 == 1),
         ('(lambda (a b) #f)', lambda a, b: False), ('(lambda (a b) #t)', lambda a, b: True)]
EQS = [('', lambda a, b: a == b), (' =', lambda a, b: a == b), (' eqv?', lambda a, b: a == b), (' <', lambda a, b: a < b),
       (' (lambda (a b) (= (modulo a 3) (modulo b 3)))', lambda a, b: a % 3 == b % 3), (' equal?', lambda a, b: a == b)]
EQV = EQS[:3] + EQS[4:]


class G:
    """one let expression"""
    def __init__(self, s):
        self.s = s
        self.b = []
        self.nt = False

    def ints(self, mx=9, mn=0):
        s = self.s
        n = max(mn, s.size(mx))
        hi = s.choice([3, 6, 20])
        return [s.below(hi) - (1 if hi == 6 else 0) for _ in range(n)]

    def bind(self, v):
        n = 'abcdefgh'[len(self.b)]
        self.b.append((n, v))
        if isinstance(v, D) or isinstance(v, list) and len(v) > 1:
            self.nt = True
        return n

    def l(self, mx=9, mn=0):
        v = self.ints(mx, mn)
        return self.bind(v), v

    def pred(self):
        return self.s.choice(PREDS)


def dup(xs, eq, x_first=True):
    r = []
    for x in xs:
        if not any(eq(y, x) for y in r):
            r.append(x)
    return r


OPS = {}


def op(f):
    OPS[f.__name__] = f
    return f


# ---- each op returns (expression, value, kind) ; kind: '' prints the bound lists as well (they must be unchanged),
# '!' destructive: they are not printed, 'S' the result is compared sorted

@op
def cons_star(s, g):
    xs = g.ints(4)
    n, l = g.l(4)
    return '(cons*%s %s)' % (''.join(' %d' % x for x in xs), n), xs + l, ''


@op
def make(s, g):
    k = s.below(5)
    n = s.below(6)
    if k == 0:
        return '(make-list %d 7)' % n, [7] * n, ''
    if k == 1:
        return '(list-tabulate %d (lambda (i) (* i i)))' % n, [i * i for i in range(n)], ''
    if k == 2:
        st, d = s.range(-5, 5), s.range(-3, 3)
        j = s.below(3)
        return '(iota %d%s)' % (n, ['', ' %d' % st, ' %d %d' % (st, d)][j]), \
            [(st if j else 0) + i * (d if j == 2 else 1) for i in range(n)], ''
    if k == 3:
        return '(xcons 1 2)', D([2], 1), ''
    a, l = g.l()
    t = s.choice([None, 5])
    if t is None:
        return '(let ((x (list-copy %s))) (list x (eq? x %s)))' % (a, a), [l, not l], ''
    a = g.bind(D(l, 5))
    return '(list-copy %s)' % a, D(l, 5), ''


def wild(s, l):
    """an index out of range that is in range when it is cut to fewer bits"""
    return s.choice([1, 1, -1]) * (1 << s.choice([8, 16, 31, 32, 33, 40, 58])) + s.below(len(l) + 1)


@op
def taking(s, g):
    a, l = g.l()
    k = s.below(len(l) + 1)
    j = s.below(12)
    bad = s.bool(1, 12)
    if bad:
        k = len(l) + 1 + s.below(3) if s.bool() else wild(s, l)
        return '(%s %s %d)' % (s.choice(['take', 'drop', 'take-right', 'drop-right', 'split-at', 'list-tail']), a, k), None, 'E'
    if j == 0:
        return '(take %s %d)' % (a, k), l[:k], ''
    if j == 1:
        return '(drop %s %d)' % (a, k), l[k:], ''
    if j == 2:
        return '(take-right %s %d)' % (a, k), l[len(l) - k:], ''
    if j == 3:
        return '(drop-right %s %d)' % (a, k), l[:len(l) - k], ''
    if j == 4:
        return '(vals (split-at %s %d))' % (a, k), [l[:k], l[k:]], ''
    if j == 5:
        return '(take! %s %d)' % (a, k), l[:k], '!'
    if j == 6:
        return '(drop-right! %s %d)' % (a, k), l[:len(l) - k], '!'
    if j == 7:
        return '(vals (split-at! %s %d))' % (a, k), [l[:k], l[k:]], '!'
    if j == 8:
        return '(eq? (drop %s %d) (list-tail %s %d))' % (a, k, a, k), True, ''
    if j == 9:
        return '(append (take %s %d) (drop %s %d))' % (a, k, a, k), l, ''
    d = D(l, 99)
    a = g.bind(d)
    if j == 10:
        return '(list (take %s %d) (take-right %s %d) (drop %s %d))' % (a, k, a, k, a, k), \
            [l[:k], D(l[len(l) - k:], 99), D(l[k:], 99)], ''
    return '(drop-right %s %d)' % (a, k), l[:len(l) - k], ''


@op
def select(s, g):
    a, l = g.l(12, 1)
    names = ['first', 'second', 'third', 'fourth', 'fifth', 'sixth', 'seventh', 'eighth', 'ninth', 'tenth']
    k = s.below(10)
    if k >= len(l):
        return '(%s %s)' % (names[k], a), None, 'E'
    j = s.below(4)
    if j == 0:
        return '(list (%s %s) (list-ref %s %d))' % (names[k], a, a, k), [l[k], l[k]], ''
    if j == 1:
        return '(vals (car+cdr %s))' % a, [l[0], l[1:]], ''
    if j == 2:
        return '(list (last %s) (last-pair %s))' % (a, a), [l[-1], l[-1:]], ''
    a = g.bind(D(l, 8))
    return '(list (last %s) (last-pair %s))' % (a, a), [l[-1], D(l[-1:], 8)], ''


@op
def preds(s, g):
    l = g.ints(6)
    k = s.below(4)
    if k == 0:
        a = g.bind(l)
        return '(list (proper-list? %s) (dotted-list? %s) (circular-list? %s) (length+ %s) (list? %s) (null-list? %s) (not-pair? %s))' % ((a,) * 7), \
            [True, False, False, len(l), True, not l, not l], ''
    if k == 1:
        a = g.bind(D(l, 5))
        return '(list (proper-list? %s) (dotted-list? %s) (circular-list? %s) (list? %s) (not-pair? %s))' % ((a,) * 5), \
            [False, True, False, False, not l], ''
    l = l or [1]
    g.nt = True
    n = s.below(4)
    return '(let ((c (let* ((x (circular-list %s)) (y (append (list %s) x))) y))) (list (proper-list? c) (dotted-list? c) (circular-list? c) (length+ c) (list? c) (pair? c) (take c 7)))' % (
        ' '.join(map(str, l)), ' '.join(str(i) for i in range(n))), [False, False, True, False, False, True, (list(range(n)) + l * 8)[:7]], ''


@op
def appending(s, g):
    n = s.below(5)
    ls = [g.l(5) for _ in range(n)]
    names = ''.join(' ' + a for a, _ in ls)
    v = sum((l for _, l in ls), [])
    k = s.below(8)
    if k == 0:
        return '(append%s)' % names, v, ''
    if k == 1:
        return '(append!%s)' % names, v, '!'
    if k == 2:
        return '(concatenate (list%s))' % names, v, ''
    if k == 3:
        return '(concatenate! (list%s))' % names, v, '!'
    if k == 4:
        return '(append%s 9)' % names, D(v, 9) if v else 9, ''
    a, l = g.l(5)
    b, m = g.l(5)
    if k == 5:
        return '(append-reverse %s %s)' % (a, b), l[::-1] + m, ''
    if k == 6:
        return '(append-reverse! %s %s)' % (a, b), l[::-1] + m, '!'
    j = s.below(3)
    if j == 0:
        return '(reverse %s)' % a, l[::-1], ''
    if j == 1:
        return '(reverse! %s)' % a, l[::-1], '!'
    return '(let ((x (append %s %s))) (eq? (list-tail x %d) %s))' % (a, b, len(l), b), True, ''


@op
def zips(s, g):
    k = s.below(3)
    if k == 0:
        ls = [g.l(6) for _ in range(s.range(1, 4))]
        return '(zip%s)' % ''.join(' ' + a for a, _ in ls), [list(t) for t in zip(*[l for _, l in ls])], ''
    n = s.range(1, 5)
    rows = [[s.below(9) for _ in range(n)] for _ in range(s.below(6))]
    a = g.bind(rows)
    if n == 1:
        return '(unzip1 %s)' % a, [r[0] for r in rows], ''
    return '(vals (unzip%d %s))' % (n, a), [[r[i] for r in rows] for i in range(n)], ''


@op
def counting(s, g):
    if s.bool():
        a, l = g.l()
        p = g.pred()
        return '(count %s %s)' % (p[0], a), sum(map(p[1], l)), ''
    (a, l), (b, m) = g.l(), g.l()
    p = s.choice(PRED2)
    return '(count %s %s %s)' % (p[0], a, b), sum(p[1](x, y) for x, y in zip(l, m)), ''


@op
def folds(s, g):
    k = s.below(12)
    if k <= 3:
        ls = [g.l(6) for _ in range(s.range(1, 3))]
        names = ''.join(' ' + a for a, _ in ls)
        rows = list(zip(*[l for _, l in ls]))
        if k == 0:
            r = [0]
            for t in rows:
                r = list(t) + [r]
            return "(fold list '(0)%s)" % names, r, ''
        if k == 1:
            r = [0]
            for t in reversed(rows):
                r = list(t) + [r]
            return "(fold-right list '(0)%s)" % names, r, ''
        n = min(len(l) for _, l in ls)
        r = [0]
        for i in (range(n) if k == 2 else reversed(range(n))):
            r = [l[i:] for _, l in ls] + [r]
        return "(%s list '(0)%s)" % ('pair-fold' if k == 2 else 'pair-fold-right', names), r, ''
    a, l = g.l()
    if k == 4:
        r = 77
        if l:
            r = l[0]
            for x in l[1:]:
                r = [x, r]
        return '(reduce list 77 %s)' % a, r, ''
    if k == 5:
        r = 77
        if l:
            r = l[-1]
            for x in reversed(l[:-1]):
                r = [x, r]
        return '(reduce-right list 77 %s)' % a, r, ''
    if k == 6:
        n = s.below(7)
        return '(unfold (lambda (x) (> x %d)) (lambda (x) (* x x)) (lambda (x) (+ x 1)) 1)' % n, [i * i for i in range(1, n + 1)], ''
    if k == 7:
        n = s.below(5)
        return '(unfold (lambda (x) (> x %d)) - (lambda (x) (+ x 1)) 1 (lambda (x) (list x 100)))' % n, \
            [-i for i in range(1, n + 1)] + [n + 1, 100], ''
    if k == 8:
        n = s.below(6)
        return '(unfold-right zero? (lambda (x) (* x x)) (lambda (x) (- x 1)) %d)' % n, [i * i for i in range(1, n + 1)], ''
    if k == 9:
        return '(unfold-right null? car cdr %s %s)' % (a, g.bind([1, 2])), l[::-1] + [1, 2], ''
    if k == 10:
        return "(let ((r (fold cons '() %s))) (list r lg))" % a, [l[::-1], []], ''
    return "(let ((r (fold (lambda (x y) (tr x y) (+ x y)) 0 %s))) (list r lg))" % a, \
        [sum(l), [[x, sum(l[:i])] for i, x in enumerate(l)]], ''


@op
def maps(s, g):
    k = s.below(12)
    n = s.range(1, 3)
    ls = [g.l(6) for _ in range(n)]
    names = ''.join(' ' + a for a, _ in ls)
    rows = list(zip(*[l for _, l in ls]))
    if k == 0:
        return '(map list%s)' % names, [list(t) for t in rows], ''
    if k == 1:
        return '(let ((r (map-in-order (lambda x (apply tr x) (apply + x))%s))) (list r lg))' % names, \
            [[sum(t) for t in rows], [list(t) if n > 1 else t[0] for t in rows]], ''
    if k == 2:
        return '(begin (for-each tr%s) lg)' % names, [list(t) if n > 1 else t[0] for t in rows], ''
    if k == 3:
        r = [x for t in rows for x in list(t) + [0]]
        return '(%s (lambda x (append x (list 0)))%s)' % (s.choice(['append-map', 'append-map!']), names), r, ''
    if k == 4:
        return '(filter-map (lambda x (and (odd? (apply + x)) (* 2 (apply + x))))%s)' % names, [2 * sum(t) for t in rows if sum(t) % 2], ''
    if k == 5:
        m = min(len(l) for _, l in ls)
        tails = [[l[i:] for _, l in ls] for i in range(m)]
        return '(begin (pair-for-each (lambda x (tr x))%s) lg)' % names, tails, ''
    if k == 6:
        a, l = g.l(4)
        ms = [g.bind(l + g.ints(2)) for _ in range(s.below(2))]
        vs = [v for nme, v in g.b if nme in ms]
        return '(map! (lambda x (apply + x)) %s%s)' % (a, ''.join(' ' + m for m in ms)), [sum(t) for t in zip(l, *vs)], '!'
    p = s.choice(PRED2) if n == 2 else None
    a, l = ls[0]
    if k in (7, 8, 9):
        name = ['any', 'every', 'list-index'][k - 7]
        if n >= 2:
            p = s.choice(PRED2)
            b, m = ls[1]
            e = '(%s (lambda (x y) (tr x y) (and (%s x y) x)) %s %s)' % (name, p[0], a, b)
            rows = list(zip(l, m))
            f = lambda t: p[1](*t)
        else:
            p = g.pred()
            e = '(%s (lambda (x) (tr x) (and (%s x) x)) %s)' % (name, p[0], a)
            rows = [(x,) for x in l]
            f = lambda t: p[1](*t)
        log, res = [], {'any': False, 'every': True, 'list-index': False}[name]
        for i, t in enumerate(rows):
            log.append(list(t) if len(t) > 1 else t[0])
            v = f(t)
            if name == 'any' and v:
                res = t[0]
                break
            if name == 'every':
                res = t[0] if v else False
                if not v:
                    break
            if name == 'list-index' and v:
                res = i
                break
        return '(let ((r %s)) (list r lg))' % e, [res, log], ''
    if k == 10:
        a, l = g.l()
        return '(pair-fold (lambda (p t) (set-cdr! p t) p) \'() %s)' % a, l[::-1], '!'
    return s.choice(["(map car %s)", "(for-each car %s)", "(filter %s 1)", "(fold cons '() 5 %s)", "(map 5 %s)", "(reduce + 0 1 %s)",
                     "(any car %s)"]) % g.bind([1, 2]), None, 'E'


@op
def searching(s, g):
    a, l = g.l()
    p = g.pred()
    ix = next((i for i, x in enumerate(l) if p[1](x)), None)
    nx = next((i for i, x in enumerate(l) if not p[1](x)), len(l))
    k = s.below(14)
    seen = l[:len(l) if ix is None else ix + 1]
    pp = '(lambda (x) (tr x) (%s x))' % p[0]
    if k == 0:
        return '(let ((r (find %s %s))) (list r lg))' % (pp, a), [False if ix is None else l[ix], seen], ''
    if k == 1:
        return '(let ((r (find-tail %s %s))) (list r lg))' % (pp, a), [False if ix is None else l[ix:], seen], ''
    if k in (2, 3):
        return '(take-while%s %s %s)' % ('!' if k == 3 else '', p[0], a), l[:nx], '!' if k == 3 else ''
    if k == 4:
        return '(drop-while %s %s)' % (p[0], a), l[nx:], ''
    if k in (5, 6):
        return '(vals (span%s %s %s))' % ('!' if k == 6 else '', p[0], a), [l[:nx], l[nx:]], '!' if k == 6 else ''
    if k in (7, 8):
        i = len(l) if ix is None else ix
        return '(vals (break%s %s %s))' % ('!' if k == 8 else '', p[0], a), [l[:i], l[i:]], '!' if k == 8 else ''
    x = s.below(6)
    e = s.choice(EQS)
    if k == 9:
        i = next((i for i, y in enumerate(l) if e[1](x, y)), None)
        return '(member %d %s%s)' % (x, a, e[0]), False if i is None else l[i:], ''
    if k in (10, 11):
        return '(delete%s %d %s%s)' % ('!' if k == 11 else '', x, a, e[0]), [y for y in l if not e[1](x, y)], '!' if k == 11 else ''
    e = s.choice(EQV)
    return '(delete-duplicates%s %s%s)' % ('!' if k == 13 else '', a, e[0]), dup(l, e[1]), '!' if k == 13 else ''


@op
def filtering(s, g):
    a, l = g.l(12)
    p = g.pred()
    k = s.below(6)
    yes, no = [x for x in l if p[1](x)], [x for x in l if not p[1](x)]
    b = '!' if k % 2 else ''
    if k < 2:
        return '(filter%s %s %s)' % (b, p[0], a), yes, b
    if k < 4:
        return '(remove%s %s %s)' % (b, p[0], a), no, b
    return '(vals (partition%s %s %s))' % (b, p[0], a), [yes, no], b


@op
def alists(s, g):
    ks = g.ints(6)
    al = [D([k], 10 * i) for i, k in enumerate(ks)]
    a = g.bind(al)
    x = s.below(5)
    e = s.choice(EQS)
    k = s.below(5)
    if k == 0:
        i = next((i for i, y in enumerate(ks) if e[1](x, y)), None)
        return '(assoc %d %s%s)' % (x, a, e[0]), False if i is None else al[i], ''
    if k == 1:
        return '(alist-cons %d 5 %s)' % (x, a), [D([x], 5)] + al, ''
    if k == 2:
        return '(let ((x (alist-copy %s))) (for-each (lambda (p) (set-cdr! p 0)) x) %s)' % (a, a), al, ''
    return '(alist-delete%s %d %s%s)' % ('!' if k == 4 else '', x, a, e[0]), [d for d in al if not e[1](x, d.items[0])], '!' if k == 4 else ''


@op
def list_eq(s, g):
    l = g.ints(5)
    ls = []
    for _ in range(s.below(4)):
        m = list(l)
        j = s.below(5)
        if j == 1 and m:
            m[s.below(len(m))] += 1
        if j == 2:
            m = m[:-1]
        if j == 3:
            m = m + [1]
        ls.append((g.bind(m), m))
    e = s.choice([('=', lambda a, b: a == b), ('<=', lambda a, b: a <= b), ('eqv?', lambda a, b: a == b)])
    v = all(len(x) == len(y) and all(map(e[1], x, y)) for (_, x), (_, y) in zip(ls, ls[1:]))
    return '(list= %s%s)' % (e[0], ''.join(' ' + a for a, _ in ls)), v, ''


@op
def lsets(s, g):
    k = s.below(14)
    n = s.below(4)
    e = s.choice([('=', lambda a, b: a == b), ('eqv?', lambda a, b: a == b), ('(lambda (a b) (= (modulo a 4) (modulo b 4)))', lambda a, b: a % 4 == b % 4)])
    if k >= 3:
        e = s.choice([e, e, ('equal?', lambda a, b: a == b)])
    ls = []
    for _ in range(n):
        ls.append(g.l(6))
    names = ''.join(' ' + a for a, _ in ls)
    vs = [l for _, l in ls]
    isin = lambda x, l: any(e[1](x, y) for y in l)
    if k == 0:
        return '(lset<= %s%s)' % (e[0], names), all(all(isin(x, b) for x in a) for a, b in zip(vs, vs[1:])), ''
    if k == 1:
        return '(lset= %s%s)' % (e[0], names), all(all(isin(x, b) for x in a) and all(isin(x, a) for x in b) for a, b in zip(vs, vs[1:])), ''
    a, l = g.l(6)
    if k == 2:
        xs = [s.below(6) for _ in range(s.below(4))]
        r = list(l)
        for x in xs:
            if not isin(x, r):
                r = [x] + r
        return '(lset-adjoin %s %s%s)' % (e[0], a, ''.join(' %d' % x for x in xs)), r, 'S'
    # results as sets of equivalence classes, because the representative and order are not specified
    mod = 4 if 'modulo' in e[0] else 1000
    cls = lambda l: sorted({x % mod for x in l})
    wrap = lambda x: '(srt (let lp ((l %s) (r (quote ()))) (if (null? l) r (lp (cdr l) (let ((m (modulo (car l) %d))) (if (memv m r) r (cons m r)))))))' % (x, mod)
    b = '!' if k % 2 and s.bool() else ''
    if k in (3, 4, 5):
        return wrap('(lset-union%s %s%s)' % (b, e[0], names)), cls(sum(vs, [])), b
    if k in (6, 7):
        return '(lset-intersection%s %s %s%s)' % (b, e[0], a, names), [x for x in l if all(isin(x, v) for v in vs)], b
    if k in (8, 9):
        return '(lset-difference%s %s %s%s)' % (b, e[0], a, names), [x for x in l if not any(isin(x, v) for v in vs)], b
    if k in (10, 11):
        # duplicates are outside the specification of lset-xor
        r = []
        for v in vs:
            c = {x % mod for x in v}
            r = set(r) ^ c
        ds = [(nm, dup(v, e[1])) for nm, v in ls]
        for i, (nm, v) in enumerate(ds):
            for t in range(len(g.b)):
                if g.b[t][0] == nm:
                    g.b[t] = (nm, v)
        return wrap('(lset-xor%s %s%s)' % (b, e[0], names)), sorted(r), b
    return '(vals (lset-diff+intersection%s %s %s%s))' % (b, e[0], a, names), \
        [[x for x in l if not any(isin(x, v) for v in vs)], [x for x in l if any(isin(x, v) for v in vs)]], b


@op
def r5rs(s, g):
    k = s.below(15)
    l = g.ints(7)
    if k == 10:
        # entries that are not pairs, before or after the entry searched for
        es = [D([s.below(6)], 10 + i) for i in range(s.range(1, 5))]
        j = s.below(len(es) + 1)
        bad = s.choice([[], 5, Sy('z'), 'x', False])
        es.insert(j, bad)
        x = s.below(6)
        i = next((i for i, y in enumerate(es) if isinstance(y, D) and y.items[0] == x), None)
        a = g.bind(es)
        e = '(%s %d %s)' % (s.choice(['assoc', 'assv']), x, a)
        if i is None or i > j:
            return e, None, 'E'
        return e, es[i], ''
    if k == 11:
        cs = [s.choice('abc') for _ in range(s.below(6))]
        x = s.choice('abc')
        g.nt = True
        i = cs.index(x) if x in cs else None
        if s.bool():
            return '(%s #\\%s (list%s))' % (s.choice(['member', 'memv']), x, ''.join(' (integer->char %d)' % ord(c) for c in cs)), \
                False if i is None else [Sy('#\\' + c) for c in cs[i:]], ''
        return '(%s (integer->char %d) (list%s))' % (s.choice(['assoc', 'assv']), ord(x), ''.join(" (list #\\%s %d)" % (c, n) for n, c in enumerate(cs))), \
            False if i is None else [Sy('#\\' + x), i], ''
    if k == 12:
        a = g.bind(l)
        return '(%s %s %d)' % (s.choice(['list-tail', 'list-ref']), a, s.choice([-s.range(1, 3), wild(s, l), wild(s, l)])), None, 'E'
    if k in (13, 14):
        # long lists: a lead of n pairs, then nothing, an atom or a cycle of m pairs
        n, m = s.choice([0, 1, 2, 3, 7, 30, 64, 65, 127, 200, 400, 1000]) + s.below(3), s.choice([1, 2, 3, 4, 5, 8, 33, 64, 128, 300])
        g.nt = True
        t = s.below(3)
        mk = '(let ((lead (lambda (k t) (let lp ((k k) (t t)) (if (= k 0) t (lp (- k 1) (cons k t))))))) (let ((x (lead %d %s))) %s))'
        if t == 0:
            o, n = s.below(4), n or 1
            e = ['(list (length x) (list? x))', '(let ((y (reverse x))) (list (length y) (car y)))', '(let ((y (append x (quote (1 2))))) (list (length y) (list-ref y %d)))' % n,
                 '(let ((y (r5map - x))) (list (length y) (apply + y)))'][o]
            return mk % (n, "'()", e), [[n, True], [n, n], [n + 2, 1], [n, -n * (n + 1) // 2]][o], ''
        if t == 1:
            e = s.choice(['(list? x)', '(length x)', '(reverse x)', '(append x x)', '(apply list x)'])
            if e == '(list? x)':
                return mk % (n, '5', e), False, ''
            return mk % (n or 1, '5', e), None, 'E'
        cyc = "(let ((c (lead %d '()))) (set-cdr! (list-tail c %d) c) c)" % (m, m - 1)
        e = s.choice(['(list? x)', '(length x)', '(list? x)', '(pair? (list-tail x %d))' % (n + 3 * m)])
        if e.startswith('(len'):
            return mk % (n, cyc, e), None, 'E'
        return mk % (n, cyc, e), e[1] == 'p', ''
    if k == 0:
        a = g.bind(l)
        return '(list (length %s) (list? %s) (reverse %s) (null? %s))' % (a, a, a, a), [len(l), True, l[::-1], not l], ''
    if k == 1:
        a = g.bind(D(l, 3))
        return s.choice(['(length %s)', '(reverse %s)', "(append %s '(1))", '(map car %s)', '(apply + %s)', '(list-tail %s 20)']) % a, None, 'E'
    if k == 2:
        sy = [s.choice([Sy('a'), Sy('b'), Sy('c'), 1, 2, 'x', [1], [Sy('a')], []]) for _ in range(s.below(7))]
        x = s.choice([Sy('a'), Sy('b'), 2, 'x', [1], []])
        a = g.bind(sy)
        same = [type(y) is type(x) and y == x for y in sy]
        i = next((i for i, t in enumerate(same) if t), None)
        f = s.choice(['member', 'memv', 'memq']) if isinstance(x, Sy) or x == [] else s.choice(['member', 'memv']) if isinstance(x, int) else 'member'
        return '(%s %s %s)' % (f, q(x), a), False if i is None else sy[i:], ''
    if k == 3:
        sy = [D([s.choice([Sy('a'), Sy('b'), 1, 2, 'x', [1]])], s.below(9)) for _ in range(s.below(7))]
        x = s.choice([Sy('a'), Sy('b'), 2, 'x', [1]])
        a = g.bind(sy)
        i = next((i for i, y in enumerate(sy) if type(y.items[0]) is type(x) and y.items[0] == x), None)
        f = s.choice(['assoc', 'assv', 'assq']) if isinstance(x, Sy) else s.choice(['assoc', 'assv']) if isinstance(x, int) else 'assoc'
        return '(%s %s %s)' % (f, q(x), a), False if i is None else sy[i], ''
    if k == 4:
        n = s.range(1, 4)
        m = s.size(6)
        vs = [[s.below(9) for _ in range(m)] for _ in range(n)]
        names = ' '.join(g.bind(v) for v in vs)
        return '(let ((r (r5map (lambda x (apply tr x) x) %s))) (list r lg))' % names, \
            [[list(t) for t in zip(*vs)], [list(t) if n > 1 else t[0] for t in zip(*vs)]], ''
    if k == 5:
        n = s.range(1, 4)
        m = s.size(6)
        vs = [[s.below(9) for _ in range(m)] for _ in range(n)]
        names = ' '.join(g.bind(v) for v in vs)
        return '(begin (r5for-each tr %s) lg)' % names, [list(t) if n > 1 else t[0] for t in zip(*vs)], ''
    a = g.bind(l)
    if k == 6:
        i = s.below(len(l) + 2)
        return '(list-tail %s %d)' % (a, i), l[i:] if i <= len(l) else None, '' if i <= len(l) else 'E'
    if k == 7:
        i = s.below(len(l) + 2)
        return '(list-ref %s %d)' % (a, i), l[i] if i < len(l) else None, '' if i < len(l) else 'E'
    if k == 8:
        # c[ad]+r on nested data
        t = s.range(1, 4)
        path = ''.join(s.choice('ad') for _ in range(t))
        d = [[[[1, 2], 3], [4, [5]]], [[6], 7, [8, 9]], D([[10, 11]], 12)] if s.bool() else g.ints(6)
        a = g.bind(d)
        v, err = d, False
        for c in reversed(path):
            if isinstance(v, list) and v:
                v = v[0] if c == 'a' else v[1:]
            elif isinstance(v, D):
                v = v.items[0] if c == 'a' else v.tail if len(v.items) == 1 else D(v.items[1:], v.tail)
            else:
                err = True
                break
        return '(c%sr %s)' % (path, a), None if err else v, 'E' if err else ''
    return s.choice(["(length 5)", "(car '())", "(cdr 5)", "(set-car! '() 1)", "(list-tail '() 1)", "(map car 5)", "(length)", "(append 1 '())",
                     "(memq 'a 5)", "(assq 'a '(5))", "(apply car '(1 2))", "(cons 1)", "(reverse 1)", "(list-ref '(1) 'a)"]), None, 'E'


BASIC = ['r5rs']
WEIGHTED = []
for _n, _w in [('cons_star', 1), ('make', 2), ('taking', 4), ('select', 2), ('preds', 2), ('appending', 3), ('zips', 2), ('counting', 1),
               ('folds', 4), ('maps', 5), ('searching', 5), ('filtering', 3), ('alists', 2), ('list_eq', 1), ('lsets', 5), ('r5rs', 2)]:
    WEIGHTED += [_n] * _w


def gen_ops(names):
    def gen(s):
        variant = s.weighted([(6, VARS[0]), (3, VARS[1]), (1, VARS[2]), (1, VARS[3])])
        L = Lines()
        for _ in range(s.range(1, 16)):
            n = s.choice(names)
            g = G(s)
            e, v, kind = OPS[n](s, g)
            binds = ' '.join('(%s %s)' % (a, q(x)) for a, x in g.b)
            if kind == 'E':
                L.add("(let (%s) (set! lg '()) %s)" % (binds, e), '!E', n, True)
                continue
            if kind == 'S':
                e, v = '(srt %s)' % e, sorted(v)
            if kind == '!':
                L.add("(let (%s) (set! lg '()) %s)" % (binds, e), '=> ' + w(v), n, g.nt)
            else:
                L.add("(let (%s) (set! lg '()) (let ((r %s)) (list r %s)))" % (binds, e, ' '.join(a for a, _ in g.b)),
                      '=> ' + w([v] + [x for _, x in g.b]), n, g.nt)
        return L.case(tags=[variant], variant=variant)
    return gen


def check1(c, env):
    return check_lines(c, env, preload=PRE1)


def check0(c, env):
    return check_lines(c, env, preload=PRE)


# ---------------------------------------------------------------- graph of pairs

class P:
    __slots__ = ('a', 'd')

    def __init__(self, a, d):
        self.a, self.d = a, d


NIL = ()
GPRE = '''
(use srfi-1)
(define (sh x n) (cond ((and (pair? x) (> n 0)) (begin (display "<") (let ((m (sh (car x) (quotient n 2)))) (display ",") (sh (cdr x) (- n 1))) (display ">"))) ((pair? x) (display "*")) (else (write x))))
'''


def sh(x, n):
    if isinstance(x, P):
        return '<%s,%s>' % (sh(x.a, n // 2), sh(x.d, n - 1)) if n > 0 else '*'
    return w(list(x) if x is NIL else x)


def chain(x):
    """-> (pairs, tail or None when circular)"""
    ps, seen = [], set()
    while isinstance(x, P):
        if id(x) in seen:
            return ps, None
        seen.add(id(x))
        ps.append(x)
        x = x.d
    return ps, x


def gen_graph(s):
    variant = s.weighted([(6, VARS[0]), (3, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    L = Lines()
    V = []
    for i in range(4):
        n = s.below(4)
        x = NIL
        vals = [s.below(5) for _ in range(n)]
        for v in reversed(vals):
            x = P(v, x)
        V.append(x)
        L.add('(define v%d (list%s))' % (i, ''.join(' %d' % v for v in vals)), '=> v%d' % i)

    def atom():
        v = s.choice([0, 1, 2, 'v', NIL])
        if v == 'v':
            i = s.below(4)
            return 'v%d' % i, V[i]
        return "'()" if v is NIL else str(v), v

    def path(i):
        """an existing pair reachable from v_i -> (expr, pair)"""
        x, e = V[i], 'v%d' % i
        for _ in range(s.below(4)):
            if not isinstance(x, P):
                break
            y = x.d if s.bool(3, 4) else x.a
            if not isinstance(y, P):
                break
            e = '(%s %s)' % ('cdr' if y is x.d else 'car', e)
            x = y
        return e, x

    for _ in range(s.range(2, 16)):
        i, j = s.below(4), s.below(4)
        k = s.below(12)
        if k <= 3:
            e, p = path(i)
            a, v = atom()
            f = s.choice(['car', 'cdr'])
            if not isinstance(p, P):
                L.add('(set-%s! %s %s)' % (f, e, a), '!E')
                continue
            if f == 'car':
                p.a = v
            else:
                p.d = v
            L.add('(begin (set-%s! %s %s) 0)' % (f, e, a), '=> 0', 'set-%s!' % f, True)
        elif k == 4:
            (a, x), (b, y) = atom(), atom()
            V[i] = P(x, y)
            L.add('(define v%d (cons %s %s))' % (i, a, b), '=> v%d' % i)
        elif k == 5:
            ps, t = chain(V[j])
            n = s.below(len(ps) + 3)
            e = '(define v%d (list-tail v%d %d))' % (i, j, n)
            x, bad = V[j], False
            for _ in range(n):
                if not isinstance(x, P):
                    bad = True
                    break
                x = x.d
            if bad:
                L.add(e, '!E', 'list-tail', True)
            else:
                V[i] = x
                L.add(e, '=> v%d' % i, 'list-tail')
        elif k == 6:
            ps, t = chain(V[j])
            m = s.below(4)
            if t is None:
                continue
            if t is not NIL:
                L.add('(append v%d v%d)' % (j, m), '!E', 'append', True)
                continue
            x = V[m]
            for p in reversed(ps):
                x = P(p.a, x)
            V[i] = x
            L.add('(define v%d (append v%d v%d))' % (i, j, m), '=> v%d' % i, 'append', len(ps) > 0)
        elif k == 7:
            ps, t = chain(V[j])
            if t is None:
                continue
            if t is not NIL:
                L.add('(reverse v%d)' % j, '!E', 'reverse', True)
                continue
            x = NIL
            for p in ps:
                x = P(p.a, x)
            V[i] = x
            L.add('(define v%d (reverse v%d))' % (i, j), '=> v%d' % i, 'reverse')
        elif k == 8:
            ps, t = chain(V[j])
            L.add('(list (list? v%d) (circular-list? v%d) (dotted-list? v%d) (pair? v%d) (null? v%d))' % ((j,) * 5),
                  '=> (%s)' % ' '.join(map(w, [t is NIL, t is None, t is not None and t is not NIL, bool(ps), t is NIL and not ps])), 'predicates', t is not NIL)
        elif k == 9:
            ps, t = chain(V[j])
            L.add('(length v%d)' % j, '=> %d' % len(ps) if t is NIL else '!E', 'length', t is not NIL)
            if t is NIL or t is None:
                L.add('(length+ v%d)' % j, '=> %d' % len(ps) if t is NIL else '=> #f', 'length+', t is not NIL)
        elif k == 10:
            (e, p), (f, r) = path(i), path(j)
            if isinstance(p, P) or isinstance(r, P):
                L.add('(list (eq? %s %s) (eqv? %s %s))' % (e, f, e, f), '=> (%s %s)' % ((w(p is r),) * 2), 'eq?')
        else:
            n = s.below(4)
            bits = ''.join(s.choice('ad') for _ in range(n + 1))
            x, bad = V[j], False
            for c in reversed(bits):
                if not isinstance(x, P):
                    bad = True
                    break
                x = x.a if c == 'a' else x.d
            if bad:
                L.add('(c%sr v%d)' % (bits, j), '!E', 'cxr', True)
            else:
                L.add('(begin (sh (c%sr v%d) 6) 0)' % (bits, j), sh(x, 6) + '=> 0', 'cxr')
    for i in range(4):
        L.add('(begin (sh v%d 12) 0)' % i, sh(V[i], 12) + '=> 0')
    return L.case(tags=[variant], variant=variant)


def check_graph(c, env):
    return check_lines(c, env, preload=GPRE)


PARTS = [Part('srfi1', gen_ops(WEIGHTED), check1, 16000, 300000, variants=VARS),
         Part('r5rs', gen_ops(BASIC), check0, 6000, 100000, variants=VARS),
         Part('pairs', gen_graph, check_graph, 10000, 200000, variants=VARS)]
