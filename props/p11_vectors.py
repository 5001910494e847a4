"""Vector histories against Python lists."""
from vlib.engine import Part
from vlib.lines import Lines, check_lines

ID = 'P11'
RULE = 'the history has a range, overlapping, n-ary or callback operation on vectors of two or more elements, or an index outside a vector'
ASSUMPTIONS = ['the order of the calls made by vector-map and vector-map! is unspecified; a range that starts at the length of the vector is '
               'left out, because SRFI-43 and its reference implementation disagree about it']
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']
NV = 4
PRE = '(use srfi-8)\n(define lg (quote ()))\n(define (tr x) (set! lg (cons x lg)))\n(define-macro logged (lambda (e) (list (quote begin) (quote (set! lg (quote ()))) ' \
      '(list (quote let) (list (list (quote r) e)) (quote (list r (reverse lg)))))))\n'
PRE43 = '(use srfi-43)\n' + PRE


class Sy(str):
    pass


class V:
    def __init__(self, l, const=False):
        self.l, self.const = list(l), const


def w(x):
    if x is True:
        return '#t'
    if x is False:
        return '#f'
    if isinstance(x, V):
        return '#(%s)' % ' '.join(map(w, x.l))
    if isinstance(x, (list, tuple)):
        return '(%s)' % ' '.join(map(w, x))
    return str(x)


def q(x):
    """expression"""
    return w(x) if isinstance(x, int) else "'" + w(x)


def elem(s):
    k = s.below(6)
    if k <= 3:
        return s.below(5)
    return Sy(s.choice(['a', 'b', 'c'])) if k == 4 else s.range(-100, 100)


def eqv(a, b):
    return a is b if isinstance(a, V) or isinstance(b, V) else type(a) is type(b) and a == b


def reach(x, y):
    return x is y or isinstance(x, V) and any(reach(e, y) for e in x.l)


def depth(x):
    return 1 + max([0] + [depth(e) for e in x.l]) if isinstance(x, V) else 0


def size(x):
    return 1 + sum(map(size, x.l)) if isinstance(x, V) else 1


WILD = [1 << 31, -(1 << 31), 1 << 32, -(1 << 32), 1 << 40, (1 << 59) - 1, -(1 << 59)]
ILL = ["'a", '#f', '"1"', "'()", "'(0)", '#\\0', 'car']
NOVEC = ["'(1 2)", '"ab"', '5', '#t', 'car', "'v"]


def badidx(s, n):
    """-> expression of an index outside [0, n)"""
    k = s.below(6)
    if k == 0:
        return s.choice(ILL)
    if k <= 2:
        return str(s.choice([n, n + 1, -1, -n - 1]))
    return str(s.choice(WILD))


PREDS1 = [('symbol?', lambda x: isinstance(x, Sy)), ('integer?', lambda x: isinstance(x, int)), ('(lambda (x) (eqv? x 1))', lambda x: eqv(x, 1)),
          ('vector?', lambda x: isinstance(x, V)), ('(lambda (x) #t)', lambda x: True), ('(lambda (x) #f)', lambda x: False)]
PREDSN = {2: [('eqv?', eqv), ('(lambda (x y) (not (eqv? x y)))', lambda x, y: not eqv(x, y)), ('(lambda (x y) #f)', lambda x, y: False)],
          3: [('(lambda (x y z) (eqv? x z))', lambda x, y, z: eqv(x, z)), ('(lambda l (memv 1 l))', lambda *l: any(eqv(e, 1) for e in l))]}
CHARS = 'xyz'


class H:
    def __init__(self, s, srfi):
        self.s, self.srfi = s, srfi
        self.L = Lines()
        self.v = []
        self.variant = s.weighted([(5, VARS[0]), (2, VARS[1]), (1, VARS[2]), (1, VARS[3])])
        for i in range(NV):
            self.fresh(i)

    def fresh(self, i):
        s = self.s
        l = [elem(s) for _ in range(s.size(7))]
        const = s.bool(1, 5)
        if const:
            e = "'" + w(V(l))
        elif s.bool():
            e = '(vector%s)' % ''.join(' ' + q(x) for x in l)
        else:
            e = '(list->vector (list%s))' % ''.join(' ' + q(x) for x in l)
        x = V(l, const)
        if len(self.v) > i:
            self.v[i] = x
        else:
            self.v.append(x)
        self.L.add('(define v%d %s)' % (i, e), '=> v%d' % i)

    def show(self):
        self.L.add('(list v0 v1 v2 v3)', '=> ' + w(self.v))

    def say(self, form, val, tag, nt=False):
        self.L.add(form, '=> ' + w(val), tag, nt)

    def err(self, form, tag):
        self.L.add(form, '!E', tag, True)
        self.show()

    def do(self, form, tag, nt=False):
        """a mutation that was already applied to the model"""
        self.L.add('(begin %s (list v0 v1 v2 v3))' % form, '=> ' + w(self.v), tag, nt)

    def rng(self, n, least=0):
        """-> (expressions, start, end), or (expressions, None, None) for a bad range"""
        s = self.s
        k = s.below(10)
        if k == 9:
            j = s.below(6)
            if j == 0:
                return [badidx(s, n + 1)], None, None
            if j == 1:
                return [s.choice(['0', str(max(0, n - 1))]), s.choice([str(n + 1), '-1', s.choice(ILL), str(s.choice(WILD))])], None, None
            if j == 2 and n >= 2:
                a = s.range(1, n - 1)
                return [str(a), str(s.below(a))], None, None
            if j == 3:
                return ['0', str(n), '1'], None, None
            if j == 4:
                return [s.choice(ILL), str(n)], None, None
            return [str(n + 1), str(n + 1)], None, None
        if n == 0 or k <= least + 1:
            return [], 0, n
        a = s.below(n)
        if k <= 4:
            return [str(a)], a, n
        b = s.range(a, n)
        return [str(a), str(b)], a, b

    def many(self):
        s = self.s
        ks = [s.below(NV) for _ in range(s.weighted([(5, 1), (3, 2), (2, 3)]))]
        n = min(len(self.v[k].l) for k in ks)
        rows = [[self.v[k].l[i] for k in ks] for i in range(n)]
        return ks, ''.join(' v%d' % k for k in ks), n, rows

    def pred(self, k):
        return self.s.choice(PREDS1 if k == 1 else PREDSN[k])


def basic(h):
    s = h.s
    i = s.below(NV)
    x = h.v[i]
    n = len(x.l)
    op = s.below(14)
    if op <= 2:
        if n and s.bool(5, 6):
            k = s.below(n)
            e = elem(s)
            src = q(e)
            if s.bool(1, 4):
                j = s.below(NV)
                if not reach(h.v[j], x) and depth(h.v[j]) < 4 and size(h.v[j]) < 40:
                    e, src = h.v[j], 'v%d' % j
            if x.const:
                return h.err('(vector-set! v%d %d %s)' % (i, k, src), 'const')
            x.l[k] = e
            return h.do('(vector-set! v%d %d %s)' % (i, k, src), 'vector-set!')
        return h.err('(vector-set! v%d %s 0)' % (i, badidx(s, n)), 'vector-set! bad')
    if op == 3:
        if n and s.bool(3, 4):
            k = s.below(n)
            return h.say('(vector-ref v%d %d)' % (i, k), x.l[k], 'vector-ref')
        return h.err('(vector-ref v%d %s)' % (i, badidx(s, n)), 'vector-ref bad')
    if op == 4:
        return h.say('(vector-length v%d)' % i, n, 'vector-length')
    if op == 5:
        if s.bool(1, 6) and not h.srfi:
            return h.err('(vector-fill! v%d)' % i, 'fill bad')
        if x.const:
            return h.err('(vector-fill! v%d 1)' % i, 'const')
        e = elem(s)
        x.l[:] = [e] * n
        return h.do('(vector-fill! v%d %s)' % (i, q(e)), 'vector-fill!', n > 1)
    if op == 6:
        m = s.size(9)
        e = elem(s)
        h.v[i] = V([e] * m)
        return h.do('(set! v%d (make-vector %d %s))' % (i, m, q(e)), 'make-vector')
    if op == 7:
        return h.fresh(i)
    if op == 8:
        j = s.below(NV)
        h.v[i] = h.v[j]
        return h.do('(set! v%d v%d)' % (i, j), 'alias')
    if op == 9:
        j = s.below(NV)
        h.v[i] = V(h.v[j].l)
        return h.do('(set! v%d (list->vector (vector->list v%d)))' % (i, j), 'vector->list', n > 1)
    if op == 10:
        j = s.below(NV)
        return h.say('(list (eq? v%d v%d) (vector? v%d) (vector? (vector->list v%d)))' % (i, j, i, j),
                     [x is h.v[j], True, False], 'eq?')
    if op == 11:
        o = s.choice(NOVEC)
        return h.err(s.choice(['(vector-ref %s 0)', '(vector-set! %s 0 1)', '(vector-length %s)', '(vector->list %s)', '(vector-fill! %s 0)'])
                     % o, 'not a vector')
    if op == 12:
        return h.err(s.choice(['(make-vector -1)', "(make-vector 'a 1)", '(make-vector 2 3 4)', '(list->vector 5)', "(list->vector '(1 . 2))",
                               "(list->vector '#(1))", '(make-vector)', '(vector-ref v0)', '(make-vector -1 0)', '(vector-length v0 v1)']), 'ill-typed')
    m = s.size(5)
    return h.say('(vector-length (make-vector %d))' % m, m, 'make-vector')


def lib(h):
    s = h.s
    i, j = s.below(NV), s.below(NV)
    x, y = h.v[i], h.v[j]
    n = len(x.l)
    op = s.choice(['map', 'map!', 'for-each', 'fold', 'fold-right', 'count', 'index', 'skip', 'index-right', 'skip-right', 'any', 'every', 'bsearch',
                   'swap!', 'fill!', 'copy!', 'copy!', 'reverse-copy!', 'reverse-copy!', 'reverse!', 'copy', 'reverse-copy', 'append', 'concat',
                   'v->l', 'rv->l', 'l->v', 'rl->v', 'unfold', 'unfold-right', 'vector=', 'empty', 'ill'])
    if op == 'copy!' or op == 'reverse-copy!':
        m = len(y.l)
        es, a, b = h.rng(m)
        name = 'vector-' + op
        if a is None or n == 0 or s.bool(1, 10):
            t = badidx(s, n) if a is not None else str(s.below(max(1, n)))
            return h.err('(%s v%d %s v%d%s)' % (name, i, t, j, ''.join(' ' + e for e in es)), op + ' bad')
        if m == 0:
            return h.err('(%s v%d %d v%d 1)' % (name, i, 0, j), op + ' bad')
        t = s.below(n)
        if x is y and es and s.bool(1, 3):
            t = min(n - 1, max(0, a + s.range(-2, 2)))
        form = '(%s v%d %d v%d%s)' % (name, i, t, j, ''.join(' ' + e for e in es))
        k = b - a
        if any(reach(e, x) for e in y.l[a:b]):
            return
        seg = y.l[a:b]
        if op == 'reverse-copy!':
            seg = seg[::-1]
            if x is y and t != a and k and max(a, t) < min(b, t + k):
                return h.err(form, 'overlap')
        if k and t + k > n or k and x.const:
            h.L.add(form, '!E', op + ' too long', True)
            if not x.const:
                # which part was copied before is not specified
                e = elem(s)
                x.l[:] = [e] * n
                h.do('(vector-fill! v%d %s)' % (i, q(e)), 'reset')
            return
        x.l[t:t + k] = seg
        return h.do(form, op + (' self' if x is y else ''), k > 1)
    if op in ('map', 'map!'):
        ks, vs, m, rows = h.many()
        f = s.below(3)
        if len(ks) == 1:
            src = ['(lambda (i x) (tr i) (list i x))', '(lambda (i x) (tr i) (if (odd? i) i x))', '(lambda (i x) (tr i) (if (eqv? x 1) (quote one) x))'][f]
            fn = [lambda i, x: [i, x], lambda i, x: i if i % 2 else x, lambda i, x: Sy('one') if eqv(x, 1) else x][f]
        else:
            src = ['(lambda l (tr (car l)) l)', '(lambda (i x . r) (tr i) (if (even? i) x (car r)))', '(lambda (i . r) (tr i) (if (eqv? (car r) (cadr r)) i (cadr r)))'][f]
            fn = [lambda i, *r: [i] + list(r), lambda i, *r: r[0] if i % 2 == 0 else r[1], lambda i, *r: i if eqv(r[0], r[1]) else r[1]][f]
        if op == 'map':
            r = [fn(k, *row) for k, row in enumerate(rows)]
            return h.say('(begin (set! lg (quote ())) (let ((r (vector-map %s%s))) (list r (apply + lg) (length lg))))' % (src, vs),
                         [V(r), m * (m - 1) // 2, m], 'map', m > 1)
        if f == 0:
            return
        x = h.v[ks[0]]
        if x.const and m:
            h.L.add('(vector-map! %s%s)' % (src, vs), '!E', 'const', True)
            return
        r = [fn(k, *row) for k, row in enumerate(rows)]
        if any(isinstance(e, V) and e is not x.l[k] for k, e in enumerate(r)):
            return
        x.l[:m] = r
        return h.do('(set! lg (quote ())) (vector-map! %s%s)' % (src, vs), 'map!', m > 1)
    if op == 'for-each':
        ks, vs, m, rows = h.many()
        stop = s.below(12)
        if stop < m:
            return h.say('(logged (call/cc (lambda (k) (vector-for-each (lambda l (tr l) (if (= (car l) %d) (k 7)))%s))))' % (stop, vs),
                         [7, [[k] + row for k, row in enumerate(rows[:stop + 1])]], 'for-each escape', True)
        return h.say('(cadr (logged (vector-for-each (lambda l (tr l))%s)))' % vs, [[k] + row for k, row in enumerate(rows)], 'for-each', m > 1)
    if op in ('fold', 'fold-right'):
        ks, vs, m, rows = h.many()
        r = []
        for k, row in (list(enumerate(rows)) if op == 'fold' else list(enumerate(rows))[::-1]):
            r.insert(0, [k] + row)
        return h.say('(vector-%s (lambda (i a . l) (cons (cons i l) a)) (quote ())%s)' % (op, vs), r, op, m > 1)
    if op == 'count':
        ks, vs, m, rows = h.many()
        k = s.below(3)
        if k == 0:
            return h.say('(vector-count (lambda (i . l) (odd? i))%s)' % vs, m // 2, 'count', m > 1)
        if k == 1 and len(ks) > 1:
            return h.say('(vector-count (lambda (i x y . l) (eqv? x y))%s)' % vs, sum(eqv(r[0], r[1]) for r in rows), 'count', m > 1)
        return h.say('(vector-count (lambda (i x . l) (or (eqv? i x) (symbol? x)))%s)' % vs,
                     sum(eqv(k, r[0]) or isinstance(r[0], Sy) for k, r in enumerate(rows)), 'count', m > 1)
    if op in ('index', 'skip', 'index-right', 'skip-right'):
        ks, vs, m, rows = h.many()
        src, fn = h.pred(len(ks))
        order = range(m) if not op.endswith('right') else range(m - 1, -1, -1)
        r, seen = False, []
        for k in order:
            seen.append(rows[k])
            if bool(fn(*rows[k])) == op.startswith('index'):
                r = k
                break
        return h.say('(logged (vector-%s (lambda l (tr l) (apply %s l))%s))' % (op, src, vs), [r, seen], op, m > 1)
    if op in ('any', 'every'):
        ks, vs, m, rows = h.many()
        src, fn = h.pred(len(ks))
        r, seen = op == 'every', []
        for row in rows:
            seen.append(row)
            r = row if fn(*row) else False
            if (r is not False) == (op == 'any'):
                break
        return h.say('(logged (vector-%s (lambda l (tr l) (and (apply %s l) l))%s))' % (op, src, vs), [r, seen], op, m > 1)
    if op == 'bsearch':
        m = s.size(12)
        l = sorted({s.range(-9, 9) for _ in range(m)}) if s.bool() else sorted(s.below(5) for _ in range(m))
        u = V(l)
        es, a, b = h.rng(len(l))
        val = s.choice(l) if l and s.bool(2, 3) else s.range(-10, 10)
        form = "(vector-binary-search '%s %d -%s)" % (w(u), val, ''.join(' ' + e for e in es))
        if a is None:
            return h.err(form, 'bsearch bad')
        if val in l[a:b]:
            return h.say("(let ((r %s)) (list (<= %d r %d) (vector-ref '%s r)))" % (form, a, b - 1, w(u)), [True, val], 'bsearch', True)
        return h.say(form, False, 'bsearch', len(l) > 1)
    if op == 'swap!':
        if n == 0 or s.bool(1, 5):
            a = str(s.below(max(n, 1)))
            b = badidx(s, n)
            if s.bool():
                a, b = b, a
            return h.err('(vector-swap! v%d %s %s)' % (i, a, b), 'swap! bad')
        a, b = s.below(n), s.below(n)
        if x.const:
            return h.err('(vector-swap! v%d %d %d)' % (i, a, b), 'const')
        x.l[a], x.l[b] = x.l[b], x.l[a]
        return h.do('(vector-swap! v%d %d %d)' % (i, a, b), 'swap!', a != b)
    if op in ('fill!', 'reverse!'):
        e = elem(s)
        es, a, b = h.rng(n)
        form = '(vector-%s v%d%s%s)' % (op, i, ' ' + q(e) if op == 'fill!' else '', ''.join(' ' + t for t in es))
        if a is None:
            return h.err(form, op + ' bad')
        if x.const and (b > a + 1 or not es and op == 'fill!' or b > a and op == 'fill!'):
            return h.err(form, 'const')
        if x.const and b > a:
            return
        x.l[a:b] = [e] * (b - a) if op == 'fill!' else x.l[a:b][::-1]
        return h.do(form, op, b - a > 1)
    if op in ('copy', 'reverse-copy', 'v->l', 'rv->l'):
        es, a, b = h.rng(n)
        name = {'copy': 'vector-copy', 'reverse-copy': 'vector-reverse-copy', 'v->l': 'vector->list', 'rv->l': 'reverse-vector->list'}[op]
        if op == 'copy' and n and s.bool(1, 4):
            a, b = s.below(n), n + s.below(4)
            e = elem(s)
            return h.say('(vector-copy v%d %d %d %s)' % (i, a, b, q(e)), V(x.l[a:] + [e] * (b - n)), 'copy grow', True)
        if op == 'copy' and a is None and len(es) > 1:
            # an end beyond the length enlarges
            return
        form = '(%s v%d%s)' % (name, i, ''.join(' ' + e for e in es))
        if a is None:
            return h.err(form, op + ' bad')
        r = x.l[a:b]
        if op.startswith('r'):
            r = r[::-1]
        if op in ('v->l', 'rv->l'):
            return h.say(form, r, op, len(r) > 1)
        h.v[j] = V(r)
        return h.do('(set! v%d %s)' % (j, form), op, len(r) > 1)
    if op in ('append', 'concat'):
        ks = [s.below(NV) for _ in range(s.below(4))]
        r = sum((h.v[k].l for k in ks), [])
        if len(r) > 40:
            return
        form = ('(vector-append%s)' if op == 'append' else '(vector-concatenate (list%s))') % ''.join(' v%d' % k for k in ks)
        h.v[i] = V(r)
        return h.do('(set! v%d %s)' % (i, form), op, len(ks) > 1)
    if op in ('l->v', 'rl->v'):
        l = [elem(s) for _ in range(s.size(8))]
        m = len(l)
        name = 'list->vector' if op[0] == 'l' else 'reverse-list->vector'
        k = s.below(8)
        if k == 7:
            bad = s.choice([['-1'], [str(m + 1)], ['0', str(m + 1)], ['1', '0'], ["'a"], ['0', "'a"]])
            return h.err("(%s '%s %s)" % (name, w(l), ' '.join(bad)), op + ' bad')
        a, b = 0, m
        es = ''
        if k >= 3:
            a = s.below(m + 1)
            es = ' %d' % a
            if k >= 5:
                b = s.range(a, m)
                es += ' %d' % b
        r = l[a:b]
        h.v[i] = V(r if op[0] == 'l' else r[::-1])
        return h.do("(set! v%d (%s '%s%s))" % (i, name, w(l), es), op, len(r) > 1)
    if op in ('unfold', 'unfold-right'):
        m = s.size(6)
        k = s.below(4)
        order = list(range(m)) if op == 'unfold' else list(range(m - 1, -1, -1))
        if k == 3:
            return h.err(s.choice(['(vector-%s (lambda (i) i) -1)', "(vector-%s (lambda (i) i) 'a)", '(vector-%s 5 2)', '(vector-%s (lambda (i) i) "2")']) % op, op + ' bad')
        sd = [s.below(5) for _ in range(k)]
        names = ''.join(' ' + c for c in 'pqr'[:k])
        form = '(vector-%s (lambda (i%s) (values (list i%s)%s)) %d%s)' % (op, names, names, ''.join(' (+ %d %s)' % (d + 1, c) for d, c in enumerate('pqr'[:k])),
                                                                    m, ''.join(' %d' % d for d in sd))
        r = [None] * m
        for t in order:
            r[t] = [t] + list(sd)
            sd = [v + d + 1 for d, v in enumerate(sd)]
        return h.say(form, V(r), op, m > 1)
    if op == 'vector=':
        ks = [s.below(NV) for _ in range(s.below(4))]
        r = all(a is b or len(a.l) == len(b.l) and all(eqv(p, q_) for p, q_ in zip(a.l, b.l))
                for a, b in zip([h.v[k] for k in ks], [h.v[k] for k in ks[1:]]))
        if s.bool() and ks:
            # a variant that differs in one place, or not at all
            k = s.choice(ks)
            l = list(h.v[k].l)
            if any(isinstance(e, V) for e in l):
                return
            if l and s.bool():
                l[s.below(len(l))] = elem(s)
            elif s.bool():
                l = l[:-1] if s.bool() else l + [0]
            r = len(l) == len(h.v[k].l) and all(eqv(p, q_) for p, q_ in zip(l, h.v[k].l))
            t = (' v%d' % k, " '" + w(V(l)))
            return h.say('(vector= eqv?%s)' % ''.join(t if s.bool() else t[::-1]), r, 'vector=', len(l) > 1)
        return h.say('(vector= eqv?%s)' % ''.join(' v%d' % k for k in ks), r, 'vector=', len(ks) > 1)
    if op == 'empty':
        return h.say('(vector-empty? v%d)' % i, n == 0, 'empty')
    o = s.choice(NOVEC)
    return h.err(s.choice(['(vector-map vector %s)', '(vector-map! vector %s)', '(vector-for-each vector %s)', '(vector-fold vector 0 %s)',
                           '(vector-fold-right vector 0 %s)', '(vector-count vector %s)', '(vector-index vector %s)', '(vector-skip vector %s)',
                           '(vector-any vector %s)', '(vector-every vector %s)', '(vector-binary-search %s 1 -)', '(vector-swap! %s 0 0)',
                           '(vector-reverse! %s)', '(vector-copy %s)', '(vector-copy! %s 0 v0)', '(vector-reverse-copy! v0 0 %s)',
                           '(vector-reverse-copy %s)', '(vector-append v0 %s)', '(vector-concatenate (list v0 %s))', '(vector= eqv? v0 %s)',
                           '(vector-empty? %s)', '(reverse-vector->list %s)', '(vector-map vector v0 %s)', '(vector-fold vector 0 v0 %s)',
                           '(vector-any vector v1 %s)', '(vector-append %s)', '(vector= eqv? %s)', '(vector-concatenate (list %s))']) % o, 'ill-typed')


ME = Sy('me')


def selfref(h):
    """a vector that contains itself: it cannot be printed, but everything that
    does not walk into it works"""
    s = h.s
    n = s.range(1, 6)
    l = [ME if s.bool(1, 3) else s.below(9) for _ in range(n)]
    e = lambda x: 'v' if x is ME else str(x)
    steps = ['(vector-set! v %d v)' % k for k in range(n) if l[k] is ME]
    init = '(vector%s)' % ''.join(' 0' if x is ME else ' %d' % x for x in l)
    for _ in range(s.range(1, 4)):
        op = s.below(8 if h.srfi else 4)
        k = s.below(n)
        x = ME if s.bool() else s.below(9)
        if op <= 1:
            l = [x] * n
            steps.append('(vector-fill! v %s)' % e(x))
        elif op == 2:
            l[k] = x
            steps.append('(vector-set! v %d %s)' % (k, e(x)))
        elif op == 3:
            m = s.below(n)
            l[k] = l[m]
            steps.append('(vector-set! v %d (vector-ref v %d))' % (k, m))
        elif op == 4:
            l.reverse()
            steps.append('(vector-reverse! v)')
        elif op == 5:
            m = s.below(n)
            l[k], l[m] = l[m], l[k]
            steps.append('(vector-swap! v %d %d)' % (k, m))
        elif op == 6:
            m = s.range(0, n - k)
            l[k:k + m] = l[:m]
            steps.append('(vector-copy! v %d v 0 %d)' % (k, m))
        else:
            l[k:] = [x] * (n - k)
            steps.append('(vector-fill! v %s %d)' % (e(x), k))
    get = s.choice(['(vector->list v)', '(vector->list (list->vector (vector->list v)))', '(let lp ((i 0)) (if (= i (vector-length v)) (quote ()) (cons (vector-ref v i) (lp (+ i 1)))))'] +
                   (['(vector->list (vector-copy v))', '(vector->list (vector-append v (vector)))', "(vector->list (vector-map (lambda (i x) x) v))",
                     '(reverse (reverse-vector->list v))', "(vector-fold-right (lambda (i a x) (cons x a)) '() v)"] if h.srfi else []))
    h.say("(let ((v %s)) %s (map (lambda (x) (if (eq? x v) 'me x)) %s))" % (init, ' '.join(steps), get), l, 'self-ref', ME in l)


def gen_basic(s):
    h = H(s, False)
    for _ in range(s.range(1, 20)):
        if s.bool(1, 8):
            selfref(h)
        else:
            basic(h)
    h.show()
    return h.L.case(tags=[h.variant], variant=h.variant)


def gen_lib(s):
    h = H(s, True)
    for _ in range(s.range(1, 14)):
        if s.bool(1, 4):
            basic(h)
        elif s.bool(1, 12):
            selfref(h)
        else:
            lib(h)
    h.show()
    return h.L.case(tags=[h.variant], variant=h.variant)


def check0(c, env):
    return check_lines(c, env, preload=PRE)


def check1(c, env):
    return check_lines(c, env, preload=PRE43)


def gen_large(s):
    """long vectors, a marked element at and around the powers of two"""
    v = s.choice(VARS)
    mx = 20000 if 'san' in v else 140000
    n = min(mx, s.choice([255, 256, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 131072]) + s.below(3))
    L = Lines()
    h = {}
    L.add('(define v (make-vector %d 7))' % n, '=> v', 'make-vector', False)
    base = 7
    pick = lambda: s.choice([0, n - 1, n // 2, s.below(n), min(n - 1, 255), min(n - 1, 256), min(n - 1, 32768), min(n - 1, 65535), min(n - 1, 65536)])
    for _ in range(s.range(2, 8)):
        i, x = pick(), s.range(10, 99)
        k = s.below(6)
        if k == 0:
            base, h = x, {}
            L.add('(begin (vector-fill! v %d) 0)' % x, '=> 0', 'vector-fill!', True)
        elif k == 1:
            L.add('(begin (set! v (list->vector (vector->list v))) (vector-length v))', '=> %d' % n, 'list->vector', True)
        elif k == 2:
            L.add('(begin (set! v (apply vector (vector->list v))) (vector-length v))', '=> %d' % n, 'vector', True)
        elif k == 3:
            L.add('(let ((w (make-vector %d %d))) (equal? v w))' % (n, base), '=> #%s' % ('f' if any(y != base for y in h.values()) else 't'), 'equal?', True)
        else:
            h[i] = x
            L.add('(begin (vector-set! v %d %d) 0)' % (i, x), '=> 0', 'vector-set!', True)
        j = pick()
        L.add('(list (vector-ref v %d) (vector-length v))' % j, '=> (%d %d)' % (h.get(j, base), n), 'vector-ref', True)
    L.add('(do ((i 0 (+ i 1)) (r 0 (+ r (vector-ref v i)))) ((= i %d) r))' % n, '=> %d' % (base * n + sum(y - base for y in h.values())), 'sum', True)
    L.add('(let lp ((l (vector->list v)) (k 0) (r 0)) (if (null? l) (list k r) (lp (cdr l) (+ k 1) (+ r (car l)))))',
          '=> (%d %d)' % (n, base * n + sum(y - base for y in h.values())), 'sum', True)
    return L.case(tags=[v], variant=v)


def check_large(c, env):
    return check_lines(c, env, stack_mb=200)


PARTS = [Part('large', gen_large, check_large, 150, 5000, variants=VARS), Part('srfi43', gen_lib, check1, 14000, 300000, variants=VARS), Part('r5rs', gen_basic, check0, 8000, 150000, variants=VARS)]
