"""SRFI-95 against Python's stable sort, with tagged elements."""
from vlib.engine import Part
from vlib.lines import Lines, check_lines

ID = 'P13'
RULE = 'a list of three or more elements is sorted or merged under an order that has ties or is not the natural one'
ASSUMPTIONS = ['an array is what the procedures array?, array-dimensions, array-ref, array-set! and make-array say that the program defined before it loaded the library; merge may share the rest of its longer argument']
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']
PRE = '(require-extension (srfi 95))\n(define n 0)\n(define (cnt f) (lambda (x) (set! n (+ n 1)) (f x)))\n'

# (Scheme less?, sort key in Python) on elements (k . tag); with a key the order is on k itself
ORD = [('(lambda (a b) (< (car a) (car b)))', lambda e: e[0]), ('(lambda (a b) (> (car a) (car b)))', lambda e: -e[0]),
       ('(lambda (a b) (< (modulo (car a) 3) (modulo (car b) 3)))', lambda e: e[0] % 3), ('(lambda (a b) #f)', lambda e: 0),
       ('(lambda (a b) (< (abs (car a)) (abs (car b))))', lambda e: abs(e[0]))]
KEYED = [('<', 'car', lambda e: e[0]), ('>', 'car', lambda e: -e[0]), ('<', '(lambda (e) (modulo (car e) 4))', lambda e: e[0] % 4),
         ('char<?', '(lambda (e) (integer->char (+ 97 (modulo (car e) 5))))', lambda e: e[0] % 5),
         ('string<?', '(lambda (e) (number->string (modulo (car e) 30)))', lambda e: str(e[0] % 30)),
         ('(lambda (a b) (and (not a) b))', '(lambda (e) (odd? (car e)))', lambda e: e[0] % 2),
         ('>', '(lambda (e) (quotient (car e) 2))', lambda e: -int(e[0] / 2))]


def w(l):
    return '(%s)' % ' '.join('(%d . %d)' % e for e in l)


def mk(l):
    return '(list%s)' % ''.join(' (cons %d %d)' % e for e in l)


def g_list(s, t0=0, order=None):
    n = s.size(s.choice([6, 12, 40]))
    hi = s.choice([1, 2, 3, 8, 100])
    k = s.below(5)
    v = [s.range(-hi, hi) if s.bool() else s.below(hi + 1) for _ in range(n)]
    if k == 1:
        v.sort()
    elif k == 2:
        v.sort(reverse=True)
    l = [(x, t0 + i) for i, x in enumerate(v)]
    if order:
        l.sort(key=order)
        l = [(e[0], t0 + i) for i, e in enumerate(l)]
    return l


def gen(s):
    v = s.weighted([(5, VARS[0]), (2, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    L = Lines()
    for _ in range(s.range(1, 5)):
        if s.bool():
            less, f = s.choice(ORD)
            key, args = None, ' ' + less
        else:
            less, key, f = s.choice(KEYED)
            args = ' %s (cnt %s)' % (less, key)
        op = s.below(12)
        ties = lambda l: len(l) > 2 and (len({f(e) for e in l}) < len(l) or True)
        if op <= 2:
            l = g_list(s)
            L.add('(let* ((l %s) (c (append l (quote ()))) (r (sort l%s)) (k (append r (quote ())))) (set! n (if (<= n %d) 0 n)) (list (equal? l c) (begin (for-each (lambda (x) (set! r (begin (set-car! r 0) (cdr r)))) k) (equal? l c)) k n))' % (mk(l), args, len(l)),
                  '=> (#t #t %s 0)' % w(sorted(l, key=f)), 'sort', ties(l))
        elif op <= 5:
            l = g_list(s)
            L.add('(let* ((l %s) (r (sort! l%s))) (set! n (if (<= n %d) 0 n)) (list r (eq? r l) l n))' % (mk(l), args, len(l)),
                  '=> (%s #t %s 0)' % ((w(sorted(l, key=f)),) * 2), 'sort!', ties(l))
        elif op <= 8:
            a, b = g_list(s, 0, f), g_list(s, 1000, f)
            r = sorted(a + b, key=f)
            if op == 8:
                L.add('(let* ((a %s) (b %s) (r (merge! a b%s))) (set! n (if (<= n %d) 0 n)) (list r n))' % (mk(a), mk(b), args, len(a) + len(b)),
                      '=> (%s 0)' % w(r), 'merge!', ties(r) and bool(a and b))
            else:
                L.add('(let* ((a %s) (b %s) (a1 (append a (quote ()))) (b1 (append b (quote ()))) (r (merge a b%s))) (set! n (if (<= n %d) 0 n)) '
                      '(list r (equal? a a1) (equal? b b1) n))' % (mk(a), mk(b), args, len(a) + len(b)), '=> (%s #t #t 0)' % w(r), 'merge', ties(r) and bool(a and b))
        elif op <= 10:
            l = g_list(s, 0, f if s.bool() else None)
            if l and s.bool(1, 3):
                i = s.below(len(l))
                l[i] = (s.range(-5, 5), l[i][1])
            ok = all(not f(y) < f(x) for x, y in zip(l, l[1:]))
            L.add('(let* ((r (sorted? %s%s))) (set! n (if (<= n %d) 0 n)) (list r n))' % (mk(l), args, len(l)),
                  '=> (%s 0)' % ('#t' if ok else '#f'), 'sorted? ' + str(ok), ties(l))
        else:
            k = s.below(3)
            if k == 0:
                L.add(s.choice(['(sort 5 <)', "(sort '(1 . 2) <)", "(sort '(1 a 2) <)", "(sort! 5 <)", "(sort (list 1 2 'b) < (lambda (x) x))", "(sort '(2 1) 5)",
                                "(merge '(1) 5 <)", "(sorted? '(1 a) <)", "(sort '(3 1 2))", "(merge! '(1) '(a) <)", "(sort '#(3 1 2) <)", "(sort! (vector 2 1) <)"]),
                      '!E', 'ill-typed', True)
            else:
                # leaving the comparison leaves the list as it was
                l = g_list(s)
                m = s.range(1, 12)
                if m >= len(l) - 1 or len(l) < 3:
                    continue
                L.add('(let* ((l %s) (c (append l (quote ()))) (n 0)) (list (call/cc (lambda (k) (sort l (lambda (a b) (set! n (+ n 1)) (if (= n %d) (k 7) (< (car a) (car b))))))) '
                      '(equal? l c)))' % (mk(l), min(m, len(l) // 2)), '=> (7 #t)', 'escape', True)
    L.add('n', '=> 0')
    return L.case(tags=[v], variant=v)


def check(c, env):
    return check_lines(c, env, preload=PRE)


# ---------------------------------------------------------------- arrays of the program's own
# the library is loaded after the program has defined the names that it looks for
APRE = r'''
(define n 0)
(define (cnt f) (lambda (x) (set! n (+ n 1)) (f x)))
(define tag (list 'array))
(define (array? x) (and (vector? x) (= (vector-length x) 2) (eq? (vector-ref x 0) tag)))
(define (array-dimensions a) (list (vector-length (vector-ref a 1))))
(define (array-ref a i) (vector-ref (vector-ref a 1) i))
(define (array-set! a x i) (vector-set! (vector-ref a 1) i x))
(define (make-array proto . dims) (vector tag (make-vector (car dims) 'none)))
(define (ar . l) (vector tag (list->vector l)))
(define (ls a) (vector->list (vector-ref a 1)))
'''
IDENTITY = '(define (identity x) x)\n'
LOAD = [('(require-extension (srfi 95))', '=> #<undef>'), ('(require-extension (srfi-95))', '=> #<undef>')]


def gen_arrays(s):
    v = s.weighted([(5, VARS[0]), (2, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    L = Lines()
    with_array, with_id = s.bool(4, 5), s.bool()
    pre = (APRE if with_array else '(define n 0)\n(define (cnt f) (lambda (x) (set! n (+ n 1)) (f x)))\n') + (IDENTITY if with_id else '')
    L.add(*s.choice(LOAD))
    for _ in range(s.range(1, 5)):
        if s.bool():
            less, f = s.choice(ORD)
            args = ' ' + less
        else:
            less, key, f = s.choice(KEYED)
            args = ' %s (cnt %s)' % (less, key)
        arr = with_array and s.bool(4, 5)
        m = lambda l: '(ar' + mk(l)[5:] if arr else mk(l)
        ls = '(ls %s)' if arr else '%s'
        op = s.below(3)
        k = s.below(3)
        l = g_list(s, 0, f if k else None)
        if k == 2 and l:
            i = s.below(len(l))
            l[i] = (s.range(-5, 5), l[i][1])
        if s.bool(1, 3):
            l = l[:s.range(0, 3)]
        nt = arr and len(l) >= 2
        if op == 0:
            ok = all(not f(y) < f(x) for x, y in zip(l, l[1:]))
            L.add('(let* ((r (sorted? %s%s))) (set! n (if (<= n %d) 0 n)) (list r n))' % (m(l), args, len(l)),
                  '=> (%s 0)' % ('#t' if ok else '#f'), 'array sorted? %s' % ok if arr else 'list', nt)
        elif op == 1:
            L.add('(let* ((l %s) (r (sort! l%s))) (set! n (if (<= n %d) 0 n)) (list %s (eq? r l) n))' % (m(l), args, len(l), ls % 'r'),
                  '=> (%s #t 0)' % w(sorted(l, key=f)), 'array sort!' if arr else 'list', nt)
        else:
            L.add('(let* ((l %s) (r (sort l%s))) (set! n (if (<= n %d) 0 n)) (list %s %s n))' % (m(l), args, len(l), ls % 'r', ls % 'l'),
                  '=> (%s %s 0)' % (w(sorted(l, key=f)), w(l)), 'array sort' if arr else 'list', nt)
    L.add('n', '=> 0')
    return L.case(tags=[v, 'own array' if with_array else 'no array', 'own identity' if with_id else 'no identity'], variant=v, pre=pre)


def check_arrays(c, env):
    return check_lines(c, env, preload=c.pre)


PARTS = [Part('sort', gen, check, 14000, 300000, variants=VARS),
         Part('arrays', gen_arrays, check_arrays, 3000, 60000, variants=VARS)]
