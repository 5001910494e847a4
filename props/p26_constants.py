"""Constants cannot be modified, and copies do not share."""
from vlib.engine import Part
from vlib.lines import Lines, check_lines

ID = 'P26'
RULE = 'an attempt to modify a constant, and a successful modification of an object made from another one'
ASSUMPTIONS = ['list constants are protected in the fatty storage only', 'whether the constant parts of a quasiquotation are protected is not specified']
VARS = ['compact-san', 'fatty-san', 'compact-gcs', 'fatty-gcs', 'compact-opt', 'fatty-opt']
PRE = "(use srfi-1) (use srfi-38) (use srfi-43) (use srfi-6) (use srfi-28)\n(define op (open-output-string))\n"
CH = ['a', 'b', 'Z', '0', 'é', 'あ', '漢', '😀']
CHX = ['x', 'y', 'ß', 'い', '😁']


class O:
    """an object: kind s, v or l; val a list; ro; ref the expression that denotes it"""
    def __init__(self, kind, val, ro, ref):
        self.kind, self.val, self.ro, self.ref = kind, val, ro, ref


def wr(k, val):
    if k == 's':
        return '"%s"' % ''.join(val)
    return ('#(' if k == 'v' else '(') + ' '.join(str(x) for x in val) + ')'


def gen(s):
    variant = s.choice(VARS)
    fatty = variant.startswith('fatty')
    L = Lines()
    objs = []
    n = [0]
    tried = [0, 0]
    syms = []

    def new(kind, expr, val, ro):
        n[0] += 1
        v = 'o%d' % n[0]
        L.add('(define %s %s)' % (v, expr), '=> ' + v)
        o = O(kind, list(val), ro, v)
        objs.append(o)
        return o

    def lit():
        k = s.choice(['s', 'v', 'l'] if fatty else ['s', 'v'])
        val = [s.choice(CH) for _ in range(s.range(0, 5))] if k == 's' else [s.range(0, 9) for _ in range(s.range(1 if k == 'l' else 0, 5))]
        t = wr(k, val)
        n[0] += 1
        v = 'c%d' % n[0]
        how = s.below(7)
        q = '' if k == 's' else "'"
        if how == 0:
            L.add('(define %s %s%s)' % (v, q, t), '=> ' + v)
            ref = v
        elif how == 1:
            L.add('(define (%s) %s%s)' % (v, q, t), '=> (%s)' % v)
            ref = '(%s)' % v
        elif how == 2:
            L.add("(define %s '(1 %s (z)))" % (v, t), '=> ' + v)
            ref = '(cadr %s)' % v
        elif how == 3:
            L.add("(define %s '#(1 %s (z)))" % (v, t), '=> ' + v)
            ref = '(vector-ref %s 1)' % v
        elif how == 4:
            L.add("(define %s (let ((x %s%s)) (lambda () x)))" % (v, q, t), '=> ' + v)
            ref = '(%s)' % v
        elif how == 5:
            L.add('(define %s (read (open-input-string "%s")))' % (v, t.replace('\\', '\\\\').replace('"', '\\"')), '=> ' + v)
            ref = v
        else:
            if k != 's':
                L.add('(define %s (car (list %s%s)))' % (v, q, t), '=> ' + v)
            else:
                val = [c for c in val if c not in 'Z'] or ['q']
                if val[0].isdigit():
                    val = ['q'] + val
                L.add("(define %s (symbol->string '%s))" % (v, ''.join(val)), '=> ' + v)
            ref = v
        objs.append(O(k, val, True, ref))

    def derive(o):
        k, r, v = o.kind, o.ref, o.val
        if k == 's':
            a = s.range(0, len(v))
            b = s.range(a, len(v))
            w = s.choice([x for x in objs if x.kind == 's'])
            e, x = s.choice([('(string-copy %s)' % r, v), ('(substring %s %d %d)' % (r, a, b), v[a:b]), ('(string-append %s)' % r, v), ('(string-append %s "")' % r, v), ('(string-append %s %s)' % (r, w.ref), v + w.val),
                             ('(list->string (string->list %s))' % r, v), ('(apply string (string->list %s))' % r, v), ('(format "~a" %s)' % r, v), ('(substring %s 0 %d)' % (r, len(v)), v),
                             ('(let ((p (open-output-string))) (display %s p) (get-output-string p))' % r, v), ('(make-string %d #\\%s)' % (len(v), 'b'), ['b'] * len(v))])
            new('s', e, x, False)
        elif k == 'v':
            e, x = s.choice([('(vector-copy %s)' % r, v), ('(list->vector (vector->list %s))' % r, v), ('(vector-append %s)' % r, v), ('(vector-append %s \'#(1))' % r, v + [1]), ('(vector-map (lambda (i x) x) %s)' % r, v),
                             ('(apply vector (vector->list %s))' % r, v), ('(vector-reverse-copy %s)' % r, v[::-1]), ('(make-vector %d 7)' % len(v), [7] * len(v))])
            new('v', e, x, False)
        else:
            e, x = s.choice([('(list-copy %s)' % r, v), ('(map (lambda (x) x) %s)' % r, v), ('(reverse %s)' % r, v[::-1]), ("(append %s '())" % r, v), ('(vector->list (list->vector %s))' % r, v), ('(apply list %s)' % r, v),
                             ('((lambda x x) %s)' % ' '.join(str(i) for i in v), v)])
            if v:
                new('l', e, x, False)

    def mutate(o):
        k, r, v = o.kind, o.ref, o.val
        m = len(v)
        res = None
        if k == 's':
            c = s.choice(CHX)
            if m and s.bool(3, 4):
                i = s.below(m)
                e, res = '(string-set! %s %d #\\%s)' % (r, i, c), v[:i] + [c] + v[i + 1:]
            else:
                e, res = '(string-fill! %s #\\%s)' % (r, c), [c] * m
        elif k == 'v':
            i = s.below(m) if m else 0
            j = (i + 1) % m if m else 0
            q = s.range(10, 99)
            opts = [('(vector-fill! %s %d)' % (r, q), [q] * m)]
            if m:
                opts += [('(vector-set! %s %d %d)' % (r, i, q), v[:i] + [q] + v[i + 1:])] * 3
                opts += [("(vector-copy! %s %d '#(%d))" % (r, i, q), v[:i] + [q] + v[i + 1:]), ('(vector-map! (lambda (i x) (+ x 1)) %s)' % r, [x + 1 for x in v])]
                opts += [('(vector-fill! %s %d %d %d)' % (r, q, i, i + 1), v[:i] + [q] + v[i + 1:])]
            if m > 1:
                w = list(v)
                w[i], w[j] = w[j], w[i]
                opts += [('(vector-swap! %s %d %d)' % (r, i, j), w), ('(vector-reverse! %s)' % r, v[::-1])]
            e, res = s.choice(opts)
        else:
            i = s.below(m)
            q = s.range(10, 99)
            opts = [('(set-car! (list-tail %s %d) %d)' % (r, i, q), v[:i] + [q] + v[i + 1:])] * 2
            opts += [('(set-cdr! (list-tail %s %d) (list %d))' % (r, i, q), v[:i + 1] + [q]), ('(append! %s (list %d))' % (r, q), v + [q])]
            if m > 1 and o.ro:
                opts += [('(reverse! %s)' % r, None)]
            e, res = s.choice(opts)
        if o.ro:
            L.add('(begin %s 0)' % e, '!E', tag='constant')
            tried[0] += 1
        else:
            L.add('(begin %s 0)' % e, '=> 0', tag='mutable')
            o.val = res
            tried[1] += 1

    lit()
    for _ in range(s.range(2, 25)):
        k = s.below(10)
        if k <= 1:
            lit()
        elif k <= 3:
            derive(s.choice(objs))
        elif k <= 7:
            mutate(s.choice(objs))
        elif k == 8:
            o = s.choice(objs)
            if o.kind == 's' and len(o.val):
                # a symbol keeps its name when the string changes
                n[0] += 1
                L.add('(define y%d (string->symbol %s))' % (n[0], o.ref), '=> y%d' % n[0], tag='symbol')
                syms.append((n[0], list(o.val)))
            elif o.kind == 's':
                L.add('(begin (write %s op) 0)' % o.ref, '=> 0')
        else:
            o = s.choice(objs)
            L.add(o.ref, '=> ' + wr(o.kind, o.val))
            if o.kind == 's':
                L.add('(%%%%string-mutable? %s)' % o.ref, '=> #' + 'tf'[o.ro])
            elif o.kind == 'v':
                L.add('(%%%%vector-mutable? %s)' % o.ref, '=> #' + 'tf'[o.ro])
    for o in objs:
        L.add(o.ref, '=> ' + wr(o.kind, o.val))
    for i, v in syms:
        L.add('(string=? (symbol->string y%d) "%s")' % (i, ''.join(v)), '=> #t')
        L.add('(eq? y%d (string->symbol "%s"))' % (i, ''.join(v)), '=> #t')
    return L.case(variant=variant, nontrivial=tried[0] > 0 and tried[1] > 0, gc=s.choice([1, 3, 10, 50]))


def check(c, env):
    return check_lines(c, env, mode='g%d' % c.gc if c.variant.endswith('gcs') else '-', preload=PRE)


PARTS = [Part('history', gen, check, 4500, 200000, variants=VARS, batch=20)]
