"""SRFI-9 records against a model."""
from vlib.engine import Part
from vlib.lines import Lines, check_lines

ID = 'P24'
RULE = 'at least two record types and a field read after a modification, or an operation on a record of another type'
ASSUMPTIONS = ['the value of a field that the constructor does not initialise is not specified']
VARS = ['compact-san', 'fatty-san', 'compact-opt', 'hygienic-opt']
PRE = "(use srfi-9)\n(define real (vector 1 2)) (define fake (vector (list 'record-marker) 1 2)) (define mp (map (lambda (x) x) '(1)))\n"
TAGS = ['x', 'y', 'z', 'name', 'type', 'kar', 'set', 'field-tags', 'size']
VALS = ['0', '1', '-5', '"s"', '#\\a', 'sym', '()', '(1 2)', '#(1 x)', '#t', '#f', '(record-marker)']


class Type:
    pass


def gen(s):
    L = Lines()
    types, recs = [], []        # recs: (variable, type, fields)
    n = [0]
    multi = False

    def deftype(L):
        t = Type()
        n[0] += 1
        k = n[0]
        same = [x for x in types if x.live] if s.bool(1, 5) else []
        t.tags = s.shuffle(TAGS)[:s.range(0, 5)] if s.bool(14, 15) else s.shuffle(['f%d' % i for i in range(s.choice([9, 16, 17, 33, 70]))])
        t.ctor_tags = [x for x in t.tags if s.bool(3, 4)]
        if s.bool():
            t.ctor_tags = t.ctor_tags[::-1]
        t.ctor, t.pred, t.name = 'mk%d' % k, 'is%d?' % k, 'type%d' % k
        if same:
            o = s.choice(same)
            # keep the old procedures under other names
            for a in ['ctor', 'pred']:
                L.add('(define old%d-%s %s)' % (k, a, getattr(o, a)), '=> old%d-%s' % (k, a))
            for x in o.tags:
                L.add('(define old%d-%s %s)' % (k, x, o.acc[x]), '=> old%d-%s' % (k, x))
                o.acc[x] = 'old%d-%s' % (k, x)
            t.name, t.ctor, t.pred = o.name, o.ctor, o.pred
            o.ctor, o.pred = 'old%d-ctor' % k, 'old%d-pred' % k
            o.live = False
        t.acc = {x: 'get%d-%s' % (k, x) for x in t.tags}
        t.mod = {x: 'set%d-%s!' % (k, x) for x in t.tags if s.bool(2, 3)}
        t.live = True
        fields = ' '.join('(%s %s%s)' % (x, t.acc[x], ' ' + t.mod[x] if x in t.mod else '') for x in t.tags)
        L.add('(define-record-type %s (%s%s) %s %s)' % (t.name, t.ctor, ''.join(' ' + x for x in t.ctor_tags), t.pred, fields), '=> #<undef>', tag='define')
        types.append(t)

    def value():
        if recs and s.bool(1, 4):
            r = s.choice(recs)
            return r[0], ('rec', r[0])
        v = s.choice(VALS)
        return "'" + v, v

    def show(v, expr):
        if v is None:
            return '(begin %s 0)' % expr, '=> 0'
        if isinstance(v, tuple):
            return '(eq? %s %s)' % (expr, v[1]), '=> #t'
        return expr, '=> ' + v

    deftype(L)
    while len(L.t) < 4 + s.range(0, 50):
        k = s.below(14)
        t = s.choice(types)
        if k == 0 and len(types) < 5:
            deftype(L)
            multi = True
        elif k <= 3 or not recs:
            vs = [value() for _ in t.ctor_tags]
            v = 'r%d' % len(recs)
            how = s.below(3)
            e = '(%s%s)' % (t.ctor, ''.join(' ' + x for x, _ in vs)) if how else '(apply %s (list%s))' % (t.ctor, ''.join(' ' + x for x, _ in vs))
            L.add('(define %s %s)' % (v, e), '=> ' + v, tag='construct')
            f = {x: None for x in t.tags}
            f.update(zip(t.ctor_tags, [x for _, x in vs]))
            recs.append((v, t, f))
        elif k == 4:
            nargs = s.choice([x for x in range(0, len(t.ctor_tags) + 3) if x != len(t.ctor_tags)])
            L.add('(%s%s)' % (t.ctor, ' 1' * nargs), '!E', tag='constructor-arity')
        elif k <= 6:
            v, rt, f = s.choice(recs)
            L.add('(%s %s)' % (t.pred, v), '=> #t' if rt is t else '=> #f', tag='predicate', nt=multi)
        elif k == 7:
            L.add("(list (%s 1) (%s '()) (%s real) (%s fake) (%s (vector)) (%s car) (%s \"a\"))" % ((t.pred,) * 7), '=> (#f #f #f #f #f #f #f)', tag='predicate')
            L.add('(list (vector? real) (vector? fake) (vector? (vector)) (vector? 1) (vector? %s) (record? real) (record? fake) (record? (vector)) (record? %s))' % (recs[-1][0], recs[-1][0]),
                  '=> (#t #t #t #f #f #f #f #f #t)', tag='disjoint')
        elif k <= 10:
            v, rt, f = s.choice(recs)
            rt = rt if s.bool(4, 5) else t
            if rt.tags:
                x = s.choice(rt.tags)
                own = [r for r in recs if r[0] == v][0]
                if own[1] is rt:
                    e, w = show(f[x], '(%s %s)' % (rt.acc[x], v) if s.bool(4, 5) else '(car (map %s (list %s)))' % (rt.acc[x], v))
                    L.add(e, w, tag='access')
                else:
                    L.add('(%s %s)' % (rt.acc[x], v), '!E', tag='wrong-type', nt=True)
        elif k <= 12:
            v, rt, f = s.choice(recs)
            mt = rt if s.bool(4, 5) else t
            if mt.mod:
                x = s.choice(sorted(mt.mod))
                e, w = value()
                if mt is rt:
                    L.add('(begin (%s %s %s) 0)' % (mt.mod[x], v, e), '=> 0', tag='modify')
                    f[x] = w
                    e, w = show(w, '(%s %s)' % (mt.acc[x], v))
                    L.add(e, w, nt=multi)
                else:
                    L.add('(%s %s %s)' % (mt.mod[x], v, e), '!E', tag='wrong-type', nt=True)
        else:
            j = s.below(6)
            a = s.choice(['1', 'real', 'fake', "'()", 'car', '"s"', '(vector)'])
            if j == 0 and t.tags:
                L.add('(%s %s)' % (t.acc[s.choice(t.tags)], a), '!E', tag='no-record')
            elif j == 1 and t.mod:
                L.add('(%s %s 1)' % (t.mod[s.choice(sorted(t.mod))], a), '!E', tag='no-record')
            elif j == 2:
                L.add('(define-record-type %s (%s nofield) %s)' % (t.name, t.ctor, t.pred), '!E', tag='no-such-field')     # and changes nothing
            elif j == 3:
                L.add(s.choice(['(if #t (define-record-type foo (mkfoo) foo?))', '(let () (define-record-type foo (mkfoo) foo?) 1)', '((lambda () (define-record-type foo (mkfoo) foo?)))',
                                '(define-record-type "foo" (mkfoo) foo?)', '(define-record-type foo mkfoo foo?)', '(define-record-type foo (1) foo?)', '(define-record-type foo (mkfoo) "foo?")',
                                '(define-record-type foo (mkfoo) foo? (x))', '(define-record-type foo (mkfoo) foo? (x 1))', '(define-record-type foo (mkfoo) foo? x)', '(define-record-type foo (mkfoo x) foo? (x a b c))',
                                '(define-record-type foo (mkfoo . x) foo? (x a))', '(define-record-type foo)', '(define-record-type foo (mkfoo))']), '!E', tag='malformed')
            elif j == 4:
                L.add('(define %s (lambda x 5))' % s.choice(['make-record-type', 'record-constructor', 'record-accessor', 'record-modifier', 'record-predicate', 'vector?']), None or 'X', tag='redefine')
                L.e[-1] = b'=> ' + L.t[-1].split()[1]
                if b'vector?' in L.t[-1]:
                    L.t[-1] = b'(define mp 1)'
                    L.e[-1] = b'=> mp'
            else:
                r, q = s.choice(recs)[0], s.choice(recs)[0]
                L.add('(list (eq? %s %s) (eqv? %s %s) (if (memq %s (list %s)) #t #f))' % (r, q, r, q, r, q), '=> (%s %s %s)' % ((('#t' if r == q else '#f'),) * 3), tag='identity')
    # at the end everything is as the model says
    for v, t, f in recs:
        for x in t.tags:
            L.add(*show(f[x], '(%s %s)' % (t.acc[x], v)))
    return L.case(variant=s.choice(VARS), tags=['types:%d' % len(types)])


def check(c, env):
    return check_lines(c, env, preload=PRE)


PARTS = [Part('history', gen, check, 12000, 300000, variants=VARS, batch=20)]
