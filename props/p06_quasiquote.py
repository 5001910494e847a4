"""Quasiquote templates against the reference expander, evaluated repeatedly."""
from vlib.engine import Part
from vlib.lines import Lines, check_lines
from vlib.ctlcheck import make, check, VARS

ID = 'P06'
RULE = 'the template contains at least one unquote or unquote-splicing that is evaluated'
ASSUMPTIONS = ['vlib/ref.py is the reference expander',
               'templates where quasiquote, unquote or unquote-splicing appear as plain symbols are not generated (R5RS: unpredictable)']


class Q:
    def __init__(self, s):
        self.s, self.n, self.live, self.kinds = s, 0, 0, set()

    def atom(self):
        return self.s.choice(['1', 'a', 'b', '#t', '()', '"s"', '#\\c', 'x', '-7', '#()', 'else'])

    def value(self):
        """expression with a traced value"""
        s = self.s
        self.n += 1
        self.live += 1
        k = s.below(9)
        if k <= 2:
            e = s.choice(['n', 'v', 'l', "'()", '5', "'sym"])
        elif k == 3:
            e = '(+ n %d)' % s.below(5)
        elif k == 4:
            e = '(list %s)' % ' '.join(str(s.below(5)) for _ in range(s.below(4)))
        elif k == 5:
            self.kinds.add('nested-template')
            e = self.quasi(self.t(1, 2))
        elif k == 6:
            e = '(let ((y n)) (set! n (+ n 1)) y)'
        elif k == 7:
            e = "(vector n 'w)"
        else:
            e = '(car l)'
        return '(tr %d %s)' % (self.n, e)

    def lvalue(self):
        s = self.s
        self.n += 1
        self.live += 1
        k = s.below(12)
        if k <= 2:
            e = 'l'
        elif k <= 4:
            e = "'()"
        elif k <= 6:
            e = "'(%s)" % ' '.join(s.choice(['p', '(q r)', '3', '#t']) for _ in range(s.range(1, 4)))
        elif k == 7:
            e = '(map (lambda (z) (+ z n)) l)'
        elif k == 8:
            self.kinds.add('nested-template')
            e = self.quasi('(%s %s)' % (self.t(1, 2), self.t(1, 1)))
        elif k == 9:
            e = '(list (tr %d n))' % (self.n + 100)
        elif k == 10:
            e = '(append l l)'
        else:
            self.kinds.add('bad-splice')
            e = s.choice(['n', "'(1 . 2)", '"str"', "(cons 1 n)"])
        return '(tr %d %s)' % (self.n, e)

    def form(self, short, long, x):
        return '(%s %s)' % (long, x) if self.s.bool(1, 5) else short + x

    def quasi(self, x):
        return self.form('`', 'quasiquote', x)

    def t(self, level, d):
        """template at the given level"""
        s = self.s
        if d <= 0:
            if level == 1 and s.bool(1, 3):
                self.kinds.add('unquote')
                return self.form(',', 'unquote', self.value())
            return self.atom()
        k = s.below(12)
        if k <= 4:
            return self.seq(level, d)
        if k <= 6:
            self.kinds.add('vector')
            return '#(%s)' % self.elems(level, d, s.size(5))
        if k == 7 and level < 4:
            self.kinds.add('level+')
            return self.quasi(self.t(level + 1, d - 1))
        if k == 8:
            return self.atom()
        if k == 9:
            return "'" + self.t(level, d - 1)
        if level == 1:
            self.kinds.add('unquote')
            return self.form(',', 'unquote', self.value())
        self.kinds.add('level-')
        return self.form(',', 'unquote', self.t(level - 1, d - 1))

    def elem(self, level, d):
        s = self.s
        if s.bool(1, 4):
            if level == 1:
                self.kinds.add('splice')
                return self.form(',@', 'unquote-splicing', self.lvalue())
            self.kinds.add('inner-splice')
            return self.form(',@', 'unquote-splicing', self.t(level - 1, d - 1))
        return self.t(level, d - 1)

    def elems(self, level, d, n):
        return ' '.join(self.elem(level, d) for _ in range(n))

    def seq(self, level, d):
        s = self.s
        n = s.size(5)
        if n == 0:
            return '()'
        body = self.elems(level, d, n)
        if s.bool(1, 4):
            self.kinds.add('dotted')
            body += ' . ' + self.t(level, d - 1)
        return '(%s)' % body


    def deep(self):
        """inside out: an evaluated part below several levels"""
        s = self.s
        self.kinds.add('deep')
        if s.bool(1, 3):
            t = self.form(',@', 'unquote-splicing', self.lvalue())
            t = s.choice(['(%s)', '(1 %s 2)', '#(%s b)', '(%s . c)', '#(a %s)']) % t
        else:
            t = self.form(',', 'unquote', self.value())
        level, ops = 1, s.range(2, 12)
        while ops or level != 1:
            k = s.below(9)
            if not ops or (k == 0 and level > 1):
                if level > 1:
                    t = self.quasi(t)
                    level -= 1
            elif k <= 2 and level < 6:
                # a comma: what is inside is one level lower
                if s.bool(1, 4):
                    t = '(%s)' % self.form(',@', 'unquote-splicing', t)
                else:
                    t = self.form(',', 'unquote', t)
                level += 1
            else:
                t = s.choice(['(%s)', '(a %s b)', '#(%s)', '#(1 %s 2)', '(x . %s)', '(x y %s . z)', "'%s", '#(#(%s))',
                              '(x #(y) . %s)', '(%s ' + self.t(level, 1).replace('%', '') + ')']) % t
            ops = max(0, ops - 1)
        return t


def gen(s):
    q = Q(s)
    tpl = q.quasi(q.deep() if s.bool(1, 4) else q.t(1, s.range(1, 5)))
    n = s.range(1, 3)
    text = ['(define (tr n v) (display "<") (display n) (display ">") v)',
            '(define (f n v l) %s)' % tpl]
    for i in range(n):
        text.append('(f %d %s %s)' % (s.below(9), s.choice(["'a", "'(1 2)", '"v"', "'#(1)"]),
                                      s.choice(["'(1 2 3)", "'(7)", "(list 4 5)", "'(1 2)"])))
    if s.bool(1, 3):
        text.append("(let ((n 1) (v 'z) (l '(8 9))) (equal? %s %s))" % (tpl, tpl))
    return make(s, '\n'.join(text), q.live > 0, q.kinds)


# ---- long templates with few substitutions
def gen_large(s):
    v = s.choice(VARS)
    mx = 5000 if 'san' in v else 70000
    n = min(mx, s.choice([120, 127, 128, 129, 255, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536]) + s.below(3))
    vec = s.bool(2, 3)
    at = sorted({min(n - 1, s.choice([0, n - 1, n - 2, s.below(n), 126, 127, 128, 255, 256, 32767, 32768])) for _ in range(s.range(1, 6))})
    el, want = ['7'] * n, [[7]] * n
    for i in at:
        k = s.below(4)
        x = s.range(10, 90)
        if k == 0:
            el[i], want[i] = ',%d' % x, [x]
        elif k == 1:
            el[i], want[i] = ',(+ 1 %d)' % x, [x + 1]
        else:
            m = s.choice([0, 0, 1, 2, 3, 130])
            el[i], want[i] = ',@(long %d %d)' % (m, x), [x] * m
    want = [x for w in want for x in w]
    L = Lines()
    L.add('(define (long m x) (if (= m 0) (list) (cons x (long (- m 1) x))))', '=> (long m x)', 'define', False)
    L.add('(define q `%s(%s))' % ('#' if vec else '', ' '.join(el)), '=> q', 'template', False)
    L.add('(define l %s)' % ('(vector->list q)' if vec else 'q'), '=> l', 'list', False)
    L.add('(length l)', '=> %d' % len(want), 'length', True)
    runs = []
    for x in want:
        if runs and runs[-1][0] == x:
            runs[-1][1] += 1
        else:
            runs.append([x, 1])
    L.add('(let lp ((l (cdr l)) (x (car l)) (k 1)) (cond ((null? l) (list (list x k))) ((= (car l) x) (lp (cdr l) x (+ k 1))) (else (cons (list x k) (lp (cdr l) (car l) 1)))))' if want else '0',
          '=> (%s)' % ' '.join('(%d %d)' % (x, k) for x, k in runs) if want else '=> 0', 'runs', True)
    return L.case(tags=[v, 'vector' if vec else 'list'], variant=v)


def check_large(c, env):
    return check_lines(c, env, stack_mb=200)


PARTS = [Part('large', gen_large, check_large, 200, 6000, variants=VARS),
         Part('templates', gen, check, 40000, 800000, variants=VARS)]
