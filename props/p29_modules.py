"""Features, modules and load: cond-expand against a feature set, module load order never matters, trees of files."""
import os
from vlib.engine import Case, Part
from vlib.gen import fixrange
from vlib.lines import Lines, check_lines
from vlib.proggen import Prog, ODD
from vlib.ref import run_program, Unmodelled

ID = 'P29'
RULE = ('features: a nested feature expression is decided; broken: a request fails; order: at least two modules are loaded and used; '
        'files: at least one file loads another, fails, escapes or switches the codec')
ASSUMPTIONS = ['vlib/ref.py is the reference semantics of programs run between module loads',
               'module functions are observed on the common domain of all modules that define the name']
VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san']

# loaded at the start of a program (sscm-ext, srfi-55, srfi-0 by the interpreter; srfi-34 by the harness)
INITIAL = {'sscm-ext', 'srfi-6', 'srfi-55', 'srfi-0', 'srfi-23', 'srfi-34', 'sigscheme', 'utf-8', 'euc-jp',
           'shift-jis', 'internal-definitions', 'multibyte-char', 'strict-argcheck', 'deep-cadrs'}
CMODS = ['srfi-1', 'srfi-2', 'srfi-6', 'srfi-8', 'srfi-9', 'srfi-23', 'srfi-28', 'srfi-34', 'srfi-38', 'srfi-43',
         'srfi-48', 'srfi-55', 'srfi-60', 'sscm-ext']
SMODS = ['srfi-69', 'srfi-95', 'srfi-0']
DEPS = {'srfi-1': ['srfi-8', 'srfi-23'], 'srfi-43': ['srfi-8', 'srfi-23', 'sscm-ext'], 'srfi-9': ['srfi-23'],
        'srfi-69': ['srfi-9', 'srfi-23'], 'srfi-34': ['srfi-23'], 'srfi-48': ['srfi-28'], 'srfi-55': ['sscm-ext']}


def weighted_variant(s):
    return s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2]), (1, VARS[3])])


class Mods:
    def __init__(self):
        self.f = set(INITIAL)

    def load(self, m):
        if m in self.f:
            return
        for d in DEPS.get(m, []):
            self.load(d)
        self.f.add(m)


def load_form(s, m):
    """(form, expected)"""
    k = s.below(3)
    if m in SMODS or k == 0:
        if s.bool(1, 6):
            return '(require-extension (%s))' % m, '=> #<undef>'
        return '(require-extension (srfi %s))' % m[5:] if m.startswith('srfi-') else '(require-extension (%s))' % m, '=> #<undef>'
    if k == 1:
        return '(use %s)' % m, '=> #t'
    return '(%%%%require-module "%s")' % m, '=> #t'


# ---------------------------------------------------------------- features
def fexpr(s, m, d, names):
    """(text, value) value None = error"""
    k = s.below(7) if d else 0
    if k <= 2:
        n = s.choice(names)
        return n, n == 'else' or n in m.f
    if k <= 5:
        xs = [fexpr(s, m, d - 1, names) for _ in range(s.below(4))]
        op = 'and' if k <= 4 and s.bool() else 'or'
        t = '(%s)' % ' '.join([op] + [x[0] for x in xs])
        if any(x[1] is None for x in xs):
            return t, None
        return t, all(x[1] for x in xs) if op == 'and' else any(x[1] for x in xs)
    if s.bool(1, 8):
        return s.choice(['(not)', '(not srfi-1 srfi-2)', '(xor srfi-1 srfi-2)', '(srfi-1)', '(library srfi-1)']), None
    x = fexpr(s, m, d - 1, names)
    return '(not %s)' % x[0], None if x[1] is None else not x[1]


def gen_features(s):
    variant = weighted_variant(s)
    m, L = Mods(), Lines()
    feats = ['feat-a', 'feat-b', 'feat-c', 'srfi-1', 'x', 'else', 'if', 'F', 'f']
    names = feats + CMODS + SMODS + ['srfi-77', 'srfi-14', 'utf-8', 'euc-jp', 'sigscheme', 'strict-r5rs', 'siod', 'r7rs']
    n = 0
    for _ in range(s.range(4, 20)):
        k = s.below(13)
        if k == 12:
            # the caller changes its string afterwards
            n += 1
            f = s.choice(feats[:3] + ['F', 'f', 'bar', 'feat-77'] + CMODS)
            L.add('(define s%d (string-copy "%s"))' % (n, f), '=> s%d' % n)
            if f in CMODS and s.bool(2, 3):
                L.add('(%%%%require-module s%d)' % n, '=> #t')
                m.load(f)
            elif f not in CMODS and s.bool(2, 3):
                L.add('(provide s%d)' % n, '=> #t')
                m.f.add(f)
            else:
                L.add('(provided? s%d)' % n, '=> #t' if f in m.f else '=> #f')
            i, ch = s.choice([len(f) - 1, len(f) - 1, 0]), s.choice('123xあ')
            g = f[:i] + ch + f[i + 1:]
            L.add("(begin (string-set! s%d %d #\\%s) 'ok)" % (n, i, ch), '=> ok', 'changed')
            for x in (f, g):
                L.add('(provided? %s)' % ('"%s"' % x if s.bool() else '(string-append "%s")' % x), '=> #t' if x in m.f else '=> #f')
        elif k == 0:
            f = s.choice(feats[:5] + ['F', 'f'])
            L.add('(provide "%s")' % f, '=> #t')
            m.f.add(f)
        elif k <= 2:
            f = s.choice(names)
            L.add('(provided? "%s")' % f, '=> #t' if f in m.f else '=> #f')
        elif k == 3:
            mod = s.choice(CMODS + SMODS)
            L.add(*load_form(s, mod))
            m.load(mod)
        elif k == 4:
            f = s.choice(['srfi-77', 'foo', 'srfi-11', 'srfi'])
            t, e = s.choice([('(use %s)' % f, '=> #f'), ('(%%%%require-module "%s")' % f, '=> #f'),
                             ('(require-extension (%s))' % f, '!E'), ('(require-extension (srfi 77))', '!E'),
                             ('(require-extension %s)' % f, '!E')])
            if f == 'srfi' and e == '!E':
                continue
            L.add(t, e, 'unknown')
        elif k == 5:
            mods = [s.choice(['1', '2', '8', '38', '60', '95', '69', '9']) for _ in range(s.range(0, 3))]
            bad = s.bool(1, 4)
            t = '(require-extension (srfi%s%s))' % (''.join(' ' + x for x in mods), ' 77' if bad else '')
            L.add(t, '!E' if bad else '=> #<undef>', 'several')
            for x in mods:
                m.load('srfi-' + x)
        else:
            cl, out, err, done = [], None, False, False
            defs, undefs = [], []
            for _ in range(s.range(1, 4)):
                t, v = fexpr(s, m, s.below(4), names)
                if '(' in t:
                    L.nt = True
                body, val, names2 = [], '#<undef>', []
                for _ in range(s.below(4)):
                    n += 1
                    if s.bool():
                        body.append('(define c%d %d)' % (n, n))
                        names2.append(n)
                        val = 'c%d' % n
                    else:
                        body.append(s.choice(["'v%d", '(car (quote (v%d)))', '(cond-expand (else (quote v%d)))',
                                              '(cond-expand (srfi-77 1) (sigscheme (quote v%d)))']) % n)
                        val = 'v%d' % n
                cl.append('(%s)' % ' '.join([t] + body))
                if done or err:
                    undefs += names2
                elif v is None:
                    err = True
                    undefs += names2
                elif v:
                    done = True
                    out = val
                    defs += names2
                else:
                    undefs += names2
            t = '(cond-expand %s)' % ' '.join(cl)
            if s.bool(1, 10):
                t = s.choice(['(let () %s)', '(lambda (x) %s)', '(let ((y 1)) %s)', '((lambda () %s))']) % t
                if not t.startswith('(lambda (x'):
                    L.add(t, '!E', 'not toplevel')
                continue
            L.add(t, '!E' if not done else '=> ' + out, 'error' if err else 'clause' if done else 'unfulfilled')
            for x in defs[:2]:
                L.add('c%d' % x, '=> %d' % x)
            for x in undefs[:2]:
                L.add('c%d' % x, '!E')
    return L.case([variant], variant=variant)


# ---------------------------------------------------------------- order
def ints(s, n=5):
    return [s.range(-9, 20) for _ in range(s.below(n + 1))]


def L_(xs):
    return '(%s)' % ' '.join(map(str, xs))


def use_1(s):
    k = s.below(12)
    a, b = ints(s), ints(s)
    x = s.range(-9, 20)
    q = "'" + L_(a)
    if k == 0:
        n, st = s.below(6), s.range(-3, 3)
        return '(iota %d %d %d)' % (n, x, st), L_([x + i * st for i in range(n)])
    if k == 1:
        return '(filter even? %s)' % q, L_([i for i in a if i % 2 == 0])
    if k == 2:
        return '(fold cons %d %s)' % (x, q), None if not a else '(%s . %d)' % (' '.join(map(str, reversed(a))), x)
    if k == 3:
        return '(reduce + 0 %s)' % q, str(sum(a))
    if k == 4:
        return "(map + %s '%s)" % (q, L_(b)), L_([i + j for i, j in zip(a, b)])
    if k == 5:
        return '(delete %d %s)' % (x, q), L_([i for i in a if i != x])
    if k == 6:
        return '(member %d %s =)' % (x, q), L_(a[a.index(x):]) if x in a else '#f'
    if k == 7:
        r = []
        for i in a:
            if i not in r:
                r.append(i)
        return '(delete-duplicates %s)' % q, L_(r)
    if k == 8:
        return '(call-with-values (lambda () (partition odd? %s)) list)' % q, '(%s %s)' % (L_([i for i in a if i % 2]), L_([i for i in a if i % 2 == 0]))
    if k == 9:
        return '(append-map (lambda (x) (list x x)) %s)' % q, L_([i for j in a for i in (j, j)])
    if k == 10:
        return "(assoc %d '((1 . a) (2 . b)) <)" % x, '(1 . a)' if x < 1 else '(2 . b)' if x < 2 else '#f'
    return '(every positive? %s)' % q, '#t' if all(i > 0 for i in a) else '#f'


def use_2(s):
    x = s.range(-9, 9)
    return '(and-let* ((x %d) ((> x 0)) (y (+ x 1))) (* x y))' % x, str(x * (x + 1)) if x > 0 else '#f'


def use_6(s):
    a = ints(s)
    return '(read (open-input-string "%s"))' % L_(a), L_(a)


def use_8(s):
    a = [1] + ints(s)
    return '(receive (a . b) (values %s) (list b a))' % ' '.join(map(str, a)), '(%s %d)' % (L_(a[1:]), a[0])


CNT = 0


def use_23(s):
    return '(guard (e ((symbol? e) e) ((%%error-object? e) \'caught)) (error "oops" 1 2))', 'caught'


def use_34(s):
    x = s.range(0, 99)
    return s.choice(["(guard (e ((number? e) (+ e 1))) (raise %d))" % x,
                     '(call/cc (lambda (k) (with-exception-handler (lambda (e) (k (+ 1 e))) (lambda () (raise %d)))))' % x]), str(x + 1)


def use_fmt(s):
    x = s.range(0, 99)
    return s.choice(['(format "<~a>~~" %d)' % x, '(format "<~s>~~" %d)' % x]), '"<%d>~"' % x


def use_48(s):
    # stays the srfi-48 one when srfi-28 is required later
    x = s.range(0, 99)
    return s.choice(['(format #f "<~a>~~" %d)' % x, '(format "<~w>~~" %d)' % x, '(format #f "<~d>~~" %d)' % x]), '"<%d>~"' % x


def use_38(s):
    return "(let ((p (open-output-string)) (x (list 1 2))) (set-cdr! (cdr x) x) (write/ss x p) (get-output-string p))", '"#1=(1 2 . #1#)"'


def use_43(s):
    a = ints(s)
    k = s.below(4)
    q = "'#" + L_(a)
    if k == 0:
        return '(vector-map (lambda (i x) (+ i x)) %s)' % q, '#' + L_([i + x for i, x in enumerate(a)])
    if k == 1:
        return '(vector-fold (lambda (i acc x) (+ acc x)) 0 %s)' % q, str(sum(a))
    if k == 2:
        return '(vector-append %s %s)' % (q, q), '#' + L_(a + a)
    return '(vector-index even? %s)' % q, str(next((i for i, x in enumerate(a) if x % 2 == 0), '#f'))


def use_60(s):
    a, b = s.range(-99, 99), s.range(-99, 99)
    k = s.below(4)
    if k == 3:
        return '(bitwise-and %d %d)' % (a, b), str(a & b)
    return '(%s %d %d)' % (['logand', 'logior', 'logxor'][k], a, b), str([a & b, a | b, a ^ b][k])


def use_69(s):
    a = ints(s)
    d = {}
    t = ''
    for i in a:
        d[i] = i * 2
        t += '(hash-table-set! h %d %d) ' % (i, i * 2)
    x = s.range(-9, 20)
    return "(let ((h (make-hash-table =))) %s(list (hash-table-size h) (hash-table-ref/default h %d 'no)))" % (t, x), \
        '(%d %s)' % (len(d), d.get(x, 'no'))


def use_95(s):
    a = ints(s)
    return "(sort '%s %s)" % (L_(a), s.choice(['<'])), L_(sorted(a))


def use_ext(s):
    x = s.range(0, 9)
    return '(let-optionals* (list %d) ((a 5) (b (+ a 1))) (list a b))' % x, '(%d %d)' % (x, x + 1)


def use_core(s):
    a = ints(s)
    x = s.range(-9, 20)
    k = s.below(8)
    q = "'" + L_(a)
    if k == 0:
        return '(map (lambda (x) (- x)) %s)' % q, L_([-i for i in a])
    if k == 1:
        return '(let ((r 0)) (for-each (lambda (x y) (set! r (+ (* r 3) x y))) %s %s) r)' % (q, q), str(fold3(a))
    if k == 2:
        return '(member %d %s)' % (x, q), L_(a[a.index(x):]) if x in a else '#f'
    if k == 3:
        return '(assoc "b" (list (cons "a" 1) (cons "b" %d)))' % x, '("b" . %d)' % x
    if k == 4:
        return "(list (vector? '#(1)) (vector? '#()) (vector? (list 1)) (list? '(1 . 2)))", '(#t #t #f #f)'
    if k == 5:
        return "(eval '(let ((vector? list)) (vector? %d)) (interaction-environment))" % x, '(%d)' % x
    if k == 6:
        # the core versions of what modules redefine
        j = s.below(5)
        if j == 0:
            return "(r5rs:map + %s %s)" % (q, q), L_([i + i for i in a])
        if j == 1:
            return "(let ((r 0)) (r5rs:for-each (lambda (x y) (set! r (+ (* r 3) x y))) %s %s) r)" % (q, q), str(fold3(a))
        if j == 2:
            return '(r5rs:member %d %s)' % (x, q), L_(a[a.index(x):]) if x in a else '#f'
        if j == 3:
            return '(r5rs:assoc "b" (list (cons "a" 1) (cons "b" %d)))' % x, '("b" . %d)' % x
        return "(list (r5rs:vector? '#(1)) (r5rs:vector? '(1)) (r5rs:eval '(+ %d 1) (interaction-environment)))" % x, '(#t #f %d)' % (x + 1)
    return "(list (apply max 0 %s) (list-tail '(1 2 3) 2) (call-with-current-continuation (lambda (k) (+ 1 (k 2)))))" % q, \
        '(%d (3) 2)' % max([0] + a)


def fold3(a):
    r = 0
    for i in a:
        r = r * 3 + i + i
    return r


def use_9(s, i):
    x = s.range(0, 9)
    return ('(define-record-type rec%d (mk%d a b) rec%d? (a ra%d set-ra%d!) (b rb%d))' % ((i,) * 6), '#<undef>',
            "(let ((r (mk%d %d 'b))) (set-ra%d! r (+ 1 (ra%d r))) (list (ra%d r) (rb%d r) (rec%d? r) (rec%d? (vector 1 2 3))))" % (
                i, x, i, i, i, i, i, i), '(%d b #t #f)' % (x + 1))


USES = {'srfi-1': use_1, 'srfi-2': use_2, 'srfi-6': use_6, 'srfi-8': use_8, 'srfi-23': use_23, 'srfi-34': use_34,
        'srfi-28': use_fmt, 'srfi-48': use_48, 'srfi-38': use_38, 'srfi-43': use_43, 'srfi-60': use_60,
        'srfi-69': use_69, 'srfi-95': use_95, 'sscm-ext': use_ext}
UNBOUND = {'srfi-1': ['iota', 'filter', 'delete', 'fold'], 'srfi-2': ['and-let*'], 'srfi-8': ['receive'],
           'srfi-9': ['define-record-type'], 'srfi-38': ['write/ss', 'read-with-shared-structure'],
           'srfi-43': ['vector-map', 'vector-copy'], 'srfi-60': ['logand', 'bitwise-or'], 'srfi-69': ['make-hash-table'],
           'srfi-95': ['sort', 'merge!']}


def gen_order(s):
    variant = weighted_variant(s)
    m, L = Mods(), Lines()
    g = Prog(s, bad=0)
    text = g.program(s.range(2, 3))
    from vlib import sx
    prog = []
    try:
        exp = run_program(text, fixrange(variant))
        forms = sx.parse_all(text)
        if len(exp) == len(forms) and not any('(define %s ' % n in text or '(define (%s' % n in text for n in ODD if n != 'tr'):
            prog = [(sx.to_write(f), e) for f, e in zip(forms, exp)]
    except Unmodelled:
        pass
    if any('!E' in e for _, e in prog):
        prog = []
    prog.reverse()
    nload = 0
    for i in range(s.range(5, 25)):
        k = s.below(8)
        if k <= 2:
            mod = s.choice(CMODS + SMODS)
            L.add(*load_form(s, mod))
            m.load(mod)
            nload += 1
        elif k == 3:
            t, e = use_core(s)
            L.add(t, '=> ' + e)
        elif k == 4 and prog:
            for _ in range(s.range(1, 3)):
                if prog:
                    t, e = prog.pop()
                    add_out(L, t, e)
        elif k == 5:
            mod = s.choice(sorted(UNBOUND))
            if mod not in m.f:
                # calling an unbound name is an error; nothing of a module leaks in beforehand
                L.add(s.choice(UNBOUND[mod]), '!E', 'unbound')
        else:
            loaded = sorted(x for x in m.f if x in USES or x == 'srfi-9')
            late = [x for x in loaded if x not in INITIAL]
            mod = s.choice(late if late and s.bool(3, 4) else loaded)
            if mod == 'srfi-9':
                a, ea, b, eb = use_9(s, i)
                L.add(a, '=> ' + ea)
                L.add(b, '=> ' + eb, mod)
            else:
                t, e = USES[mod](s)
                if e is not None:
                    L.add(t, '=> ' + e, mod, nload > 1)
    while prog:
        t, e = prog.pop()
        add_out(L, t, e)
    return L.case([variant], variant=variant)


def add_out(L, t, e):
    e = e.rstrip('\n')
    if '\n' in e:
        t = "'multi"
        e = '=> multi'
    L.add(t, e)


# ---------------------------------------------------------------- files
class Stop(Exception):
    pass


class Fail(Exception):
    pass


CODECS = ['UTF-8', 'EUC-JP', 'Shift_JIS', 'ISO-8859-1', 'EUC-KR', 'EUC-CN']


class Files:
    def __init__(self, s):
        self.s = s
        self.n = s.range(1, 6)
        self.items = [self.file(i) for i in range(self.n)]
        self.k = 0

    def file(self, i):
        """list of items; a file only loads files of higher number (or itself, bounded by a counter)"""
        s = self.s
        its = []
        for _ in range(s.below(6)):
            k = s.below(16)
            if k <= 2:
                its.append(('tr', s.below(100)))
            elif k == 3:
                its.append(('def', 'g%d' % s.below(3), s.below(100)))
            elif k == 4:
                its.append(('inc',))
            elif k <= 8 and i + 1 < self.n:
                its.append((s.choice(['load', 'load', 'require', 'guard-load', 'esc-load']), s.range(i + 1, self.n - 1)))
            elif k == 9:
                its.append(('err', s.below(4)))
            elif k == 10:
                its.append(('escape',))
            elif k == 11:
                its.append(('codec', s.choice(CODECS)))
            elif k == 12:
                its.append(('self', s.range(1, 3)))
            elif k == 13:
                its.append(('comment', s.below(5)))
            elif k == 14:
                its.append(('show',))
            else:
                its.append(('use', s.choice(['srfi-1', 'srfi-60', 'srfi-2'])))
        if s.bool(1, 8):
            its.append(('junk', s.below(4)))
        pre = None
        if s.bool(1, 4):
            pre = s.choice(CODECS)
        return dict(pre=pre, items=its, nl=s.choice(['\n', '\n', '\r\n', ' ']), tail=s.choice(['', '\n', ' ; end', '\n\n']))

    def text(self, i):
        f = self.items[i]
        out = []
        nl = f['nl']
        for it in f['items']:
            k = it[0]
            path = '@D@/f%d' % it[1] if k.endswith('load') or k == 'require' else None
            if k == 'tr':
                t = '(tr %d)' % it[1]
            elif k == 'def':
                t = '(define %s %d)' % it[1:]
            elif k == 'inc':
                t = '(set! cnt (+ cnt 1))'
            elif k in ('load', 'require'):
                t = '(%s "%s")' % (k, path)
            elif k == 'guard-load':
                t = "(guard (e (#t (display \"[G]\"))) (load \"%s\"))" % path
            elif k == 'esc-load':
                t = '(let ((old esc)) (call/cc (lambda (k) (set! esc k) (load "%s"))) (set! esc old) (display "[X]"))' % path
            elif k == 'err':
                t = ["(car '())", '(raise 1)', 'undefined-variable', '(load "@D@/missing")'][it[1]]
            elif k == 'escape':
                t = '(if esc (esc 1))'
            elif k == 'codec':
                t = '(%%%%set-current-char-codec! "%s")' % it[1]
            elif k == 'self':
                t = '(if (< depth %d) (begin (set! depth (+ depth 1)) (load "@D@/f%d")))' % (it[1], i)
            elif k == 'comment':
                t = ['; comment (car 1)\n', "'(1 \"2\" #\\a)", '#t', '#\\a', '"string"'][it[1]]
            elif k == 'show':
                t = '(begin (display (list cnt depth (%%current-char-codec))))'
            elif k == 'use':
                t = '(use %s)' % it[1]
            elif k == 'junk':
                t = ['(tr 1', ')', '"abc', '(a . b c)'][it[1]]
            out.append(t)
        body = nl.join(out) + f['tail']
        if f['pre']:
            body = '#! sscm -C %s\n' % f['pre'] + body
        return body.encode()

    # ---- the model
    def run(self, i, st):
        """executes file i; raises Fail or Escape"""
        f = self.items[i]
        st['steps'] += 1
        if st['steps'] > 60:
            raise Stop()
        saved = st['codec']
        if f['pre']:
            st['codec'] = f['pre']
        for it in f['items']:
            k = it[0]
            if k == 'tr':
                st['out'] += '<%d>' % it[1]
            elif k == 'def':
                st['g'][it[1]] = it[2]
            elif k == 'inc':
                st['cnt'] += 1
            elif k == 'load':
                self.load(it[1], st)
            elif k == 'require':
                self.require(it[1], st)
            elif k == 'guard-load':
                try:
                    self.load(it[1], st)
                except Fail:
                    st['out'] += '[G]'
            elif k == 'esc-load':
                old = st['esc']
                st['id'] += 1
                me = st['id']
                st['esc'] = me
                st['live'].append(me)
                try:
                    self.load(it[1], st)
                except Esc as e:
                    if e.id != me:
                        raise
                finally:
                    st['live'].remove(me)
                st['esc'] = old
                st['out'] += '[X]'
            elif k == 'err':
                raise Fail()
            elif k == 'escape':
                if st['esc']:
                    if st['esc'] not in st['live']:
                        raise Stop()        # an expired continuation: not modelled here
                    raise Esc(st['esc'])
            elif k == 'codec':
                st['codec'] = it[1]
            elif k == 'self':
                if st['depth'] < it[1]:
                    st['depth'] += 1
                    self.load(i, st)
            elif k == 'show':
                st['out'] += '(%d %d %s)' % (st['cnt'], st['depth'], st['codec'])
            elif k == 'junk':
                raise Fail()
        st['codec'] = saved

    def load(self, i, st):
        old = st['codec']
        try:
            self.run(i, st)
        finally:
            st['codec'] = old

    def require(self, i, st):
        if i in st['req']:
            return
        old = st['codec']
        try:
            self.run(i, st)
        except (Fail, Esc):
            if st['codec'] != old:
                raise Stop()        # documented FIXME: require does not restore the codec on an error
            raise
        st['req'].add(i)


class Esc(Exception):
    def __init__(self, i):
        self.id = i


def gen_files(s):
    variant = weighted_variant(s)
    L = Lines()
    F = Files(s)
    st = dict(out='', g={}, cnt=0, depth=0, codec='UTF-8', esc=0, id=0, live=[], req=set(), steps=0)
    L.add('(define (tr n) (display "<") (display n) (display ">"))', '=> (tr n)')
    L.add('(define cnt 0)', '=> cnt')
    L.add('(define depth 0)', '=> depth')
    L.add('(define esc #f)', '=> esc')
    ok = True
    try:
        for _ in range(s.range(1, 6)):
            i = s.below(F.n)
            st['out'] = ''
            k = s.below(8)
            try:
                if k <= 3:
                    t, f = '(load "@D@/f%d")' % i, F.load
                    val = '#<undef>'
                elif k == 4:
                    t, f = '(require "@D@/f%d")' % i, F.require
                    val = '#t'
                elif k == 5:
                    t, f = '(eval \'(load "@D@/f%d") (interaction-environment))' % i, F.load
                    val = '#<undef>'
                elif k == 6:
                    t, f = '(list (begin (load "@D@/f%d") cnt))' % i, F.load
                    val = None
                else:
                    t, f = "(guard (e (#t 'caught)) (load \"@D@/f%d\") 'fine)" % i, F.load
                    val = 'fine'
                f(i, st)
                if val is None:
                    val = '(%d)' % st['cnt']
                L.add(t, st['out'] + '=> ' + val, 'ok')
            except Fail:
                if k == 7:
                    L.add(t, st['out'] + '=> caught', 'caught', nt=True)
                elif k <= 6 and not any(it == ('err', 1) for f in F.items for it in f['items']):
                    L.add(t, st['out'] + '!E', 'error', nt=True)
                else:
                    raise Stop()
            if st['out'].count('<') > 1 or '[' in st['out']:
                L.nt = True
            L.add('(list cnt depth (%%current-char-codec))', '=> (%d %d "%s")' % (st['cnt'], st['depth'], st['codec']))
            for n in ('g0', 'g1', 'g2'):
                if s.bool():
                    L.add(n, '=> %d' % st['g'][n] if n in st['g'] else '!E')
            for i in range(F.n):
                if s.bool(1, 4):
                    L.add('(provided? "*@D@/f%d-loaded*")' % i, '=> #t' if i in st['req'] else '=> #f')
    except Stop:
        ok = False
    files = [('f%d' % i, F.text(i)) for i in range(F.n)]
    return L.case([variant] + ([] if ok else ['cut']), variant=variant, files=files)


def check_files(c, env):
    d = env.dir()
    for n in os.listdir(d):
        if n != 'lib':
            os.unlink(os.path.join(d, n))
    rep = d.encode()
    for n, b in c.files:
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b.replace(b'@D@', rep))
    c2 = Case(c.text.replace(b'@D@', rep), None, variant=c.variant)
    c2.forms = [f.replace(b'@D@', rep) for f in c.forms]
    c2.lines = c.lines
    return check_lines(c2, env, '-')


# ---------------------------------------------------------------- broken
# A module whose file fails to load is not provided, fails again at every request, leaves the other modules
# alone, and loads once its file has been repaired.
FILES = ['srfi-1', 'srfi-43', 'srfi-9', 'srfi-69', 'srfi-95']


class Broken(Mods):
    def __init__(self, spec):
        Mods.__init__(self)
        self.spec, self.fixed = spec, set()

    def attempt(self, m):
        """None, or how it fails"""
        if m in self.f:
            return None
        bad = self.spec.get(m) if m not in self.fixed else None
        if m == 'srfi-43' or bad is None or bad[0] in ('end', 'junk'):
            for d in DEPS.get(m, []):
                why = self.attempt(d)
                if why:
                    return why
        if bad:
            return bad[1]
        self.f.add(m)
        return None


FAILS = {'error': "(car '())", 'raise': "(raise 'oops)", 'unbound': 'no-such-variable', 'escape': '(esc \'escaped)',
         'error2': '(error "broken" 1)', 'load': '(load "/nonexistent/file")'}


def gen_broken(s):
    variant = weighted_variant(s)
    spec = {}
    for m in FILES:
        if s.bool(1, 2):
            # srfi-9.scm wraps vector?: its second evaluation would wrap the wrapper
            pos = s.choice(['start', 'missing'] if m == 'srfi-9' else ['start', 'end', 'missing', 'junk'])
            spec[m] = (pos, s.choice(sorted(FAILS)) if pos in ('start', 'end') else 'error')
    m, L = Broken(spec), Lines()
    L.add("(define (esc x) (car '()))", '=> (esc x)')
    failed = set()
    for i in range(s.range(4, 16)):
        k = s.below(10)
        if k <= 4:
            mod = s.choice(FILES) if s.bool(3, 4) else s.choice(CMODS)
            t, e = load_form(s, mod)
            why = m.attempt(mod)
            if why:
                failed.add(mod)
                L.nt = True
            j = s.below(3)
            tag = 'broken ' + why if why else 'loaded'
            if j == 0 and why not in ('escape',) and not t.startswith('(require-extension'):
                L.add("(guard (e (#t 'failed)) (list %s))" % t, '=> failed' if why else '=> (%s)' % e[3:], tag)
            elif j == 1 or why == 'escape':
                old = 'escaped' if why == 'escape' else None
                if t.startswith('(require-extension') and not why:
                    L.add(t, e, tag)
                else:
                    body = "(begin (set! esc k) (guard (e (#t 'failed)) %s 'fine))" % t
                    L.add('(call/cc (lambda (k) %s))' % body, '=> ' + (old or ('failed' if why else 'fine')), tag)
            else:
                L.add(t, e if not why else '!R oops' if why == 'raise' else '!E', tag)
            L.add('(list (provided? "%s") (%%%%current-char-codec))' % mod, '=> (#%s "UTF-8")' % ('t' if mod in m.f else 'f'))
        elif k <= 6:
            bad = [x for x in spec if spec[x][0] in ('start', 'end') and x not in m.fixed]
            if bad and s.bool(1, 2):
                x = s.choice(bad)
                m.fixed.add(x)
                L.add('(provide "fixed-%s")' % x, '=> #t', 'repaired' if x in failed else None)
        elif k == 7:
            t, e = use_core(s)
            L.add(t, '=> ' + e)
        else:
            loaded = sorted(x for x in m.f if x in USES or x == 'srfi-9')
            late = [x for x in loaded if x not in INITIAL]
            mod = s.choice(late if late and s.bool(3, 4) else loaded)
            if mod == 'srfi-9':
                a, ea, b, eb = use_9(s, i)
                L.add(a, '=> ' + ea)
                L.add(b, '=> ' + eb, mod)
            else:
                t, e = USES[mod](s)
                if e is not None:
                    L.add(t, '=> ' + e, mod)
    return L.case([variant], variant=variant, spec=spec)


def check_broken(c, env):
    from vlib import build as B
    lib = os.path.join(env.dir(), 'lib')
    os.makedirs(lib, exist_ok=True)
    for n in os.listdir(B.LIB):
        if n.endswith('.scm'):
            f = os.path.join(lib, n)
            if os.path.lexists(f):
                os.unlink(f)
            pos, why = c.spec.get(n[:-4], (None, None))
            with open(os.path.join(B.LIB, n), 'rb') as g:
                b = g.read()
            if pos == 'missing':
                continue
            if pos == 'junk':
                b += b'\n(define x . y z)\n'
            elif pos:
                x = b'\n(if (not (provided? "fixed-%s")) %s)\n' % (n[:-4].encode(), FAILS[why].encode())
                b = x + b if pos == 'start' else b + x
            with open(f, 'wb') as g:
                g.write(b)
    return check_lines(c, env, '-', lib=lib)


def check(c, env):
    return check_lines(c, env, '-')


PARTS = [Part('broken', gen_broken, check_broken, 4000, 80000, variants=VARS),
         Part('features', gen_features, check, 8000, 200000, variants=VARS),
         Part('order', gen_order, check, 8000, 200000, variants=VARS),
         Part('files', gen_files, check_files, 9000, 200000, variants=VARS)]
