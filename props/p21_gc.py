"""Garbage collection is transparent: the cases of the other properties, run
with a collection forced at every Nth allocation."""
import hashlib, importlib, random, re
from vlib.engine import Part, Case

ID = 'P21'
RULE = 'the program of another property is non-trivial there and ran with a forced collection at every Nth allocation'
ASSUMPTIONS = ['freed bodies are overwritten by the C library (MALLOC_PERTURB_), freed cells by the collector itself',
               'what the conservative stack scan happens to keep alive can hide a missing root in one case, not in all']


class Stress:
    """Runs a case undisturbed, then with single collections at chosen
    allocations, then with periodic ones. The first run that differs from the
    undisturbed one is what the check of the property gets to see."""
    POINTS = 14

    def __init__(self, env):
        self.env = env

    def run(self, text, mode='-', variant='compact-opt', cpu=10, as_mb=0, **kw):
        t = text.encode('utf-8', 'surrogateescape') if isinstance(text, str) else text
        h = hashlib.sha1(t).digest()
        kw.pop('heap', None)
        kw.pop('stack_mb', None)
        kw['heap'] = '512,1,100000,1'
        mode = mode.replace('-', '')
        v = variant.split('-')[0] + '-gcs'

        def go(m):
            return self.env.run(text, mode + m, v, cpu=60, as_mb=as_mb, **kw)
        r0 = go('c')
        m = re.search(rb'#ALLOCS (\d+)', r0.err)
        if not m:
            return r0
        k = int(m.group(1))
        rnd = random.Random(h)
        points = range(1, k + 1) if k <= self.POINTS else sorted(rnd.sample(range(1, k + 1), self.POINTS))
        for n in points:
            r = go('G%d' % n)
            if r.out != r0.out or r.code != r0.code or r.sig != r0.sig:
                return r
        p = max(1, k // 150) * (1, 1, 2, 3)[h[0] % 4]
        r = go('g%d' % p)
        if r.out != r0.out or r.code != r0.code or r.sig != r0.sig:
            return r
        return r0

    def dir(self):
        return self.env.dir()

    def __getattr__(self, n):
        return getattr(self.env, n)


VARS = ['compact-gcs', 'fatty-gcs', 'hygienic-gcs']
# property module -> [(part, quick, thorough)]
USE = {
    'p01_eval': [('programs', 500, 20000)],
    'p03_control': [('histories', 300, 15000)],
    'p04_exceptions': [('histories', 300, 15000)],
    'p05_promises': [('programs', 400, 15000)],
    'p06_quasiquote': [('templates', 1500, 30000)],
    'p14_readwrite': [('roundtrip', 600, 20000), ('soup', 400, 10000)],
    'p02_tailcalls': [('tail-contexts', 40, 1000)],
    'p08_numio': [('conversions', 200, 10000)],
    'p09_strings': [('strings', 400, 15000)],
    'p10_lists': [('srfi1', 500, 20000)],
    'p11_vectors': [('srfi43', 200, 10000), ('r5rs', 300, 10000)],
    'p12_equality': [('equality', 200, 8000), ('symbols', 200, 8000), ('tables', 200, 8000)],
    'p13_sort': [('sort', 100, 5000)],
    'p15_shared': [('graphs', 300, 10000)],
    'p16_codecs': [('text', 200, 8000), ('switch', 200, 8000)],
    'p18_format': [('srfi48', 500, 20000)],
    'p20_builtins': [('syntax', 200, 10000)],
    'p24_records': [('history', 200, 10000)],
    'p29_modules': [('features', 150, 6000), ('order', 150, 6000)],
}


def wrap(modname, pname, q, t):
    mod = importlib.import_module('props.' + modname)
    part = {p.name: p for p in mod.PARTS}[pname]

    def check(c, env):
        return part.check(c, Stress(env))
    return Part(mod.ID + '-' + pname, part.gen, check, q, t, variants=VARS, batch=10, shrink_budget=200)


# ---- bounded live data runs in bounded memory
KINDS = {
    'string': ('(make-string 1500 #\\a)', '(string-length x)', lambda i: 1500),
    'wide': ('(make-string 700 (integer->char 12354))', '(string-length x)', lambda i: 700),
    'vector': ('(make-vector 250 i)', '(vector-ref x 249)', lambda i: i),
    'vec2': ('(vector i (vector i (list i)) "abc")', '(car (vector-ref (vector-ref x 1) 1))', lambda i: i),
    'list': ('(list i (+ i 1) (list i))', '(+ (car x) (cadr x))', lambda i: 2 * i + 1),
    'closure': ('(lambda (y) (+ y i))', '(x 1)', lambda i: i + 1),
    'promise': ('(delay (* i 2))', '(force x)', lambda i: 2 * i),
    'inport': ('(open-input-string (number->string i))', '(read x)', lambda i: i),
    'outport': ('(let ((p (open-output-string))) (display i p) (display (make-string 900 #\\z) p) p)',
                '(string-length (get-output-string x))', lambda i: 900 + len(str(i))),
    'numstr': ('(number->string i 2)', '(string->number x 2)', lambda i: i),
    'append': ('(string-append (make-string 500 #\\b) (number->string i))', '(string-length x)', lambda i: 500 + len(str(i))),
    'substring': ('(substring (make-string 800 #\\c) 10 600)', '(string-length x)', lambda i: 590),
    'strlist': ('(string->list "hello world")', '(length x)', lambda i: 11),
    'vlist': ('(vector->list (make-vector 20 i))', '(apply + x)', lambda i: 20 * i),
    'cont': ('(call/cc (lambda (k) (k (list i k))))', '(car x)', lambda i: i),
    'error': ('(guard (e (#t (list i e))) (error "boom" i (make-vector 50 i)))', '(car x)', lambda i: i),
    'raise': ('(guard (e (#t e)) (raise (list i)))', '(car x)', lambda i: i),
    'map': ('(map (lambda (y z) (+ y z i)) (list 1 2 3) (list 4 5 6))', '(car x)', lambda i: i + 5),
    'values': ('(call-with-values (lambda () (values i 2 3)) list)', '(car x)', lambda i: i),
    'qq': ('`(,i #(1 ,@(list i 2) ,i) . ,(list i))', '(vector-ref (cadr x) 1)', lambda i: i),
    'wind': ('(let ((r 0)) (dynamic-wind (lambda () (set! r (+ r i))) (lambda () r) (lambda () (set! r 0))))', 'x', lambda i: i),
    'setstr': ('(let ((s (make-string 300 #\\a))) (string-set! s 5 (integer->char 955)) s)', '(string-length x)', lambda i: 300),
    'eval': ("(eval (list '+ i 1) (interaction-environment))", 'x', lambda i: i + 1),
    'symbol': ("(string->symbol (number->string (remainder i 50)))", '(string->number (symbol->string x))', lambda i: i % 50),
}


def gen_churn(s):
    k = s.range(1, 4)
    names = [s.choice(sorted(KINDS)) for _ in range(k)]
    slots = s.range(1, 30)
    n = s.range(30000, 40000) // k
    text = ['(define slots (make-vector %d 0))' % (slots * k)]
    loop, exp, chk = [], [], []
    for j, nm in enumerate(names):
        mk, get, f = KINDS[nm]
        loop.append('(vector-set! slots (+ %d (remainder i %d)) (cons i %s))' % (j * slots, slots, mk))
        for q in range(slots):
            last = max(i for i in range(n - slots, n) if i % slots == q)
            exp.append(f(last))
        chk.append('(do ((q 0 (+ q 1)) (r 0 (+ r (let ((x (cdr (vector-ref slots (+ %d q))))) %s)))) ((= q %d) r))' % (j * slots, get, slots))
    text.append('(do ((i 0 (+ i 1))) ((= i %d) 0) %s)' % (n, ' '.join(loop)))
    text.append('(list %s)' % ' '.join(chk))
    sums = [sum(exp[j * slots:(j + 1) * slots]) for j in range(k)]
    variant = s.weighted([(5, 'compact-opt'), (3, 'fatty-opt'), (2, 'hygienic-opt')])
    return Case('\n'.join(text), '=> 0\n=> (%s)\n#FIN\n#DONE\n' % ' '.join(map(str, sums)), True, tags=names + [variant], variant=variant)


def check_churn(c, env):
    r = env.run(c.text, 'F', c.variant, cpu=60, as_mb=40, heap='8192,4096,5,1', preload='(use srfi-6)\n')
    if r.code or r.sig or not r.text().endswith(c.expect):
        return 'expected ...%r but got %s %r' % (c.expect, r.describe(), r.text()[-300:])


# ---- large structures and deep native stacks
SIZES = [100, 1000, 4095, 4097, 10000, 32768, 40000, 65535, 65536, 65537, 70000, 131073]
HOLD = {
    # name: (expression that makes a structure of n fresh parts, expression that adds up its parts, sum)
    'vector': ('(let ((v (make-vector n 0))) (do ((i 0 (+ i 1))) ((= i n) v) (vector-set! v i (list i))))',
               '(do ((i 0 (+ i 1)) (r 0 (+ r (car (vector-ref x i))))) ((= i n) (+ r (vector-length x))))', lambda n: n * (n - 1) // 2 + n),
    'list': ('(do ((i 0 (+ i 1)) (l (list) (cons (list i) l))) ((= i n) l))',
             '(do ((l x (cdr l)) (r 0 (+ r (caar l)))) ((null? l) r))', lambda n: n * (n - 1) // 2),
    'list->vector': ('(list->vector (do ((i 0 (+ i 1)) (l (list) (cons (vector i) l))) ((= i n) l)))',
                     '(do ((l (vector->list x) (cdr l)) (r 0 (+ r (vector-ref (car l) 0)))) ((null? l) r))', lambda n: n * (n - 1) // 2),
    'strings': ('(let ((v (make-vector n 0))) (do ((i 0 (+ i 1))) ((= i n) v) (vector-set! v i (number->string i))))',
                '(do ((i 0 (+ i 1)) (r 0 (+ r (string->number (vector-ref x i))))) ((= i n) r))', lambda n: n * (n - 1) // 2),
    'closures': ('(do ((i 0 (+ i 1)) (l (list) (let ((j i)) (cons (lambda () j) l)))) ((= i n) l))',
                 '(do ((l x (cdr l)) (r 0 (+ r ((car l))))) ((null? l) r))', lambda n: n * (n - 1) // 2),
    'chain': ('(do ((i 0 (+ i 1)) (f (lambda () (list)) (let ((g f) (j i)) (lambda () (cons j g))))) ((= i (quotient n 10)) f))',
              '(let lp ((p (x)) (r 0)) (if (null? p) r (lp ((cdr p)) (+ r (car p)))))', lambda n: (n // 10) * (n // 10 - 1) // 2),
}


def gen_large(s):
    v = s.weighted([(5, 'compact-opt'), (3, 'fatty-opt'), (2, 'hygienic-opt')])
    n = s.choice(SIZES) + s.below(2)
    text = ['(define (churn k) (do ((i 0 (+ i 1))) ((= i k) 0) (list i i)))']
    exp = ['=> (churn k)']
    tags = [v]
    if s.bool(1, 2):
        # values that only the native stack refers to
        d = s.choice([500, 2000, 5000, 9000])
        tags.append('deep')
        e = s.choice(['(+ (car (list n)) (f (- n 1)))', '(let ((x (list n))) (+ (f (- n 1)) (car x)))', '(apply + (list (vector-ref (vector n) 0) (f (- n 1))))',
                      '(let* ((x (number->string n)) (r (f (- n 1)))) (+ r (string->number x)))', '(+ (string->number (number->string n)) (f (- n 1)))'])
        text.append('(define (f n) (if (= n 0) (churn 40000) %s))' % e)
        exp.append('=> (f n)')
        text.append('(list (f %d) (f %d))' % (d, d // 2))
        exp.append('=> (%d %d)' % (d * (d + 1) // 2, d // 2 * (d // 2 + 1) // 2))
    for i in range(s.range(1, 2)):
        k = s.choice(sorted(HOLD))
        tags.append(k)
        mk, get, f = HOLD[k]
        if s.bool():
            text += ['(define x%d (let ((n %d)) %s))' % (i, n, mk), '(churn 30000)', '(let ((n %d) (x x%d)) %s)' % (n, i, get)]
            exp += ['=> x%d' % i, '=> 0', '=> %d' % f(n)]
        else:
            text.append('(let* ((n %d) (x %s)) (churn 30000) %s)' % (n, mk, get))
            exp.append('=> %d' % f(n))
    return Case('\n'.join(text), '\n'.join(exp) + '\n#FIN\n#DONE\n', True, tags=tags, variant=v)


def check_large(c, env):
    r = env.run(c.text, 'F', c.variant, cpu=60, heap='8192,4096,400,1', stack_mb=200)
    if r.code or r.sig or r.text() != c.expect:
        return 'expected %r but got %s %r' % (c.expect, r.describe(), r.text()[-300:])


# ---- calls whose arguments are garbage the moment the callee lets go of them
TEMP = {
    'int': [('(string-length %s)', 's'), ('(length %s)', 'l'), ('(vector-length %s)', 'v'), ('(char->integer %s)', 'c'),
            ('(apply + %s)', 'L'), ('(string->number (string-append "1" (number->string %s)))', 'i'), ('(car %s)', 'L'),
            ('(apply max 0 %s)', 'L'), ('(vector-ref (list->vector (cons 7 %s)) 0)', 'l'), ('(fold + 0 %s)', 'L'),
            ('(call-with-values (lambda () (apply values (cons 1 (map abs %s)))) +)', 'L'), ('(count integer? %s)', 'L'),
            ('(vector-count (lambda (i x) #t) %s)', 'v'), ('(string-length (symbol->string %s))', 'y'),
            ('(force (delay %s))', 'i'), ('(do ((i 0 (+ i 1)) (r (list) (cons i r))) ((= i 4) (length r)))', ''),
            ('(let loop ((l %s) (n 0)) (if (null? l) n (loop (cdr l) (+ n 1))))', 'l'),
            ('(hash-table-size (let ((h (make-hash-table))) (for-each (lambda (x) (hash-table-set! h x (list x))) %s) h))', 'L')],
    's': [('(string-append %s %s)', 'ss'), ('(string-append %s (string-append %s %s))', 'sss'), ('(list->string %s)', 'C'),
          ('(substring (string-append "abcdefgh" %s) 2 6)', 's'), ('(string-copy %s)', 's'), ('(symbol->string %s)', 'y'),
          ('(number->string %s)', 'i'), ('(apply string-append %s)', 'S'), ('(make-string 12 %s)', 'c'),
          ('(string %s %s %s)', 'ccc'), ('(let ((p (open-output-string))) (write %s p) (get-output-string p))', '*'),
          ('(format (string-append "~s ~a" %s) %s %s)', 's**'), ('(format (string-append %s "~y ~y") %s %s)', 's**'),
          ('(format #f (string-append %s "~?") (string-append "~y ~s " %s) (list %s %s))', 'ss**'),
          ('(format (string-append "~w|" %s) %s)', 's*'), ('(let ((s (string-copy %s))) (string-fill! s %s) s)', 'sc'),
          ('(let ((s (string-append "x" %s))) (string-set! s 0 %s) s)', 'sc'),
          ('(guard (e (#t (condition->string e))) (error (string-append %s "!") %s %s))', 's**'),
          ('(guard (e ((string? e) e)) (raise (string-append %s %s)))', 'ss'),
          ('(call-with-output-string (lambda (p) (display %s p) (display %s p)))', '**'),
          ('(with-char-codec "UTF-8" (lambda () (string-append %s %s)))', 'ss')],
    'y': [('(string->symbol (string-append "sy" %s))', 's'), ('(string->symbol %s)', 's'), ('(car (list (quote q) %s))', '*')],
    'c': [('(string-ref (string-append %s "z") 0)', 's'), ('(car (reverse (cons #\\z %s)))', 'C'), ('(integer->char 955)', ''),
          ('(char-upcase %s)', 'c'), ('(vector-ref (vector %s %s) 1)', 'cc')],
    'C': [('(string->list %s)', 's'), ('(string->list (string-append %s "\u3042" %s))', 'ss'), ('(list %s %s)', 'cc'),
          ('(reverse %s)', 'C'), ('(map char-downcase %s)', 'C'), ('(vector->list (list->vector %s))', 'C')],
    'L': [('(list %s %s %s)', 'iii'), ('(map + %s %s)', 'LL'), ('(map (lambda (c) (char->integer c)) %s)', 'C'),
          ('(vector->list (vector %s %s))', 'ii'), ('(map string-length %s)', 'S'), ('(iota 5)', ''), ('(append %s %s)', 'LL'),
          ('(list-copy %s)', 'L'), ('(filter integer? %s)', 'L'), ('`(,@%s ,%s ,@%s)', 'LiL'), ('(delete 3 %s)', 'L'),
          ('(sort %s <)', 'L'), ('(map * %s %s %s)', 'LLL'), ('(vector->list (vector-map (lambda (i x) (+ i 1)) %s))', 'v')],
    'S': [('(list %s %s)', 'ss'), ('(map number->string %s)', 'L'), ('(map string-copy %s)', 'S'), ('(map string %s)', 'C'),
          ('(map symbol->string (list %s %s))', 'yy'), ('(map string-append %s %s)', 'SS')],
    'l': [('%s', 'L'), ('%s', 'S'), ('%s', 'C'), ('(list %s %s)', '**'), ('(cons %s %s)', '*l'), ('(reverse %s)', 'l'),
          ('(map list %s %s)', 'll'), ('(vector->list %s)', 'v'), ('(append %s %s)', 'll'), ('`(,%s ,@%s)', '*l'),
          ('(list-tail (cons 1 (cons 2 %s)) 2)', 'l'), ('(append-map list %s)', 'l'), ('(zip %s %s)', 'll'),
          ('(map (lambda (x) (cons x (list x))) %s)', 'l'), ('(call-with-values (lambda () (values %s %s)) list)', '**'),
          ('(receive (a b) (values %s %s) (list a b))', '**'), ('(receive (a . b) (apply values (cons 1 %s)) b)', 'l'),
          ('(call/cc (lambda (k) (list 1 (k %s))))', 'l'), ('(apply list %s)', 'l'), ('(apply list %s %s %s)', '**l'),
          ('((lambda (a . b) (cons a b)) %s %s %s)', '***'), ('(read (open-input-string (string-append "(a \\"b\\" #(c 1)" %s ")")))', 'n'),
          ('(dynamic-wind (lambda () (list 1)) (lambda () %s) (lambda () (make-string 30 #\\q)))', 'l'),
          ('(guard (e (#t (list e))) (raise %s))', '*'), ('(with-exception-handler (lambda (e) (list 1)) (lambda () %s))', 'l'),
          ('(hash-table->alist (let ((h (make-hash-table))) (hash-table-set! h %s (list %s)) h))', 's*'),
          ('(eval (list (quote list) %s (list (quote quote) %s)) (interaction-environment))', 's*'),
          ('(let-optionals* %s ((a (list 1)) (b (make-string 20 #\\b)) . c) (list a b c))', 'l'),
          ('(and-let* ((a %s) (b (list a))) (cons a b))', '*'), ('(let ((f (let ((z %s)) (lambda (x) (list x z))))) (f %s))', '**'),
          ('(let loop ((i 0) (a %s)) (if (= i 4) a (loop (+ i 1) (cons (number->string i) a))))', 'l'),
          ('(call-with-values (lambda () (partition string? %s)) append)', 'l'), ('(list-tabulate 4 (lambda (i) %s))', '*'),
          ('(assoc %s (list (cons %s 1) (list %s)))', 'sss'), ('(delete-duplicates %s)', 'l'),
          ('(let ((p (open-input-string (string-append %s " x y")))) (list (read p) (read-char p)))', 's')],
    'v': [('(vector %s %s)', '**'), ('(list->vector %s)', 'l'), ('(make-vector 9 %s)', '*'), ('`#(,@%s ,%s)', 'l*'), ('`#(1 #(,%s))', '*'),
          ('(vector-map (lambda (i x) (list x)) %s)', 'v'), ('(vector-append %s %s)', 'vv'), ('(vector-copy %s)', 'v'),
          ('(let ((v (vector %s %s))) (vector-fill! v %s) v)', '***'), ('(vector-unfold (lambda (i) (make-string i #\\u)) 3)', ''),
          ('(let ((v (make-vector 3 0))) (vector-set! v 1 %s) v)', '*')],
}
LEAF = {'int': ['3', '(+ 1 4)', '(string-length (make-string 20 #\\a))'], 's': ['(make-string 40 #\\a)', '(string-append "abcdefghijklmnopqrstu" "vwxyz")', '(make-string 3 (integer->char 12354))', '(number->string 123456)'],
        'y': ["'foo", '(string->symbol (string-append "gen" "sym"))'], 'c': ['#\\x', '(integer->char 12354)'],
        'C': ['(list #\\a #\\b)', '(string->list (make-string 25 #\\k))'], 'L': ['(list 1 2 3)', '(list 5 4 3 2 1 0)'],
        'S': ['(list (make-string 30 #\\s) (string-append "a" "bc"))'], 'l': ['(list)', '(list (list 1) (make-string 4 #\\l))'],
        'v': ['(vector (list 1) (make-string 20 #\\v))', '(make-vector 6 (list 2))'], 'n': ['(number->string 42)', '(make-string 50 #\\r)']}
ANY = ['int', 's', 's', 'y', 'c', 'L', 'S', 'l', 'l', 'v', 'v']
PRELUDE = ''.join('(require-extension (srfi %s))\n' % n for n in '1 2 6 8 23 34 38 43 48 69 95'.split()) + \
    '(define (condition->string e) (let ((p (open-output-string))) (write (error-object-message* e) p) (get-output-string p)))\n' \
    '(define (error-object-message* e) (if (pair? e) (length e) e))\n' \
    '(define (call-with-output-string f) (let ((p (open-output-string))) (f p) (get-output-string p)))\n'


def gen_temp(s):
    used = []

    def expr(t, d):
        if t == '*':
            t = s.choice(ANY)
        t = {'i': 'int'}.get(t, t)
        if d <= 0 or t not in TEMP:
            return s.choice(LEAF[t])
        tmpl, args = s.choice(TEMP[t])
        used.append(re.findall(r'[a-z][-a-z0-9!?>*/]*', tmpl + ' x')[0])
        return tmpl.replace('%s', '\0').replace('\0', '%s') % tuple(expr(a, d - s.range(1, 2)) for a in args)
    forms = [expr(s.choice(ANY), s.range(1, 4)) for _ in range(s.range(1, 4))]
    if s.range(0, 2) == 0:
        forms = ['(define (f%d) %s)\n(f%d)' % (i, f, i) for i, f in enumerate(forms)]
    v = s.choice(VARS)
    return Case('\n'.join(forms), None, True, tags=used[:12] + [v], variant=v)


class Base(Stress):
    """remembers the undisturbed run"""
    def run(self, text, *a, **kw):
        self.first = None
        outer = self.env

        class Rec:
            def run(_, *a, **kw):
                r = outer.run(*a, **kw)
                if self.first is None:
                    self.first = r
                return r
        self.env = Rec()
        try:
            return Stress.run(self, text, *a, **kw)
        finally:
            self.env = outer


def check_temp(c, env):
    b = Base(env)
    r = b.run(c.text, 'f', c.variant, preload=PRELUDE)
    if not b.first.done:
        return 'undisturbed run failed: %s %r' % (b.first.describe(), b.first.text()[-300:])
    if r.out != b.first.out or not r.done:
        return 'without a forced collection %r but with one %r %s' % (b.first.text()[-400:], r.text()[-400:], r.describe())


PARTS = [wrap(m, p, q, t) for m, l in USE.items() for p, q, t in l] + [
    Part('temporaries', gen_temp, check_temp, 1500, 60000, variants=VARS, batch=10, shrink_budget=300),
    Part('churn', gen_churn, check_churn, 400, 6000, variants=['compact-opt', 'fatty-opt', 'hygienic-opt'], batch=5, shrink_budget=60),
    Part('large', gen_large, check_large, 120, 3000, variants=['compact-opt', 'fatty-opt', 'hygienic-opt'], batch=5, shrink_budget=60)]
