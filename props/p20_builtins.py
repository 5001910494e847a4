"""Every builtin and special form on arbitrary arguments."""
import re

from vlib.engine import Part, Case

ID = 'P20'
RULE = 'two or more calls, at least one of them with an argument that is not of the documented type'
ASSUMPTIONS = ['exit, %%fatal-error and the switch of the error port are not called',
               'exhausted memory may end the interpreter, only when a huge size is requested',
               'a call given a circular list, a huge count or a procedure may go on for ever']
VARS = ['compact-san', 'fatty-san', 'compact-opt', 'fatty-opt']

# name -> arity: n exactly, -n-1 at least n
FUNS = {}


def deft(t):
    for e in t.split():
        n, a = e.rsplit(':', 1)
        FUNS[n] = int(a)


deft('''%%backtrace:0 %%closure-code:1 %%current-char-codec:0 %%current-environment:0 %%error-object?:1 %%inspect-error:1 %%pair-mutable?:1
%%require-module:1 %%string-mutable?:1 %%string-reconstruct!:1 %%system-load-path:0 %%vector-mutable?:1 %%set-current-input-port!:1 %%set-current-output-port!:1
*:-1 +:-1 -:-2 /:-2 <:-3 <=:-3 =:-3 >:-3 >=:-3 abs:1 append:-1 apply:-3 assoc:-3 assq:2 assv:2 bitwise-if:3 boolean?:1 caaaar:1 caaadr:1 caaar:1 caadar:1 caaddr:1
caadr:1 caar:1 cadaar:1 cadadr:1 cadar:1 caddar:1 cadddr:1 caddr:1 cadr:1 call-with-current-continuation:1 call-with-values:2 car:1 cdaaar:1 cdaadr:1 cdaar:1 cdadar:1
cdaddr:1 cdadr:1 cdar:1 cddaar:1 cddadr:1 cddar:1 cdddar:1 cddddr:1 cdddr:1 cddr:1 cdr:1 char->integer:1 char-alphabetic?:1 char-ci<=?:2 char-ci<?:2 char-ci=?:2 char-ci>=?:2
char-ci>?:2 char-downcase:1 char-lower-case?:1 char-numeric?:1 char-ready?:-1 char-upcase:1 char-upper-case?:1 char-whitespace?:1 char<=?:2 char<?:2 char=?:2 char>=?:2
char>?:2 char?:1 circular-list?:1 close-input-port:1 close-output-port:1 cons:2 current-input-port:0 current-output-port:0 display:-2 dotted-list?:1 dynamic-wind:3
eof-object?:1 eq?:2 equal?:2 eqv?:2 error:-2 eval:2 even?:1 expt:2 find-tail:2 fixnum-width:0 for-each:-2 force:1 format:-2 format+:-2 gcd:-1 get-output-string:1
greatest-fixnum:0 input-port?:1 integer->char:1 integer?:1 interaction-environment:0 last-pair:1 lcm:-1 least-fixnum:0 length:1 length*:1 length+:1 list:-1 list->string:1
list->vector:1 list-ref:2 list-tail:2 list?:1 load:1 load-path:0 logand:-1 logior:-1 lognot:1 logtest:2 logxor:-1 make-string:-2 make-vector:-2 map:-2 map-in-order:-2 max:-2
member:-3 memq:2 memv:2 min:-2 modulo:2 negative?:1 newline:-1 not:1 null-environment:1 null?:1 number->string:-2 number?:1 odd?:1 open-input-file:1 open-input-string:1
open-output-file:1 open-output-string:0 output-port?:1 pair?:1 peek-char:-1 positive?:1 procedure?:1 provide:1 provided?:1 quotient:2 raise:1 read:-1 read-char:-1 remainder:2
require:1 reverse:1 reverse!:1 scheme-report-environment:1 set-car!:2 set-cdr!:2 sscm-version:0 string:-1 string->list:1 string->number:-2
string->symbol:1 string-append:-1 string-ci<=?:2 string-ci<?:2 string-ci=?:2 string-ci>=?:2 string-ci>?:2 string-copy:1 string-fill!:2 string-length:1 string-ref:2
string-set!:3 string<=?:2 string<?:2 string=?:2 string>=?:2 string>?:2 string?:1 substring:3 symbol->string:1 symbol-bound?:-2 symbol?:1 values:-1
vector:-1 vector->list:1 vector-fill!:2 vector-length:1 vector-ref:2 vector-set!:3 vector?:1 with-exception-handler:2 write:-2 write-char:-2
write-with-shared-structure:-2 write/ss:-2 zero?:1 call-with-input-file:2 call-with-output-file:2 with-input-from-file:2 with-output-to-file:2''')

# argument types that are documented; a letter per argument, * repeats the last one; '.' anything
SIG = {}


def sig(t, names):
    for n in names.split():
        SIG[n] = t


sig('i*', '* + - / gcd lcm logand logior logxor max min bitwise-if')
sig('ii', '< <= = > >= quotient remainder modulo logtest expt')
sig('i', 'abs even? odd? zero? positive? negative? lognot integer->char')
sig('c', 'char->integer char-alphabetic? char-downcase char-lower-case? char-numeric? char-upcase char-upper-case? char-whitespace?')
sig('cc', 'char-ci<=? char-ci<? char-ci=? char-ci>=? char-ci>? char<=? char<? char=? char>=? char>?')
sig('p', 'car cdr last-pair %%pair-mutable?')
sig('p', ' '.join(n for n in FUNS if n[0] == 'c' and n[-1] == 'r' and set(n[1:-1]) <= set('ad')))
sig('p.', 'set-car! set-cdr!')
sig('l', 'length reverse list->vector list->string')
sig('.l', 'memq memv member assq assv assoc find-tail')
sig('.i', 'list-ref list-tail')
sig('s', 'string-length string->symbol string-copy string->list open-input-string %%string-mutable? load open-input-file open-output-file')
sig('ss', 'string-ci<=? string-ci<? string-ci=? string-ci>=? string-ci>? string<=? string<? string=? string>=? string>?')
sig('si', 'string-ref string->number')
sig('sii', 'substring')
sig('sic', 'string-set!')
sig('sc', 'string-fill!')
sig('sf', 'call-with-input-file call-with-output-file with-input-from-file with-output-to-file')
sig('s*', 'string-append')
sig('c*', 'string')
sig('ic', 'make-string')
sig('i.', 'make-vector')
sig('ii', 'number->string')
sig('v', 'vector-length vector->list %%vector-mutable?')
sig('v.', 'vector-fill!')
sig('vi', 'vector-ref')
sig('vi.', 'vector-set!')
sig('y', 'symbol->string')

sig('f', 'call-with-current-continuation')
sig('ff', 'call-with-values with-exception-handler')
sig('fff', 'dynamic-wind')
sig('.l', 'map for-each')
sig('f', 'apply')
sig('I', 'read read-char peek-char char-ready?')
sig('P', 'close-input-port close-output-port')
sig('O', 'get-output-string newline')
sig('.O', 'write display write-with-shared-structure')
sig('cO', 'write-char')
sig('P', 'input-port? output-port?')
sig('.O', 'write/ss')
sig('r', 'force')
sig('.l', 'eval map-in-order')
sig('s', 'provide provided? require %%require-module %%string-reconstruct!')
sig('I', '%%set-current-input-port!')
sig('O', '%%set-current-output-port!')
sig('yl', 'symbol-bound?')
sig('i', 'scheme-report-environment null-environment')
sig('f', '%%closure-code')
DEEP = set('equal? member assoc display write format format+ raise'.split())     # follow circular structure for ever
MUT = set('set-car! set-cdr! vector-set! vector-fill! reverse!'.split())
LOOPING = set('map for-each map-in-order apply list-tail list-ref append eval make-vector make-string lcm expt memq memv assq assv find-tail length* last-pair reverse! equal? force call-with-values dynamic-wind '
              'load call-with-current-continuation with-exception-handler call-with-input-file call-with-output-file with-input-from-file with-output-to-file'.split())

INTS = ['0', '1', '2', '3', '-1', '5', '16', '255', '256', '-128', '1000', '65536']
HUGE = ['17592186044416', '576460752303423487', '-576460752303423488', '72057594037927936', '288230376151711744', '2147483648', '4294967295', '4294967296', '-2147483649']
HUGEF = ['9223372036854775807', '-9223372036854775808', '4611686018427387904', '2305843009213693952', '1152921504606846976']
# expression -> types
POOL = [(e, 'i') for e in INTS] + [
    ('#\\a', 'c'), ('#\\A', 'c'), ('#\\space', 'c'), ('#\\x0', 'c'), ('#\\x3042', 'c'), ('#\\x10ffff', 'c'), ('#\\1', 'c'),
    ('""', 's'), ('"abc"', 's'), ('"ABC"', 's'), ('sm', 's'), ('su', 's'), ('se', 's'), ('sl', 's'), ('"12"', 's'), ('"#xff"', 's'), ('"-"', 's'), ('"あい"', 's'), ('"~a~s~d~8f~%"', 's'),
    ('"(1 . 2)"', 's'), ('"vf1"', 's'), ('"vf2"', 's'), ('"novf"', 's'), ('"UTF-8"', 's'), ('"srfi-1"', 's'),
    ("'foo", 'y'), ("'quux", 'y'), ("(string->symbol \"A b\")", 'y'), ('#t', 'b'), ('#f', 'b'), ("'()", 'l'), ('eof', 'x'), ('und', 'x'),
    ('l1', 'lp'), ("'(1 2 3)", 'lp'), ('d1', 'pl'), ('al', 'lp'), ('im', 'pl'), ("'(a b . c)", 'pl'), ('ls', 'lp'), ('lc', 'lp'), ('ll', 'lp'), ('lf', 'lp'), ("'(+ 1 2)", 'lp'), ("'(lambda (x) x)", 'lp'),
    ('v0', 'v'), ('v1', 'v'), ("'#(1 \"a\" #\\b)", 'v'), ('vb', 'v'),
    ('car', 'f'), ('cons', 'f'), ('list', 'f'), ('fx', 'f'), ('f0', 'f'), ('f1', 'f'), ('f2', 'f'), ('fe', 'f'), ('fr', 'f'), ('kx', 'f'), ('call/cc', 'f'), ('fk', 'f'), ('apply', 'f'), ('string-append', 'f'), ('eval', 'f'),
    ('p1', 'IP'), ('pc', 'IP'), ('pe', 'IP'), ('pf', 'IP'), ('o1', 'OP'), ('oc', 'OP'), ('of', 'OP'), ('pr', 'rpl'), ('pre', 'rpl'), ('eo', '?'), ('(interaction-environment)', 'l')]
CIRC = [('ci', 'pl'), ('cc', 'pl'), ('vc', 'v'), ('lci', 'pl'), ('rec', '?')]
PRE = r'''
(use srfi-1) (use srfi-2) (use srfi-6) (use srfi-8) (use srfi-9) (use srfi-23) (use srfi-28) (use srfi-34) (use srfi-38) (use srfi-48) (use srfi-60) (use sscm-ext)
(define und (if #f #f))
(define sm (string-copy "abc")) (define su (string-copy "aあ漢😀")) (define se (make-string 0)) (define sl (make-string 300 #\あ))
(define l1 (list 1 2 3)) (define d1 (cons 1 2)) (define al (list (cons 1 2) (cons 'a "b") (list #\c))) (define im (cons 1 (cons 2 3)))
(define ls (list "abc" "b")) (define lc (list #\a #\あ)) (define ll (list (list 1 2) (list 3 4) '())) (define lf (list car cdr (lambda x x)))
(define v0 (vector)) (define v1 (vector 1 2 3)) (define vb (make-vector 300 'x))
(define fx (lambda x x)) (define f0 (lambda () 1)) (define f1 (lambda (a) a)) (define f2 (lambda (a b) b)) (define fe (lambda a (error "x" a))) (define fr (lambda a (raise 'r)))
(define kx #f) (call/cc (lambda (k) (set! kx k))) (define fk (lambda (k) (k 1)))
(define p1 (open-input-string "abc (1 2) \"x\" #\\a あ")) (define pc (open-input-string "a")) (close-input-port pc) (define pe (open-input-string "")) (define eof (read-char pe))
(define o1 (open-output-string)) (define oc (open-output-string)) (close-output-port oc)
(define of (open-output-file "vf1")) (display "(define foo 5) 6 " of) (newline of) (define pf (open-input-file "vf1"))
(define pr (delay 1)) (define pre (delay (error "x")))
(define-record-type rt (mk a) rt? (a a-of set-a!)) (define rec (mk 1))
(define eo (guard (e (#t e)) (error "msg" 1 "b")))
(define ci (list 1 2 3)) (set-cdr! (cddr ci) ci) (define cc (list 1)) (set-car! cc cc) (define vc (vector 1 2)) (vector-set! vc 0 vc) (define lci (cons 0 ci))
(define r0 0) (define r1 0) (define r2 0) (define r3 0) (define r4 0) (define r5 0) (define r6 0) (define r7 0)
(define foo 1) (define stdo (current-output-port)) (define stdi (current-input-port))
(define cnt 0)
(define nat-list '(3 1 2))
(define (canary)
  (list (+ 1 (* 2 3)) (string-append "a" "bc") (reverse (list 1 2 3)) (vector-ref (vector 1 2 3) 1) (car (list 'a 'b)) (let loop ((i 0) (a '())) (if (< i 3) (loop (+ i 1) (cons i a)) a))
        (call/cc (lambda (k) (+ 1 (k 42)))) (guard (e ((symbol? e) (list e))) (raise 'oops)) (let ((l '())) (dynamic-wind (lambda () (set! l (cons 1 l))) (lambda () 0) (lambda () (set! l (cons 2 l)))) l)
        (let ((p (open-output-string))) (write '(1 "a" #\b (c . d)) p) (get-output-string p)) (read (open-input-string "(x (y) . z)")) (equal? '(1 #(2 "c")) (list 1 (vector 2 (string #\c))))
        (eq? (string->symbol "foo") 'foo) (length '(1 2 3)) (apply max nat-list) (force (delay 7)) (string->number "-12") `(1 ,@(list 2 3)) (char->integer #\A) (assq 'b '((a 1) (b 2)))))
(define good '(7 "abc" (3 2 1) 2 a (2 1 0) 42 (oops) (2 1) "(1 \"a\" #\\b (c . d))" (x (y) . z) #t #t 3 3 7 -12 (1 2 3) 65 (b 2)))
(define (same? a b) (cond ((pair? a) (and (pair? b) (same? (car a) (car b)) (same? (cdr a) (cdr b)))) ((string? a) (and (string? b) (string=? a b))) (else (eqv? a b))))
(define (try th)
  (let ((x (guard (e (#t (let ((o (%%error-object? e))) (guard (e2 (#t 0)) (write/ss e (open-output-string)) (if o (%%inspect-error e))) (if o 'err 'raised))))
             (th) 'ok)))
    (guard (e (#t 0)) (%%set-current-output-port! stdo)) (guard (e (#t 0)) (%%set-current-input-port! stdi))
    (if (same? (canary) good) x (list x (canary)))))
'''


def ill(name, args):
    """an argument is certainly not of the documented type"""
    n = len(args)
    a = FUNS.get(name)
    if a is None:
        return False
    if a >= 0 and n != a or a < 0 and n < -a - 1:
        return True
    t = SIG.get(name)
    if t is None or name == 'make-string' and args and (args[0][1] == '?' or args[0][0] == '0'):
        return False        # a string of length 0 is made whatever follows, as the test suite demands
    for i, (e, ty) in enumerate(args):
        if i < len(t) and t[i] != '*':
            k = t[i]
        elif t[-1] == '*':
            k = t[-2]
        else:
            break
        if k != '.' and ty != '?' and k not in ty:
            return True
    if name == 'append' and any('l' not in ty and ty != '?' for _, ty in args[:-1]) or name == 'apply' and 'l' not in args[-1][1] and args[-1][1] != '?':
        return True
    if name in ('read-char', 'peek-char', 'read', 'char-ready?', 'newline') and n > 1 or name in ('write', 'display', 'write-char', 'make-string', 'make-vector', 'number->string', 'string->number') and n > 2:
        return name not in ('write', 'display', 'write-char', 'newline') or n > 2
    return False


def pick(s, k, circ, v, huge):
    """an argument, of type k when possible"""
    pool = POOL + (CIRC if circ else [])
    if k in ('i', 'any') and huge and s.bool(1, 4 if k == 'i' else 12):
        return s.choice(HUGE + (HUGEF if v.startswith('fatty') else [])), 'i'
    if k not in ('any', '.'):
        pool = [e for e in pool if k in e[1]] or pool
    return s.choice(pool)


def gen(s):
    v = s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2]), (1, VARS[3])])
    circ = s.bool(1, 3)
    huge = s.bool(1, 2)
    names = sorted(n for n in FUNS if n not in (DEEP if circ else MUT) and n != '%%current-environment')
    prog, exp, tags = [], [], set()
    loose = False
    nt = False
    alloc = False
    for i in range(s.range(1, 8)):
        n = s.choice(names)
        a = FUNS[n]
        lo = a if a >= 0 else -a - 1
        cnt = lo if s.bool(6, 7) else s.range(0, 5)
        if a < 0 and s.bool():
            cnt = lo + s.range(0, 2)
        t = SIG.get(n, '')
        args = []
        for j in range(cnt):
            k = t[j] if j < len(t) and t[j] != '*' else t[-2] if t[-1:] == '*' else 'any'
            if i and s.bool(1, 5):
                args.append(('r%d' % s.below(i), '?'))
                alloc = alloc or n.startswith('make-')
                continue
            if k == '.' or s.bool(2, 5):
                k = 'any'
            h = huge and n not in ('make-vector', 'make-string', '%%prealloc-heaps')
            if n in ('make-vector', 'make-string') and j == 0 and huge and s.bool(1, 4):
                args.append((s.choice(['17592186044416', '576460752303423487', '288230376151711744', '144115188075855872'] + (HUGEF if v.startswith('fatty') else [])), 'i'))
                alloc = True
            else:
                args.append(pick(s, k, circ, v, h))
        bad = ill(n, args)
        exp.append(n if bad else None)
        nt = nt or bad
        tags.add('ill-typed' if bad else 'call')
        if n in LOOPING:
            loose = True
        prog.append('(try (lambda () (set! r%d (%s%s))))' % (i, n, ''.join(' ' + e for e, _ in args)))
        if circ or any(t == '?' for _, t in args):
            loose = True
    prog.append('(write/ss (list r0 r1 r2 r3 r4 r5 r6 r7) (open-output-string))')
    return Case('\n'.join(prog), exp, nt and len(prog) > 2, tags=[v, 'circular' if circ else 'plain'] + sorted(tags), variant=v, loose=loose, alloc=alloc, recursive=False)


def check(c, env, pre=PRE):
    r = env.run(c.text, '-', c.variant, cpu=3 if c.loose else 10, preload=pre, cwd=env.dir())
    ls = r.text().split('\n')
    # the program prints in between
    got = []
    for l in ls:
        if 'dynamic-wind' in c.text and l.endswith('!E'):
            got.append('raised')        # by the after thunk, outside the guard
            continue
        if '=> ' in l:
            l = l[l.rindex('=> '):]
            if l[3:] in ('ok', 'err', 'raised', '#<undef>', '(#<eof>)') or l.startswith('=> ('):
                got.append(l[3:])
    redef = c.recursive and REDEF.search(c.text)        # even the special forms of the check itself can be redefined
    for g, e in zip(got, c.expect):
        if redef:
            break
        if g.startswith('('):
            return 'builtins misbehave after the calls: ' + g
        if e and g != 'err' and not (g == 'raised' and e in ('call-with-values', 'with-exception-handler', 'dynamic-wind')):
            return 'the call of %s with an ill-typed argument or a wrong number of arguments is not an error but %s' % (e, g)
    if r.timeout:
        return None if c.loose else 'does not end: ' + r.describe()
    if not r.done:
        if c.recursive and (b'stack-overflow' in r.err or c.variant.endswith('opt') and r.sig == 11):
            return None     # the program recurses for ever
        if c.alloc and r.code == 1 and b'memory exhausted' in r.err[-300:]:
            return None
        return 'the interpreter stopped: %s %s' % (r.describe(), r.text()[-300:])
    if len(got) < len(c.expect) and not redef and 'output-port' not in c.text:
        return 'lost an answer: %r' % r.out[-1500:]


# the libraries in Scheme

LIBS = """xcons make-list list-tabulate cons* list-copy iota circular-list proper-list? dotted-list? circular-list? not-pair? null-list? list= length+ zip first second third fifth tenth car+cdr take drop take!
take-right drop-right drop-right! split-at split-at! last last-pair unzip1 unzip2 unzip3 append! append-reverse append-reverse! concatenate count unfold-right unfold fold fold-right pair-fold pair-fold-right
reduce reduce-right append-map append-map! pair-for-each map! filter-map map-in-order filter filter! partition partition! remove remove! delete delete! delete-duplicates alist-cons alist-copy alist-delete
alist-delete! find find-tail take-while drop-while take-while! span span! break break! any every list-index reverse! lset<= lset= lset-adjoin lset-union lset-union! lset-intersection lset-difference lset-xor
lset-diff+intersection vector-unfold vector-unfold-right vector-copy vector-reverse-copy vector-append vector-concatenate vector-empty? vector= vector-fold vector-fold-right vector-map vector-map! vector-for-each
vector-count vector-index vector-skip vector-index-right vector-skip-right vector-binary-search vector-any vector-every vector-swap! vector-fill! vector-copy! vector-reverse-copy! vector-reverse! vector->list
reverse-vector->list list->vector reverse-list->vector make-vector string-hash string-ci-hash hash hash-by-identity make-hash-table hash-table? hash-table-equivalence-function hash-table-hash-function hash-table-ref
hash-table-ref/default hash-table-set! hash-table-update! hash-table-update!/default hash-table-delete! hash-table-exists? hash-table-walk hash-table-fold alist->hash-table hash-table->alist hash-table-copy
hash-table-merge! hash-table-keys hash-table-values hash-table-size sorted? merge merge! sort sort! assoc member map for-each""".split()
PRE_LIB = PRE.replace("(define eof", "(use srfi-43) (require-extension (srfi 69)) (require-extension (srfi 95))\n(define eof", 1) + '(define ht (make-hash-table equal?)) (hash-table-set! ht 1 2) (hash-table-set! ht "a" \'b)\n'


def gen_lib(s):
    v = s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2]), (1, VARS[3])])
    prog = []
    for i in range(s.range(1, 6)):
        n = s.choice(LIBS)
        args = []
        for j in range(s.range(0, 5)):
            k = s.choice(['f', 'l', 'v', 'i', 'any', 'any'])
            if i and s.bool(1, 5):
                args.append('r%d' % s.below(i))
            elif s.bool(1, 8):
                args.append('ht')
            else:
                args.append(pick(s, k, False, v, False)[0])
        prog.append('(try (lambda () (set! r%d (%s%s))))' % (i, n, ''.join(' ' + e for e in args)))
    return Case('\n'.join(prog), [None] * len(prog), True, tags=[v], variant=v, loose=True, alloc=False, recursive=True)


def check_lib(c, env):
    return check(c, env, PRE_LIB)


# special forms on arbitrary data

KW = ('quote lambda define if set! cond case and or let let* letrec begin do delay quasiquote unquote unquote-splicing define-macro guard and-let* receive define-record-type let-optionals* '
      'cond-expand cut cute case-lambda assert stream-cons match expand-macro undefine the-environment let-vector-start+end require-extension use define-syntax let-syntax letrec-syntax syntax-rules').split()
REDEF = re.compile(r'\((?:define|define-macro|set!|undefine|define-syntax|define-record-type)(?:[ (.]+(?:%s)[ )]|[ (.]*[\'`,])' % '|'.join(re.escape(k) for k in KW))
HYG = {'define-syntax', 'let-syntax', 'letrec-syntax', 'syntax-rules'}
NAMES = ['x', 'y', 'z', 'w', 'foo', '=>', 'else', '...', '_', 'undef']


def g_form(s, depth, kws):
    k = s.below(14 if depth > 0 else 5)
    if k == 0:
        return s.choice(['1', '0', '"s"', '#\\a', '#t', '#f', '()', "'()", '#(1 x)', '-1'])
    if k <= 3:
        return s.choice(NAMES[:5])
    if k == 4:
        return s.choice(NAMES)
    if k <= 7:
        return g_kw(s, depth, kws)
    if k == 8:
        return '(%s)' % ' '.join(g_form(s, depth - 1, kws) for _ in range(s.range(0, 3)))
    if k == 9:
        return '((lambda %s %s) %s)' % (g_formals(s), g_form(s, depth - 1, kws), g_form(s, depth - 1, kws))
    if k == 10:
        return g_bind(s, depth, kws)
    if k == 11:
        return g_formals(s)
    if k == 12:
        return s.choice(["'", '`', ',', ',@']) + g_form(s, depth - 1, kws)
    return '(%s%s . %s)' % (s.choice(NAMES[:5] + kws[:4]), ''.join(' ' + g_form(s, depth - 1, kws) for _ in range(s.range(0, 2))), g_form(s, depth - 1, kws))


def g_formals(s):
    k = s.below(6)
    n = [s.choice(NAMES[:5]) for _ in range(s.range(0, 3))]
    if k <= 2:
        return '(%s)' % ' '.join(n)
    if k == 3:
        return '(%s . %s)' % (' '.join(['x'] + n), s.choice(NAMES[:4] + ['1', '"s"']))
    if k == 4:
        return s.choice(NAMES[:4])
    return '(%s 1 "a" (x))' % ' '.join(n)


def g_bind(s, depth, kws):
    return '(%s)' % ' '.join(s.choice(['(%s %s)', '(%s %s)', '(%s %s)', '(%s %s 1)', '(%s . %s)', '(%s)%s', '%s %s']) % (s.choice(NAMES[:5]), g_form(s, depth - 1, kws)) for _ in range(s.range(0, 3)))


def g_kw(s, depth, kws):
    n = s.choice(kws)
    d = depth - 1
    f = lambda: g_form(s, d, kws)
    if s.bool(1, 4):
        return '(%s%s%s)' % (n, ''.join(' ' + f() for _ in range(s.range(0, 4))), s.choice(['', '', '', ' . 1', ' . x', ' . "s"']))
    if n in ('lambda',):
        return '(%s %s %s)' % (n, g_formals(s), f())
    if n in ('define', 'set!', 'undefine', 'define-macro'):
        if s.bool():
            return '(%s %s %s)' % (n, s.choice(NAMES[:5]), f())
        return '(%s (%s . %s) %s)' % (n, s.choice(NAMES[:5]), g_formals(s), f())
    if n in ('let', 'let*', 'letrec', 'and-let*', 'let-syntax', 'letrec-syntax', 'let-optionals*'):
        pre = ''
        if n == 'let' and s.bool(1, 3):
            pre = s.choice(NAMES[:5] + ['1']) + ' '
        if n == 'let-optionals*':
            pre = s.choice([f(), f(), "'(1 . 2)", "'(1 2 . x)", "(cons 1 x)", "'(1 2 3)", "z", "(list x)"]) + ' '
        return '(%s %s%s%s)' % (n, pre, g_bind(s, d, kws), ''.join(' ' + f() for _ in range(s.range(0, 2))))
    if n in ('cond', 'guard', 'case', 'cond-expand', 'match', 'case-lambda'):
        cl = []
        for _ in range(s.range(0, 3)):
            cl.append('(%s%s)' % (s.choice([f(), 'else', '(1 x foo)', '#t', g_formals(s)]), ''.join(' ' + s.choice([f(), f(), '=>', '=> car', 'x']) for _ in range(s.range(0, 2)))))
        head = {'guard': '(%s %s)' % (s.choice(NAMES[:3] + ['1']), ' '.join(cl)), 'case': f() + ' ' + ' '.join(cl), 'match': f() + ' ' + ' '.join(cl)}.get(n, ' '.join(cl))
        return '(%s %s%s)' % (n, head, ' ' + f() if n == 'guard' else '')
    if n == 'do':
        return '(do (%s) (%s %s) %s)' % (' '.join(s.choice(['(%s %s %s)', '(%s %s)%.0s', '%s %s %s']) % (s.choice(NAMES[:4]), f(), f()) for _ in range(s.range(0, 2))), s.choice(['#t', f()]), f(), f())
    if n == 'receive':
        return '(receive %s %s %s)' % (g_formals(s), s.choice([f(), '(values 1 2)', '(values)']), f())
    if n == 'define-record-type':
        return '(define-record-type %s %s %s %s)' % (s.choice(['x', '(x)', '1']), s.choice(['(foo x y)', 'foo', '#f', '(foo . x)', f()]), s.choice(['w', '1', f()]), s.choice(['(x z)', '(x z y)', 'x', '(x)', '', '(1 2 3)', f()]))
    if n == 'syntax-rules':
        return '(syntax-rules %s %s)' % (s.choice(['()', '(else)', '(x . y)', 'x', '(1)', '(...)']), ' '.join('(%s %s)' % (f(), f()) for _ in range(s.range(0, 2))))
    if n in ('require-extension', 'use', 'cond-expand'):
        return '(%s %s)' % (n, s.choice(['srfi-1', '(srfi 1)', '(srfi 1 . 2)', '(srfi)', '(srfi x)', 'foo', '1', '"x"', '(x)', '(srfi -1)', f()]))
    return '(%s%s)' % (n, ''.join(' ' + f() for _ in range(s.range(0, 4))))


VARS2 = VARS + ['hygienic-san', 'hygienic-opt']
PRE2 = '(define (cut . x) x)\n' + PRE + '(define x 1) (define y (list 1 2)) (define z (lambda a a)) (define w "w")\n'


def gen_syntax(s):
    v = s.weighted([(4, VARS[0]), (2, VARS[1]), (2, VARS[2]), (1, VARS[3]), (3, VARS2[4]), (1, VARS2[5])])
    kws = [k for k in KW if v.startswith('hygienic') or k not in HYG]
    if v.startswith('hygienic') and s.bool():
        kws = kws + ['define-syntax', 'syntax-rules', 'let-syntax', 'letrec-syntax'] * 4
    prog = []
    for _ in range(s.range(1, 3)):
        prog.append('(try (lambda () (set! r0 (eval (quote %s) (interaction-environment)))))' % g_kw(s, s.range(1, 4), kws))
    prog.append('(write/ss (list r0) (open-output-string))')
    return Case('\n'.join(prog), [None] * (len(prog) - 1), True, tags=[v], variant=v, loose=True, alloc=False, recursive=True)


def check_syntax(c, env):
    return check(c, env, PRE2)


PARTS = [Part('procedures', gen, check, 10000, 300000, variants=VARS, batch=25),
         Part('libraries', gen_lib, check_lib, 5000, 150000, variants=VARS, batch=25),
         Part('syntax', gen_syntax, check_syntax, 8000, 300000, variants=VARS2, batch=25)]
