"""Strings and characters against lists of code values, in every encoding."""
from vlib.engine import Part
from vlib.lines import Lines, check_lines
from vlib.mb import ENCS, enc_char, encode, g_code

ID = 'P09'
RULE = 'the history mutates or slices a string that mixes character widths, compares strings, or addresses a position out of range'
ASSUMPTIONS = ['case mapping and character classes are defined for ASCII only (doc/multibyte.txt); strings cannot hold NUL in this configuration']
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']
PRE = '''
(define (o s) (list (string-length s) (map char->integer (string->list s))))
(define (r s) (let loop ((i (- (string-length s) 1)) (l '())) (if (negative? i) l (loop (- i 1) (cons (char->integer (string-ref s i)) l)))))
(define (n . l) (list->string (map integer->char l)))
(define i2c integer->char)
'''
NV = 5


def ints(l):
    return '(%s)' % ' '.join(map(str, l))


def bl(b):
    return '#t' if b else '#f'


def down(c):
    return c + 32 if 65 <= c <= 90 else c


def up(c):
    return c - 32 if 97 <= c <= 122 else c


def charlit(s, enc, c):
    if s.bool(1, 3) and (0x21 <= c <= 0x7e or c > 0x7f):
        return b'#\\' + enc_char(enc, c)
    return b'(i2c %d)' % c


def strlit(s, enc, l):
    """-> (source bytes, literal?)"""
    if s.bool() and all(c >= 0x20 and c != 0x7f for c in l):
        return b'"' + b''.join(b'\\' + bytes([c]) if c in (0x22, 0x5c) else enc_char(enc, c) for c in l) + b'"', True
    return ('(n %s)' % ' '.join(map(str, l))).encode(), False


class S:
    """a string object"""
    def __init__(self, l, const=False):
        self.l, self.const = list(l), const


def g_codes(s, enc, mx=8):
    if s.bool(1, 6):
        c = g_code(s, enc)
        return [c] * s.size(mx)
    return [g_code(s, enc) for _ in range(s.size(mx))]


def idx(s, n):
    """index argument, sometimes out of range"""
    if n and not s.bool(1, 8):
        return s.below(n)
    return s.choice([n, -1, n + 1, 1 << 31, -(1 << 32), (1 << 32), 1 << 40, n * 2 + 3])


def gen(s):
    variant = s.weighted([(5, VARS[0]), (2, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    enc = s.choice(ENCS)
    L = Lines()
    V = [None] * NV
    for i in range(NV):
        l = g_codes(s, enc)
        src, const = strlit(s, enc, l)
        V[i] = S(l, const)
        L.add(b'(define s%d %s)' % (i, src), '=> s%d' % i)
    mixed = lambda l: any(c > 127 for c in l) and len({len(enc_char(enc, c)) for c in l}) > 1
    for _ in range(s.range(1, 22)):
        i = s.below(NV)
        x = V[i]
        n = len(x.l)
        op = s.below(27)
        if op <= 4:
            # string-set!
            k = idx(s, n)
            c = g_code(s, enc) if not s.bool(1, 30) else 0
            t = b'(begin (string-set! s%d %d %s) (o s%d))' % (i, k, charlit(s, enc, c), i)
            bad = x.const or not 0 <= k < n or c == 0
            was = mixed(x.l) or c > 127
            if not bad:
                x.l[k] = c
            L.add(t, '!E' if bad else '=> ' + '(%d %s)' % (n, ints(x.l)), 'string-set!', was or bad)
            if bad:
                L.add(b'(o s%d)' % i, '=> (%d %s)' % (n, ints(x.l)))
        elif op <= 6:
            a, b = idx(s, n + 1), idx(s, n + 1)
            if s.bool(5, 6) and a > b:
                a, b = b, a
            bad = not 0 <= a <= b <= n
            j = s.below(NV)
            if bad:
                L.add(b'(define s%d (substring s%d %d %d))' % (j, i, a, b), '!E', 'substring', True)
            else:
                V[j] = S(x.l[a:b])
                L.add(b'(define s%d (substring s%d %d %d))' % (j, i, a, b), '=> s%d' % j, 'substring', mixed(x.l))
                L.add(b'(o s%d)' % j, '=> (%d %s)' % (len(V[j].l), ints(V[j].l)))
        elif op <= 8:
            ks = [s.below(NV) for _ in range(s.below(5))]
            j = s.below(NV)
            V[j], args = S(sum((V[k].l for k in ks), [])), [V[k] for k in ks]
            if len(V[j].l) > 120:
                V[j].l = []
                ks = []
            L.add(b'(define s%d (string-append%s))' % (j, b''.join(b' s%d' % k for k in ks)), '=> s%d' % j, 'string-append', mixed(V[j].l))
        elif op == 9:
            j = s.below(NV)
            V[j] = S(x.l)
            L.add(b'(define s%d (string-copy s%d))' % (j, i), '=> s%d' % j, 'string-copy')
        elif op == 10:
            j = s.below(NV)
            V[j] = x
            L.add(b'(define s%d s%d)' % (j, i), '=> s%d' % j, 'alias')
        elif op == 11:
            c = g_code(s, enc) if not s.bool(1, 20) else 0
            bad = x.const or (c == 0 and n)
            if not bad:
                x.l[:] = [c] * n
            L.add(b'(begin (string-fill! s%d %s) (o s%d))' % (i, charlit(s, enc, c), i),
                  '!E' if bad else '=> (%d %s)' % (n, ints(x.l)), 'string-fill!', n > 0)
        elif op == 12:
            k = idx(s, n)
            L.add(b'(char->integer (string-ref s%d %d))' % (i, k), '=> %d' % x.l[k] if 0 <= k < n else '!E', 'string-ref',
                  mixed(x.l) or not 0 <= k < n)
        elif op == 13:
            L.add(b'(r s%d)' % i, '=> ' + ints(x.l))
        elif op == 14:
            m = s.choice([0, 1, 2, 3, 7, 40, -1])
            c = g_code(s, enc)
            j = s.below(NV)
            if m < 0:
                L.add(b'(make-string %d %s)' % (m, charlit(s, enc, c)), '!E', 'make-string', True)
            elif s.bool(1, 4):
                L.add(b'(string-length (make-string %d))' % m, '=> %d' % m)
            else:
                V[j] = S([c] * m)
                L.add(b'(define s%d (make-string %d %s))' % (j, m, charlit(s, enc, c)), '=> s%d' % j, 'make-string')
        elif op == 15:
            l = g_codes(s, enc)
            j = s.below(NV)
            V[j] = S(l)
            L.add(b'(define s%d (string%s))' % (j, b''.join(b' ' + charlit(s, enc, c) for c in l)), '=> s%d' % j, 'string')
        elif op == 16:
            j = s.below(NV)
            rev = s.bool()
            V[j] = S(x.l[::-1] if rev else x.l)
            L.add(b'(define s%d (list->string (%s (string->list s%d))))' % (j, b'reverse' if rev else b'append', i), '=> s%d' % j,
                  'list->string', mixed(x.l))
        elif op == 17:
            # symbols
            j = s.below(NV)
            y = V[j]
            L.add(b'(list (eq? (string->symbol s%d) (string->symbol (string-copy s%d))) (eq? (string->symbol s%d) (string->symbol s%d)) '
                  b'(o (symbol->string (string->symbol s%d))))' % (i, i, i, j, i),
                  '=> (#t %s (%d %s))' % (bl(x.l == y.l), n, ints(x.l)), 'symbol', mixed(x.l))
        elif op == 18:
            l = g_codes(s, enc)
            at = s.below(len(l) + 1)
            bad = s.choice([b'97', b'"a"', b"'a", b"'()", b'#t'])
            cs = [charlit(s, enc, c) for c in l]
            cs[at:at] = [bad]
            L.add((b'(string %s)' if s.bool() else b'(list->string (list %s))') % b' '.join(cs), '!E', 'ill-typed', True)
        elif op == 19:
            L.add(b'(list (string? s%d) (string-length s%d) (equal? s%d (string-copy s%d)) (eq? s%d s%d))' % ((i,) * 6),
                  '=> (#t %d #t #t)' % n)
        else:
            j = s.below(NV)
            k = s.below(4)
            if k == 0:
                # a near twin, to reach all comparison outcomes
                l = list(x.l)
                q = s.below(5)
                if l and q == 0:
                    p = s.below(len(l))
                    l[p] = g_code(s, enc)
                elif l and q == 1:
                    l.pop()
                elif l and q == 2:
                    p = s.below(len(l))
                    l[p] = down(l[p]) if s.bool() else up(l[p])
                elif q == 3:
                    l.append(g_code(s, enc))
                V[j] = S(l)
                L.add(b'(define s%d (n %s))' % (j, ' '.join(map(str, l)).encode()), '=> s%d' % j)
            y = V[j]
            a, b = V[i].l, y.l
            ad, bd = list(map(down, a)), list(map(down, b))
            res = [a == b, a < b, a > b, a <= b, a >= b, ad == bd, ad < bd, ad > bd, ad <= bd, ad >= bd, a == b]
            L.add(b'(map (lambda (f) (f s%d s%d)) (list string=? string<? string>? string<=? string>=? string-ci=? string-ci<? '
                  b'string-ci>? string-ci<=? string-ci>=? equal?))' % (i, j), '=> (%s)' % ' '.join(map(bl, res)), 'compare',
                  len(a) > 0 and len(b) > 0)
    for i in range(NV):
        L.add(b'(o s%d)' % i, '=> (%d %s)' % (len(V[i].l), ints(V[i].l)))
        L.add(b'(display s%d)' % i, encode(enc, V[i].l).replace(b'\n', b'') + b'=> #<undef>') if 10 not in V[i].l else None
    return L.case(tags=[enc, variant], variant=variant, enc=enc)


def check(c, env):
    return check_lines(c, env, preload=PRE, enc=c.enc)


CP = ['char-alphabetic?', 'char-numeric?', 'char-whitespace?', 'char-upper-case?', 'char-lower-case?']


def gen_chars(s):
    variant = s.weighted([(5, VARS[0]), (2, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    enc = s.choice(ENCS)
    L = Lines()
    for _ in range(s.range(1, 12)):
        k = s.below(6)
        if k == 0:
            # integer->char accepts exactly the code values of the encoding
            j = s.below(6)
            v = s.below(300) if j == 0 else s.below(0x12000) if j == 1 else s.below(0x1000000) if j == 2 else g_code(s, enc) if j == 3 else \
                s.choice([-1, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 1 << 31, (1 << 32) + 65, -(1 << 32) + 65,
                          0x7f, 0x80, 0xff, 0x100, 1 << 24, (1 << 40) + 0x41, 0]) if j == 4 else \
                g_code(s, enc) + s.choice([0x100, -0x100, 0x10000, 1 << 24, 0x80, -0x80, 1, -1])
            if enc == 'EUC-JP' and any(x in (0xa0, 0xff) for x in (v & 0xff, v >> 8 & 0xff)):
                v = 0xa1a1
            if enc in ('EUC-KR', 'EUC-CN', 'EUC-JP') and v & 0xff in (0xa0, 0xff):
                v = 0xa1a1
            if enc == 'EUC-JP' and v >> 8 == 0x8e and v & 0xff > 0xdf:
                v = 0xa1a1
            if enc == 'Shift_JIS' and v in (0x80, 0xa0, 0xfd, 0xfe, 0xff):
                v = 0x41
            ok = enc_char(enc, v) is not None
            L.add('(char->integer (integer->char %d))' % v, '=> %d' % v if ok else '!E', 'integer->char', not ok or v > 127)
            continue
        a = g_code(s, enc)
        if k == 1:
            L.add('(let ((c (i2c %d))) (list %s))' % (a, ' '.join('(%s c)' % p for p in CP)),
                  '=> (%s)' % ' '.join(map(bl, [65 <= a <= 90 or 97 <= a <= 122, 48 <= a <= 57, a == 32 or 9 <= a <= 13,
                                                65 <= a <= 90, 97 <= a <= 122])), 'class', a > 127)
        elif k == 2:
            L.add('(let ((c (i2c %d))) (map char->integer (list (char-upcase c) (char-downcase c))))' % a,
                  '=> (%d %d)' % (up(a), down(a)), 'case', a > 127)
        else:
            q = s.below(4)
            b = a if q == 0 else g_code(s, enc) if q == 1 else up(a) if q == 2 else down(a)
            if q >= 2 and s.bool(1, 3):
                a, b = b, a
            ad, bd = down(a), down(b)
            res = [a == b, a < b, a > b, a <= b, a >= b, ad == bd, ad < bd, ad > bd, ad <= bd, ad >= bd, a == b, a == b]
            L.add('(let ((a (i2c %d)) (b (i2c %d))) (map (lambda (f) (f a b)) (list char=? char<? char>? char<=? char>=? char-ci=? char-ci<? '
                  'char-ci>? char-ci<=? char-ci>=? eqv? equal?)))' % (a, b), '=> (%s)' % ' '.join(map(bl, res)), 'compare', a > 127 or b > 127)
    return L.case(tags=[enc, variant], variant=variant, enc=enc)


# ---- long strings, marked characters at and around the powers of two
def gen_large(s):
    v = s.choice(VARS)
    mx = 20000 if 'san' in v else 140000
    n = min(mx, s.choice([255, 256, 1024, 4096, 32767, 32768, 65535, 65536, 65537, 70000, 131072]) + s.below(3))
    L = Lines()
    b = s.choice([97, 97, 233, 0x6f22, 0x1f600])
    L.add('(define st (make-string %d (integer->char %d)))' % (n, b), '=> st', 'make-string', False)
    t = [b] * n
    pick = lambda: min(len(t) - 1, s.choice([0, len(t) - 1, len(t) // 2, s.below(len(t)), 255, 256, 32768, 65535, 65536]))
    for _ in range(s.range(2, 7)):
        k = s.below(8)
        if k <= 3:
            i, x = pick(), s.choice([98, 99, 0xe8, 0x3042, 0x1f601])
            t[i] = x
            L.add('(begin (string-set! st %d (integer->char %d)) 0)' % (i, x), '=> 0', 'string-set!', True)
        elif k == 4:
            a, e = sorted([s.choice([0, pick()]), s.choice([len(t), pick()])])
            if e - a < 2:
                continue
            t = t[a:e]
            L.add('(begin (set! st (substring st %d %d)) (string-length st))' % (a, e), '=> %d' % len(t), 'substring', True)
        elif k == 5 and len(t) * 2 <= mx:
            i = pick()
            t = t[:i] + t
            L.add('(begin (set! st (string-append (substring st 0 %d) st)) (string-length st))' % i, '=> %d' % len(t), 'string-append', True)
        elif k == 6:
            L.add('(begin (set! st (list->string (string->list st))) (string-length st))', '=> %d' % len(t), 'list->string', True)
        elif k == 7:
            i, x = pick(), t[0] + s.choice([-1, 1])
            u = list(t)
            u[i] = x
            L.add('(let ((u (string-copy st))) (string-set! u %d (integer->char %d)) (list (string=? u st) (string<? u st) (string>? u st) (equal? st (string-copy st))))' % (i, x),
                  '=> (%s %s %s #t)' % tuple('#t' if q else '#f' for q in (u == t, u < t, u > t)), 'compare', True)
        j = pick()
        L.add('(list (char->integer (string-ref st %d)) (string-length st))' % j, '=> (%d %d)' % (t[j], len(t)), 'string-ref', True)
    L.add('(let lp ((l (string->list st)) (k 0) (r 0)) (if (null? l) (list k r) (lp (cdr l) (+ k 1) (+ r (char->integer (car l))))))',
          '=> (%d %d)' % (len(t), sum(t)), 'sum', True)
    return L.case(tags=[v], variant=v)


def check_large(c, env):
    return check_lines(c, env, stack_mb=200)


PARTS = [Part('large', gen_large, check_large, 150, 5000, variants=VARS),
         Part('strings', gen, check, 16000, 400000, variants=VARS), Part('chars', gen_chars, check, 16000, 300000, variants=VARS)]
