"""Character encodings against Python's codecs, malformed input, and switching of the current codec."""
import os
from vlib.engine import Part
from vlib.lines import Lines, check_lines
from vlib.mb import ENCS

ID = 'P16'
RULE = 'the text has a multibyte character of the encoding, a malformed sequence, or a codec switch'
ASSUMPTIONS = ["Python's euc_jp, shift_jis, euc_kr, gb2312, latin-1 and utf-8 codecs define the encodings"]
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']
PY = {'UTF-8': 'utf-8', 'EUC-JP': 'euc_jp', 'Shift_JIS': 'shift_jis', 'EUC-KR': 'euc_kr', 'EUC-CN': 'gb2312', 'ISO-8859-1': 'latin-1'}
RANGES = [(0x3041, 0x3093), (0x30a1, 0x30f6), (0x4e00, 0x9fa5), (0xac00, 0xd7a3), (0xff61, 0xff9f), (0xa0, 0xff), (0x410, 0x44f),
          (0x391, 0x3c9), (0x2500, 0x254b), (0x1f600, 0x1f64f), (0x10000, 0x10010), (0x20000, 0x20010), (0xff01, 0xff5e), (0xe000, 0xe010),
          (0x7f0, 0x810), (0xfff0, 0xfffd), (0x10fff0, 0x10ffff)]


def alphabet(enc):
    a = []
    for lo, hi in RANGES:
        g = []
        for c in range(lo, hi + 1):
            try:
                b = chr(c).encode(PY[enc])
            except UnicodeEncodeError:
                continue
            if len(b) > (4 if enc == "UTF-8" else 3) or len(b) == 1 and b[0] < 0x80:
                continue
            g.append(c)
        if g:
            a.append(g)
    return a


ALPHA = {e: alphabet(e) for e in ENCS}


def code(enc, c):
    return ord(c) if enc == 'UTF-8' else int.from_bytes(c.encode(PY[enc]), 'big')


def g_text(s, enc, mx=10):
    t = []
    for _ in range(s.size(mx)):
        if s.bool(1, 4):
            t.append(chr(s.range(0x20, 0x7e)))
        else:
            t.append(chr(s.choice(s.choice(ALPHA[enc]))))
    return ''.join(t)


def ints(l):
    return '(%s)' % ' '.join(map(str, l))


PRE = '''
(use srfi-6)
(define (o s) (list (string-length s) (map char->integer (string->list s))))
(define (rd p) (let ((c (read-char p))) (if (eof-object? c) '() (let ((r (rd p))) (cons (char->integer c) r)))))
(define (rp p) (let ((c (peek-char p))) (if (eof-object? c) '() (begin (read-char p) (cons (char->integer c) (rp p))))))
(define (wc l p) (for-each (lambda (i) (write-char (integer->char i) p)) l))
(define (trd p k) (let ((c (guard (e (#t 'err)) (read-char p)))) (cond ((eq? c 'err) (k '(err))) ((eof-object? c) (k '())) (else (trd p (lambda (r) (k (cons (char->integer c) r))))))))
(define (id x) x)
'''


def lit(t, enc):
    return b'"' + b''.join((b'\\' if c in '"\\' else b'') + c.encode(PY[enc]) for c in t) + b'"'


def gen_text(s):
    variant = s.weighted([(5, VARS[0]), (2, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    enc = s.choice(ENCS)
    L = Lines()
    files, outs = [], []
    for n in range(s.range(1, 6)):
        t = g_text(s, enc, 30 if s.bool(1, 4) else 8)
        cs = [code(enc, c) for c in t]
        k = s.below(9)
        nt = any(ord(c) > 127 for c in t)
        if k == 0:
            L.add(b'(o ' + lit(t, enc) + b')', '=> (%d %s)' % (len(t), ints(cs)), 'literal', nt)
        elif k == 1:
            L.add(b'(display ' + lit(t, enc) + b')', t.encode(PY[enc]) + b'=> #<undef>', 'display', nt)
        elif k == 2:
            L.add(b'(%s (open-input-string %s))' % (s.choice([b'rd', b'rp']), lit(t, enc)), '=> ' + ints(cs), 'string-port', nt)
        elif k == 3:
            L.add(b"(let ((p (open-output-string))) (wc '%s p) (o (get-output-string p)))" % ints(cs).encode(),
                  '=> (%d %s)' % (len(t), ints(cs)), 'string-out', nt)
        elif k == 4:
            files.append(('i%d' % n, t.encode(PY[enc])))
            L.add(b'(call-with-input-file "@D@/i%d" %s)' % (n, s.choice([b'rd', b'rp'])), '=> ' + ints(cs), 'file-in', nt)
        elif k == 5:
            outs.append(('o%d' % n, t.encode(PY[enc])))
            how = b'(display %s p)' % lit(t, enc) if s.bool() else b"(wc '%s p)" % ints(cs).encode()
            L.add(b'(call-with-output-file "@D@/o%d" (lambda (p) %s 1))' % (n, how), '=> 1', 'file-out', nt)
        elif k == 6:
            a = s.below(len(t) + 1)
            b = a + s.below(len(t) - a + 1)
            L.add(b'(o (substring %s %d %d))' % (lit(t, enc), a, b), '=> (%d %s)' % (b - a, ints(cs[a:b])), 'substring', nt)
        elif k == 7:
            # read from a file as a datum
            ch = t[0] if t[:1].strip() and code(enc, t[0]) != 0xa0 else 'x'
            files.append(('i%d' % n, b"(a " + lit(t, enc) + b" #\\" + ch.encode(PY[enc]) + b")"))
            ch = code(enc, ch)
            L.add(b'(let ((d (call-with-input-file "@D@/i%d" read))) (list (o (cadr d)) (char->integer (caddr d))))' % n,
                  '=> ((%d %s) %d)' % (len(t), ints(cs), ch), 'read', nt)
        else:
            # an identifier-like symbol (UTF-8 only: scm_identifier_codec)
            L.add(b'(o (symbol->string (string->symbol %s)))' % lit(t, enc), '=> (%d %s)' % (len(t), ints(cs)), 'symbol', nt)
    return L.case(tags=[enc, variant], variant=variant, enc=enc, files=files, outs=outs)


def g_bad(s, enc):
    """a byte sequence whose first character is malformed in enc"""
    if enc == 'UTF-8':
        k = s.below(9)
        if k == 0:
            return bytes([s.range(0x80, 0xbf)])
        if k == 1:
            return bytes([s.range(0xf5, 0xff)]) + b'\x80\x80\x80'
        if k == 2:
            c = chr(s.choice(s.choice(ALPHA[enc]))).encode('utf-8')
            return c[:s.range(1, len(c) - 1)] + bytes([s.choice([0x41, 0x20, 0x7f, 0xc3, 0xe3, 0xff])]) + b'aaa'
        if k == 3:
            return bytes([s.choice([0xc0, 0xc1]), s.range(0x80, 0xbf)])
        if k == 4:
            return bytes([0xe0, s.range(0x80, 0x9f), s.range(0x80, 0xbf)])
        if k == 5:
            return bytes([0xf0, s.range(0x80, 0x8f), s.range(0x80, 0xbf), s.range(0x80, 0xbf)])
        if k == 6:
            return bytes([0xed, s.range(0xa0, 0xbf), s.range(0x80, 0xbf)])
        if k == 7:
            return bytes([0xf4, s.range(0x90, 0xbf), s.range(0x80, 0xbf), s.range(0x80, 0xbf)])
        return bytes([0xfe + s.below(2)])
    if enc == 'Shift_JIS':
        return bytes([s.choice([0x81, 0x88, 0x9f, 0xe0, 0xef, 0xfc]), s.choice([0x20, 0x3f, 0x7f, 0xfd, 0xff, 0x0a])]) + b'a'
    if enc == 'EUC-JP' and s.bool(1, 3):
        return s.choice([bytes([0x8f, s.range(0xa1, 0xfe), s.range(0x20, 0x7e)]), bytes([0x8f, s.range(0x20, 0x7e), 0x41]),
                         bytes([0x8e, s.range(0x20, 0x7e)])]) + b'a'
    if s.bool(1, 3):
        return bytes([s.choice([0x80, 0x81, 0x8d, 0x90, 0x9f, 0xa0, 0xff])]) + b'aa'
    return bytes([s.range(0xa1, 0xfe), s.range(0x20, 0x7e)]) + b'aa'


def gen_bad(s):
    variant = s.weighted([(4, VARS[0]), (2, VARS[1]), (2, VARS[2]), (1, VARS[3])])
    enc = s.choice(ENCS[:5])
    L = Lines()
    files = []
    for n in range(s.range(1, 4)):
        t = g_text(s, enc, 6)
        cs = [code(enc, c) for c in t]
        bad = g_bad(s, enc)
        files.append(('i%d' % n, t.encode(PY[enc]) + bad))
        k = s.below(3)
        if k == 0:
            L.add(b'(call-with-input-file "@D@/i%d" (lambda (p) (trd p id)))' % n, '=> (%s)' % ' '.join(map(str, cs + ['err'])), 'read-char', True)
        elif k == 1:
            files[-1] = ('i%d' % n, lit(t, enc)[:-1] + bad + b'"')
            L.add(b'(call-with-input-file "@D@/i%d" read)' % n, '!E', 'read', True)
        else:
            files[-1] = ('i%d' % n, t.replace(' ', '').encode(PY[enc])[:0] + b'(a . ' + bad + b')')
            L.add(b'(call-with-input-file "@D@/i%d" read)' % n, '!E', 'read-token', True)
    return L.case(tags=[enc, variant], variant=variant, enc=enc, files=files, outs=[])


def gen_switch(s):
    """nested codec switches; strings keep their bytes, ports keep the codec they were opened in"""
    variant = s.weighted([(5, VARS[0]), (2, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    L = Lines()
    cnt = [0]
    state = ['UTF-8']

    def use(enc):
        """expression observing the current codec through string operations"""
        t = g_text(s, enc, 5)
        return '(o (n %s))' % ' '.join(str(code(enc, c)) for c in t), '(%d %s)' % (len(t), ints(code(enc, c) for c in t))

    def body(depth):
        """-> (expression, printed value, raises?)"""
        enc = state[0]
        k = s.below(7 if depth else 4)
        if k == 0:
            return '(%%current-char-codec)', enc, False
        if k == 1:
            a, b = use(enc)
            return a, b, False
        if k == 2:
            # only characters that the codec lacks raise
            v = {'UTF-8': 0xd800, 'EUC-JP': 0x3042, 'EUC-CN': 0x3042, 'EUC-KR': 0x3042, 'Shift_JIS': 0x8120, 'ISO-8859-1': 0x3042}[enc]
            return '(guard (e (#t (%%%%current-char-codec))) (integer->char %d))' % v, enc, False
        if k == 3:
            e = s.choice(ENCS)
            state[0] = e
            return '(%%%%set-current-char-codec! "%s")' % e, e, False
        if k == 4:
            e = s.choice(ENCS)
            old = state[0]
            state[0] = e
            xs = [body(depth - 1) for _ in range(s.range(1, 3))]
            state[0] = old
            out = '(with-char-codec "%s" (lambda () (list%s)))' % (e, ''.join(' ' + x[0] for x in xs))
            return seq(out, xs, e)
        if k == 5:
            e = s.choice(ENCS)
            old = state[0]
            state[0] = e
            x = body(depth - 1)
            state[0] = old
            return '(list (guard (e (#t e)) (with-char-codec "%s" (lambda () %s (raise 1)))) (%%%%current-char-codec))' % (e, x[0]), \
                '(1 %s)' % old, False
        e = s.choice(ENCS)
        old = state[0]
        state[0] = e
        x = body(depth - 1)
        state[0] = old
        return '(list (call/cc (lambda (k) (with-char-codec "%s" (lambda () (k %s))))) (%%%%current-char-codec))' % (e, x[0]), \
            '(%s %s)' % (x[1], old), False

    def seq(out, xs, e):
        return out, '(%s)' % ' '.join(x[1] for x in xs), False

    for _ in range(s.range(1, 7)):
        k = s.below(6)
        if k <= 2:
            # operands are evaluated left to right (checked by P01)
            x = body(3)
            L.add('(display %s)' % x[0], x[1] + '=> #<undef>', 'nest', True)
        elif k == 3:
            # a port reads in the codec it was opened in
            e1, e2 = s.choice(ENCS), s.choice(ENCS)
            t = g_text(s, e1, 6)
            cs = [code(e1, c) for c in t]
            cut = s.below(len(cs) + 1)
            L.add("(let ((p (with-char-codec \"%s\" (lambda () (open-input-string (n %s)))))) (let loop ((i 0) (l '())) (if (= i %d) "
                  "(with-char-codec \"%s\" (lambda () (append (reverse l) (rd p)))) (loop (+ i 1) (cons (char->integer (read-char p)) l)))))"
                  % (e1, ' '.join(map(str, cs)), cut, e2), '=> ' + ints(cs), 'port-codec', True)
        elif k == 4:
            # a string keeps its bytes; its length is recounted on request
            e1, e2 = s.choice(ENCS), s.choice(ENCS)
            t = g_text(s, e1, 6)
            try:
                u = t.encode(PY[e1]).decode(PY[e2])
                if e2 == 'Shift_JIS' and u.encode('shift_jis') != t.encode(PY[e1]):
                    continue
            except (UnicodeDecodeError, UnicodeEncodeError):
                continue
            L.add('(let ((x (with-char-codec "%s" (lambda () (n %s))))) (with-char-codec "%s" (lambda () (%%%%string-reconstruct! x) (o x))))'
                  % (e1, ' '.join(str(code(e1, c)) for c in t), e2), '=> (%d %s)' % (len(u), ints(code(e2, c) for c in u)), 'reconstruct', True)
        else:
            L.add('(%%set-current-char-codec! "%s")' % s.choice(['utf8', 'UTF8', '', 'EUC', 'Shift-JIS', 'ISO-8859-2', 'UTF-16']), '!E', 'unknown', True)
    return L.case(tags=[variant], variant=variant, enc=None, files=[], outs=[])


def check(c, env):
    d = env.dir()
    for n, b in c.files:
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b)
    text = c.text
    c.text = text.replace(b'@D@', d.encode())
    kw = {'enc': c.enc} if c.enc else {}
    try:
        why = check_lines(c, env, preload=PRE + '(define (n . l) (list->string (map integer->char l)))\n', **kw)
    finally:
        c.text = text
    if why:
        return why
    for n, b in c.outs:
        p = os.path.join(d, n)
        got = open(p, 'rb').read()
        os.unlink(p)
        if got != b:
            return 'file written as %r instead of %r' % (got, b)


PARTS = [Part('text', gen_text, check, 14000, 300000, variants=VARS), Part('malformed', gen_bad, check, 8000, 150000, variants=VARS),
         Part('switch', gen_switch, check, 10000, 200000, variants=VARS)]
