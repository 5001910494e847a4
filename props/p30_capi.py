"""The services of the C API: formatting, numbers, lists, pointers, and ports on the client's own streams."""
from vlib import mb
from vlib.engine import Part
from vlib.gen import *
from vlib.lines import Lines, check_lines
from props import p18_format as F

ID = 'P30'
RULE = ('format: two directives, one of them a raw C one; values: a border value or an improper list; '
        'ports: an operation finds a char partly available, the end, a closed port or bytes moved by the client')
ASSUMPTIONS = ['C arguments have the types their directives name; missing arguments are the caller\'s fault',
               'machine words are passed as the x86-64 calling convention passes integers and pointers']
VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san', 'fatty-san']
GCS = ['compact-gcs', 'fatty-gcs']
PRE = '''(use srfi-6) (use srfi-34) (use srfi-48) (define o 0)
(define cl (list 1 2)) (set-cdr! (cdr cl) cl)
(define sh (let ((x (list 1))) (list x x)))
(define (ch c) (if (eof-object? c) 'eof (char->integer c)))
(define (churn n) (if (= n 0) 'ok (begin (make-vector 2 n) (churn (- n 1)))))
(define (what e) (list (%%error-object? e) (cadr e) (caddr e)))
'''


def variant(s):
    return s.weighted([(5, VARS[0]), (3, VARS[1]), (1, VARS[2]), (1, VARS[3]), (1, VARS[4])])


def word(s, bits):
    k = s.below(5)
    if k <= 1:
        return s.range(-20, 300)
    if k == 2:
        return s.choice([0, -1, 1, (1 << (bits - 1)) - 1, -(1 << (bits - 1)), 1 << (bits // 2), -(1 << (bits // 2))])
    v = s.below(1 << (1 + s.below(bits - 1)))
    return -v if k == 4 else v


# ---------------------------------------------------------------- format
CAPS = {1: '', 3: '28', 7: '48', 31: '+'}


class CArg:
    def __init__(self, t, v):
        self.t, self.v = t, v

    def text(self):
        return '(cons "%s" %s)' % (self.t, write_str(self.v) if self.t == 's' else '"%d"' % self.v)


def raw(f, i, pop):
    c = f[i:i + 1]
    if c == 'C':
        return i + 1, chr(pop().v)
    if c == 'P':
        return i + 1, '0x%016x' % (pop().v & (1 << 64) - 1)

    def width(i):
        j = i
        while j < len(f) and f[j] in '0123456789' and j - i < 4:
            j += 1
        if j > i and int(f[i:j]) > 127:
            raise F.Err('width')
        return j, int(f[i:j]) if j > i else -1
    pad, j = ' ', i
    if c == '0':
        pad, j = '0', i + 1
    j, w = width(j)
    if f[j:j + 1] == ',':
        if w < 0:
            raise F.Err(',')
        j, fr = width(j + 1)
        if fr < 0:
            raise F.Err(',')
    if f[j:j + 1] == 'S':
        return j + 1, pop().v.rjust(max(0, w))
    bits = 32
    m = f[j:j + 1]
    if m and m in 'WMLQJTZ':
        bits = 32 if m == 'W' else 64
        j += 1
    d = f[j:j + 1]
    if not d or d not in 'UDXOB':
        return None
    v = pop().v & (1 << bits) - 1
    if d == 'D' and v >> (bits - 1):
        v -= 1 << bits
    return j + 1, F.num(v, {'U': 10, 'D': 10, 'X': 16, 'O': 8, 'B': 2}[d], w, pad)


def g_text(s, n=8):
    return ''.join(c for c in g_str(s, n) if c != '\0')


def g_format(s, v, cap):
    """-> (format string, arguments, number of raw directives)"""
    f, args, nraw = '', [], 0
    last = False          # the text so far ends with a newline: True, False or None for unknown
    for _ in range(s.range(1, 7)):
        k = s.below(10)
        if k <= 1:
            t = ''.join(s.choice(['a', 'b ', 'é', '漢', '\n', '"', '\\', '%', '5', ',', 'D', 'X', 'U']) for _ in range(s.range(1, 4)))
            if f[-1:] in ('W', 'T') and t[0] in 'DXU':
                t = '.' + t
            f += t
            last = t[-1] == '\n'
        elif k <= 4:
            m = s.choice(['', '', 'W', 'M', 'L', 'Q', 'J', 'T', 'Z'])
            w = s.choice(['', '', '', '0', '1', '2', '08', '012', '7', '20', '127', '0127', '066', '3,2', '05,1', '12,0'])
            f += '~' + w + m + s.choice('DDUXOB')
            args.append(CArg(m.lower() or 'i', word(s, 64 if m not in ('', 'W') else 32)))
            nraw += 1
            last = False
        elif k == 5:
            t = g_text(s)
            f += '~' + s.choice(['', '', '0', '5', '012', '40', '3,1']) + 'S'
            args.append(CArg('s', t))
            nraw += 1
            last = t[-1:] == '\n' if t else None
        elif k == 6:
            if s.bool():
                c = g_uchar(s) or 65
                f += '~C'
                args.append(CArg('c', c))
                last = c == 10
            else:
                f += '~P'
                args.append(CArg('p', word(s, 64)))
                last = False
            nraw += 1
        elif cap == 1:
            continue
        elif k == 7:
            f += s.choice(['~~', '~%'])
            last = f[-1] == '%'
        elif k == 8:
            f += '~' + s.choice('aAs')
            args.append(F.datum(s, v))
            last = None
        elif cap == 3:
            continue
        else:
            j = s.below(6)
            if j == 0:
                f += '~' + s.choice('wWyY')
                args.append(s.choice([F.datum(s, v), F.SH, F.CL if f[-1] in 'wW' else F.SH]))
                last = None
            elif j == 1:
                f += '~' + s.choice(['d', 'x', 'o', 'b'] + (['5d', '08x', '012b', '3,1o'] if cap == 31 else []))
                args.append(g_int(s, v))
                last = False
            elif j == 2:
                f += '~' + s.choice('tT_')
                last = False
            elif j == 3:
                f += '~' + s.choice('cc')
                args.append(Char(g_uchar(s) or 65))
                last = None
            elif j == 4:
                f += '~' + s.choice(['f', '5f', 'F', '12F'])
                args.append(g_int(s, v) if s.bool() else Str(g_text(s), True))
                last = None
            elif last is not None:
                f += '~&'
                last = True
        if f[-1:] in ('W', 'T') and f[-2:-1] == '~':
            f += s.choice(['', ' ', '.'])
    return f, args, nraw


def carg(a):
    return a.text() if isinstance(a, CArg) else '(cons "o" %s)' % F.expr(a)


def gen_format(s):
    v = variant(s)
    L = Lines()
    for _ in range(s.range(1, 6)):
        cap = s.weighted([(5, 31), (2, 7), (1, 3), (1, 1)])
        f, args, nraw = g_format(s, v, cap)
        if s.bool(1, 8) and not any(isinstance(a, CArg) and a.t == 's' for a in args):
            # a directive that is refused; arguments before it are taken
            f += s.choice(['~128D', '~,D', '~3,D', '~1234S', '~0128X', '~1280U']) if cap == 1 or s.bool() else \
                s.choice(['~z', '~5a', '~-1d', '~', '~5', '~5C' if cap != 31 else '~q', '~QA' if cap < 7 else '~G'])
        try:
            out = F.fmt(f, args, CAPS[cap], raw)
        except F.Err:
            out = None
        except F.Skip:
            continue
        if '\0' in (out or ''):
            continue
        al = '(list%s)' % ''.join(' ' + carg(a) for a in args)
        nt = nraw and f.count('~') >= 2
        k = s.below(6)
        tag = 'cap %d%s' % (cap, ' refused' if out is None else '')
        fl = write_str(f)
        if s.bool(1, 3) and not nraw and cap in (3, 7) and all(not isinstance(a, CArg) for a in args):
            j = s.below(3)
            if j == 0 and args and out is not None:
                out, args = None, args[:-1]        # an argument is missing
            elif j == 1:
                out, args = None, args + [1]       # or too many are given
            al = '(list%s)' % ''.join(' ' + F.expr(a) for a in args)
            L.add('(c-lformat #f %d %s %s)' % (cap & ~1, fl, al), '!E' if out is None else '=> ' + write_str(out), tag + ' list', True)
        elif k <= 1 or out is None:
            L.add('(c-format #f %d %s %s)' % (cap, fl, al), '!E' if out is None else '=> ' + write_str(out), tag, nt)
        elif k == 2:
            L.add('(begin (set! o (open-output-string)) (display "<" o) (c-format o %d %s %s) (get-output-string o))' % (cap, fl, al),
                  '=> ' + write_str('<' + out), tag, nt)
        elif k == 3:
            if '\n' not in out:
                L.add('(begin (c-format #t %d %s %s) 1)' % (cap, fl, al), out + '=> 1', tag, nt)
        elif cap == 31:
            if k == 4:
                L.add('(guard (e (#t (what e))) (c-error #f %s %s))' % (fl, al), '=> (#t %s ())' % write_str(out), 'error', nt)
            else:
                fn = s.choice(['foo', 'car', 'é-漢', 'x y', '~a'])
                L.add('(guard (e (#t (what e))) (c-error %s %s %s))' % (write_str(fn), fl, al),
                      '=> (#t %s ())' % write_str('in %s: %s' % (fn, out)), 'error', nt)
    if s.bool(1, 4):
        d = F.datum(s, v)
        m = g_text(s).replace('~', '~~')
        fn = s.choice(['foo', 'set-car!', '漢'])
        if s.bool():
            L.add("(guard (e (#t (what e))) (c-error-obj %s %s '%s))" % (write_str(fn), write_str(m), to_write(d)),
                  '=> (#t %s (%s))' % (write_str('in %s: %s:' % (fn, m.replace('~~', '~'))), to_write(d)), 'object', True)
        else:
            L.add("(guard (e (#t (what e))) (c-raise '%s '(%s)))" % (to_write(d), to_write(d)),
                  '=> (#t %s (%s))' % (to_write(d), to_write(d)), 'object', True)
        L.add("(c-raise 'x '())", '!E')
    return L.case(tags=[v], variant=v)


# ---------------------------------------------------------------- values
DIG = '0123456789abcdef'


def gen_values(s):
    v = s.choice(GCS) if s.bool(1, 6) else variant(s)
    lo, hi = fixrange(v)
    L = Lines()
    ptrs = []
    n = 0
    for _ in range(s.range(2, 14)):
        k = s.below(8)
        if k <= 1:
            x = word(s, 64)
            r = s.choice([2, 8, 10, 16])
            sg = s.bool()
            w = s.choice([-1, 0, 1, 2, 5, 17, 20, 64, 65, 66, 126, 127])
            pad = s.choice([' ', '0', '*', '_'])
            y = x if sg else x & (1 << 64) - 1
            if pad == '0':
                e = F.num(y, r, w, '0')
            else:
                e = F.num(y, r, -1, ' ').rjust(max(0, w), pad)
            L.add('(c-int2string "%d" %d "%s" %s %d)' % (x, w, pad, '#t' if sg else '#f', r), '=> "%s"' % e, 'int2string', abs(x) >= 1 << 31)
        elif k == 2:
            r = s.choice([2, 8, 10, 16])
            j = s.below(4)
            if j == 0:
                x = s.choice([lo, hi, lo - 1, hi + 1, 1 << 63, (1 << 63) - 1, -(1 << 63), 0, 5, -7, 10 ** 30])
            else:
                x = word(s, 66)
            t = F.num(abs(x), r, s.choice([-1, -1, 5, 80]), '0')
            t = s.choice(['-', '-']) + t if x < 0 else s.choice(['', '', '+']) + t
            if s.bool(1, 3):
                t = t.upper()
            if s.bool(1, 4):
                i = s.below(len(t) + 1)
                t = t[:i] + s.choice([' ', '+', '-', 'g', '.', '/', 'x', '\t', '9', 'f', '8', '2', 'é', '#']) + t[i + s.below(2):]
            if s.bool(1, 20):
                t = s.choice(['', '+', '-', '--1', '+-1', '0x1f', '1e3', ' 1', '1 '])
            body = t[1:] if t[:1] in ('+', '-') else t
            if body and all(c.lower() in DIG[:r] for c in body):
                y = int(body, r) * (-1 if t[0] == '-' else 1)
                e = '"%d"' % y if lo <= y <= hi else '#f'
            else:
                e = '#f'
            L.add('(c-string2number %s %d)' % (write_str(t), r), '=> ' + e, 'string2number', abs(x) >= 1 << 31)
        elif k == 3:
            m = s.below(9)
            j = s.below(3)
            if j == 0:
                t, e = "'(%s)" % ' '.join('x' * m), str(m)
            elif j == 1:
                t = "'(%s . 5)" % ' '.join('x' * m) if m else s.choice(['5', "'a", '"s"', '#\\a', '(vector 1)', '(lambda (x) x)', '(c-ptr "0")'])
                e = '(dotted %d)' % m
            else:
                m = m or 1
                t = '(let ((x (list %s))) (set-cdr! (list-tail x %d) (list-tail x %d)) x)' % (' '.join('1' * m), m - 1, s.below(m))
                e = 'circular'
            L.add('(c-length %s)' % t, '=> ' + e, e.split()[0], j > 0)
        elif k == 4:
            m, i = s.below(7), s.below(9)
            tail = s.choice(['', ' . z'])
            if not m:
                tail = ''
            t = '(%s%s)' % (' '.join(map(str, range(m))), tail)
            if i < m:
                e = '(%s%s)' % (' '.join(map(str, range(i, m))), tail)
            elif i == m:
                e = 'z' if tail else '()'
            else:
                e = 'invalid'
            L.add("(c-list-tail '%s %d)" % (t, i), '=> ' + e, 'list-tail', i >= m)
        elif k == 5:
            d = g_datum(s, 2, v)
            if '\0' not in to_write(d):
                L.add("(c-ptr-value '%s)" % to_write(d), '=> no')
        elif k == 6 or not ptrs:
            n += 1
            x = word(s, 64) & (1 << 64) - 1
            fn = s.bool(1, 3)
            ptrs.append([n, x, fn])
            L.add('(define q%d (%s "%d"))' % (n, 'c-fptr' if fn else 'c-ptr', x), '=> q%d' % n)
        else:
            p = s.choice(ptrs)
            q = s.choice(ptrs)
            j = s.below(6)

            def wr(p):
                return '#<c_%spointer 0x%016x>' % ('func_' if p[2] else '', p[1])
            if j == 0:
                L.add('(list q%d (vector q%d))' % (p[0], q[0]), '=> (%s #(%s))' % (wr(p), wr(q)), 'pointer', True)
            elif j == 1:
                L.add('(map c-ptr-value (list q%d q%d))' % (p[0], q[0]),
                      '=> (%s)' % ' '.join('(%s "%d")' % ('fptr' if x[2] else 'ptr', x[1]) for x in (p, q)), 'pointer', True)
            elif j == 2:
                same = p[1:] == q[1:]
                L.add('(list (equal? q%d q%d) (equal? (list q%d) (list q%d)) (eq? q%d q%d) (eqv? q%d q%d))' % ((p[0], q[0]) * 4),
                      '=> (%s %s %s %s)' % tuple('#t' if b else '#f' for b in (same, same, p is q, p is q)), 'equal', True)
            elif j == 3:
                p[1] = word(s, 64) & (1 << 64) - 1
                L.add('(c-ptr-set! q%d "%d")' % (p[0], p[1]), '=> ' + wr(p), 'set')
            elif j == 4:
                L.add('(churn %d)' % s.choice([10, 300]), '=> ok')
            else:
                L.add('(list (pair? q%d) (vector? q%d) (procedure? q%d) (symbol? q%d) (number? q%d) (string? q%d) (char? q%d))' % ((p[0],) * 7),
                      '=> (#f #f #f #f #f #f #f)')
    return L.case(tags=[v], variant=v)


# ---------------------------------------------------------------- ports
def decode(codec, b):
    """-> [(code, length)] or None if some of it is malformed or incomplete"""
    r = []
    while b:
        for n in (1, 2, 3, 4):
            if len(b) < n:
                return None
            if codec == 'UTF-8':
                try:
                    v = ord(b[:n].decode('utf-8'))
                except (UnicodeDecodeError, TypeError):
                    continue
            else:
                v = int.from_bytes(b[:n], 'big')
            if mb.enc_char(codec, v) == b[:n]:
                break
        else:
            return None
        r.append((v, n))
        b = b[n:]
    return r


class TP:
    def __init__(self, i, chars, tail, avail, codec, bs=b''):
        self.i, self.codec, self.bs = i, codec, bs
        self.chars = chars              # [(code, number of bytes)]
        self.len = sum(n for _, n in chars) + tail
        self.avail = avail
        self.at = self.pos = 0          # start of the current char, bytes taken from the client
        self.k = 0
        self.waits, self.closed = 0, 0
        self.part = False

    def need(self):
        """bytes up to which the client's stream must be read to have the next char, None at the end"""
        return self.at + self.chars[self.k][1] if self.k < len(self.chars) else None

    def fill(self):
        end = self.need()
        for i in range(self.pos, self.len if end is None else end):
            if i >= self.avail:
                self.waits += 1
                self.avail = i + 1
        if end is None:
            self.at = self.pos = self.len
            return False
        self.pos = max(self.pos, end)
        return True

    def peek(self):
        return str(self.chars[self.k][0]) if self.fill() else 'eof'

    def read(self):
        if not self.fill():
            return 'eof'
        c, n = self.chars[self.k]
        self.k += 1
        self.at += n
        return str(c)

    def set_codec(self, codec):
        """a single byte of an unfinished char is kept for the new codec, more are dropped"""
        start = self.pos if self.pos - self.at > 1 else self.at
        chars = decode(codec, self.bs[start:])
        if chars is None:
            return False
        self.codec, self.chars, self.k, self.at = codec, chars, 0, start
        return True

    def ready(self):
        end = self.need()
        if end is not None and self.pos >= end:
            return True
        lim = self.len if end is None else end
        self.pos = max(self.pos, min(self.avail, lim))
        if self.pos > self.at and self.pos < lim:
            self.part = True
        if self.pos == lim:
            if end is None:
                self.at = self.len
            return True
        return False


class FileModel:
    """a FILE that the client and several ports share"""
    def __init__(self, text):
        self.text, self.pos = text, 0

    def get(self):
        if self.pos < len(self.text):
            self.pos += 1
            return self.text[self.pos - 1]
        return None

    def put(self, t):
        self.text = self.text[:self.pos] + t + self.text[self.pos + len(t):]
        self.pos += len(t)


def gen_ports(s):
    v = s.choice(GCS) if s.bool(1, 8) else variant(s)
    L = Lines()
    ins, outs, strs, fps = [], [], [], []
    fm = None
    n = 0
    for _ in range(s.range(4, 28)):
        k = s.below(20)
        if k == 0 or k <= 9 and not ins:
            codec = s.choice(mb.ENCS)
            vs = [10 if s.bool(1, 8) else mb.g_code(s, codec) for _ in range(s.below(6))]
            bs = [mb.enc_char(codec, c) for c in vs]
            tail = b''
            if s.bool(1, 4):
                b = mb.enc_char(codec, mb.g_code(s, codec))
                tail = b[:s.below(len(b))]
            tot = sum(map(len, bs)) + len(tail)
            n += 1
            p = TP(n, list(zip(vs, map(len, bs))), len(tail), s.choice([0, 0, 1, 2, tot, s.below(tot + 1)]), codec, b''.join(bs) + tail)
            p.avail = min(p.avail, tot)
            ins.append(p)
            L.add("(define p%d (c-port %d '(%s) %d \"%s\" 2))" % (n, n, ' '.join(str(x) for x in b''.join(bs) + tail), p.avail, codec),
                  '=> p%d' % n, codec)
            if s.bool(1, 4):
                L.add('(list (c-codec p%d) (input-port? p%d) (output-port? p%d))' % (n, n, n), '=> ("%s" #t #f)' % codec)
        elif k <= 9:
            p = s.choice(ins[-3:])
            op = s.choice(['read-char', 'c-get-char', 'peek-char', 'c-peek-char', 'char-ready?', 'c-ready?', 'feed', 'state', 'other'])
            if op == 'feed':
                j = s.range(0, 4)
                L.add('(c-feed %d %d)' % (p.i, j), '=> #<undef>')
                p.avail = min(p.len, max(p.avail, p.pos) + j)
            elif op == 'state':
                L.add('(c-port-state %d)' % p.i, '=> (%d %d)' % (p.waits, p.closed), 'state', p.waits > 0)
                p.waits = 0
            elif op == 'other':
                j = s.below(3)
                if p.closed:
                    L.add('(display p%d)' % p.i, '#<iport>=> #<undef>', 'inspect', True)
                elif j == 0:
                    L.add('(begin (write p%d) (c-inspect p%d))' % (p.i, p.i),
                          '#<iport mb %s client>=> "mb %s client"' % (p.codec, p.codec), 'inspect', True)
                else:
                    codec = s.choice(mb.ENCS)
                    b = p.pos - p.at
                    if p.set_codec(codec):
                        L.add('(begin (c-set-codec p%d "%s") (c-codec p%d))' % (p.i, codec, p.i), '=> "%s"' % codec,
                              'codec%s' % (' with %s' % ('one byte' if b == 1 else 'bytes') if b else ''), b > 0)
            elif p.closed:
                if not op.startswith('c-'):
                    L.add('(%s p%d)' % (op, p.i), '!E', 'closed', True)
            else:
                if op in ('read-char', 'c-get-char'):
                    e = p.read()
                elif op in ('peek-char', 'c-peek-char'):
                    e = p.peek()
                else:
                    e = '#t' if p.ready() else '#f'
                t = '(%s p%d)' % (op, p.i)
                L.add(t if 'ready' in op else '(ch %s)' % t, '=> ' + e, 'partly' if p.part else None, p.part or e == 'eof')
                p.part = False
                if s.bool(1, 4):
                    L.add('(c-port-state %d)' % p.i, '=> (%d %d)' % (p.waits, p.closed))
                    p.waits = 0
        elif k == 10:
            p = s.choice(ins + outs) if ins or outs else None
            if p:
                L.add('(%s p%d)' % (s.choice(['c-close', 'close-input-port' if isinstance(p, TP) else 'close-output-port']) if not p.closed
                                    else 'close-input-port' if isinstance(p, TP) else 'close-output-port', p.i), '=> #<undef>', 'close', p.closed > 0)
                if not p.closed:
                    p.closed = 1
                L.add('(cadr (c-port-state %d))' % p.i, '=> 1')
                if isinstance(p, TP):
                    p.waits = 0
        elif k <= 13:
            if not outs or s.bool(1, 5):
                codec = s.choice(mb.ENCS)
                n += 1

                class O:
                    pass
                p = O()
                p.i, p.codec, p.b, p.closed = n, codec, b'', 0
                outs.append(p)
                L.add("(define p%d (c-port %d '() 0 \"%s\" 1))" % (n, n, codec), '=> p%d' % n, codec)
            p = s.choice(outs[-2:])
            op = s.choice(['put', 'put', 'puts', 'newline', 'bytes', 'bytes'])
            if op == 'bytes' or len(p.b) > 300:
                L.add('(c-port-bytes %d)' % p.i, '=> (%s)' % ' '.join(map(str, p.b)))
                p.b = b''
            elif op == 'puts' and not p.closed:
                t = g_text(s)
                L.add('(c-puts p%d %s)' % (p.i, write_str(t)), '=> #<undef>')
                p.b += t.encode('utf-8')
            elif op == 'newline':
                L.add('(newline p%d)' % p.i, '!E' if p.closed else '=> #<undef>', 'closed' if p.closed else None, p.closed > 0)
                if not p.closed:
                    p.b += b'\n'
            elif op == 'put':
                c = s.choice([g_uchar(s), mb.g_code(s, p.codec)]) or 65
                b = mb.enc_char(p.codec, c)
                if mb.enc_char('UTF-8', c) is None or b is None and p.codec not in ('UTF-8', 'ISO-8859-1'):
                    continue
                t = 'write-char #\\x%x p%d' % (c, p.i) if p.closed or s.bool() else 'c-put-char p%d #\\x%x' % (p.i, c)
                bad = b is None or p.closed
                L.add('(%s)' % t, '!E' if bad else '=> #<undef>', 'no such char' if b is None else None, bad)
                if not bad:
                    p.b += b
        elif k <= 15:
            if not strs or s.bool(1, 3):
                n += 1
                kind = s.below(4)
                t = g_text(s) if kind < 3 else ''
                strs.append([n, kind, t, 0, 0])       # .., read so far, closed
                L.add('(define p%d (c-string-port %d %s %d))' % (n, n, write_str(t), kind), '=> p%d' % n, 'string %d' % kind)
            p = s.choice(strs[-3:])
            i, kind, t, at, closed = p
            j = s.below(4)
            if j == 0:
                L.add('(c-finals %d)' % i, '=> %d' % closed, 'finals')
            elif j == 1:
                L.add('(close-%s-port p%d)' % ('output' if kind == 3 else 'input', i), '=> #<undef>', 'close', closed > 0)
                p[4] = 1
                L.add('(c-finals %d)' % i, '=> 1')
            elif kind == 3:
                L.add('(write-char #\\a p%d)' % i, '!E' if closed else '=> #<undef>', nt=closed > 0)
            else:
                e = '!E' if closed else '=> eof' if at >= len(t) else '=> %d' % ord(t[at])
                L.add('(ch (read-char p%d))' % i, e, nt=closed > 0)
                p[3] += 1
            if s.bool(1, 4):
                L.add('(churn 200)', '=> ok')
        else:
            if fm is None or s.bool(1, 10):
                t = ''.join(s.choice('abcdefgh(") \n') for _ in range(s.below(12)))
                L.add('(c-file %s)' % write_str(t), '=> #<undef>')
                fm = FileModel(t)
                fps, mode = [], None
            j = s.below(10)
            if j == 0 or not fps:
                n += 1
                fl = s.choice([2, 2, 1])
                fps.append([n, fl, None, 0])       # id, flags, buffered char, closed
                L.add('(define p%d (c-file-port %d))' % (n, fl), '=> p%d' % n, 'file')
            p = s.choice(fps[-3:])
            if j == 1:
                x = s.below(len(fm.text) + 1)
                L.add('(c-seek %d)' % x, '=> #<undef>')
                fm.pos, mode = x, None
            elif j == 2:
                L.add('(close-%s-port p%d)' % ('input' if p[1] == 2 else 'output', p[0]), '=> #<undef>', 'close', p[3] > 0)
                p[3] = 1
            elif j == 3:
                L.add('(begin (c-seek %d) (c-contents))' % fm.pos, '=> ' + write_str(fm.text), 'contents')
                mode = None
            elif j == 4:
                if mode != 'w':
                    c = fm.get()
                    L.add('(ch (c-getc))', '=> ' + (str(ord(c)) if c else 'eof'))
                    mode = 'r'
                    L.nt = True
            elif j == 5:
                if mode != 'r':
                    L.add('(c-putc #\\Z)', '=> #<undef>')
                    fm.put('Z')
                    mode = 'w'
            elif p[3]:
                L.add('(%s p%d)' % ('read-char' if p[1] == 2 else 'newline', p[0]), '!E', 'closed', True)
            elif p[1] == 2:
                op = s.choice(['read-char', 'c-get-char', 'peek-char', 'c-peek-char'])
                if p[2] is None:
                    if mode == 'w':
                        continue
                    mode = 'r'
                    p[2] = fm.get()
                e = str(ord(p[2])) if p[2] else 'eof'
                if op in ('read-char', 'c-get-char'):
                    p[2] = None
                L.add('(ch (%s p%d))' % (op, p[0]), '=> ' + e)
            elif mode != 'r':
                t = s.choice(['x', '(y)', 'é'[:0] + 'w', '12'])
                L.add('(c-puts p%d "%s")' % (p[0], t), '=> #<undef>')
                fm.put(t)
                mode = 'w'
    return L.case(tags=[v], variant=v)


def check(c, env):
    return check_lines(c, env, c.variant.endswith('-gcs') and 'g5' or '-', preload=PRE, prog='vrunapi', cpu=30)


PARTS = [Part('format', gen_format, check, 12000, 200000, variants=VARS),
         Part('values', gen_values, check, 6000, 150000, variants=VARS + GCS),
         Part('ports', gen_ports, check, 8000, 200000, variants=VARS + GCS)]
