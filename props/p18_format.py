"""format (SRFI-28, SRFI-48) and format+ against a reference formatter."""
from vlib.engine import Part
from vlib.lines import Lines, check_lines
from vlib.gen import *

ID = 'P18'
RULE = 'the format string holds at least two directives'
ASSUMPTIONS = ['~& is only generated where it is known what was output last',
               'what a failing call has already output to an explicit port is not specified']
VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san', 'fatty-san']
PRE48 = '(use srfi-6) (use srfi-48) (define o 0)\n(define cl (list 1 2)) (set-cdr! (cdr cl) cl)\n(define sh (let ((x (list 1))) (list x x)))\n'
PRE28 = '(use srfi-28)\n'


class Err(Exception):
    pass


class Skip(Exception):
    pass


class Raw:
    """an argument with fixed texts"""
    def __init__(self, expr, w, d, ss):
        self.expr, self.w, self.d, self.ss = expr, w, d, ss


class Proc(Raw):
    pass


CL = Raw('cl', None, None, '#1=(1 2 . #1#)')
SH = Raw('sh', '((1) (1))', '((1) (1))', '(#1=(1) #1#)')


def expr(a):
    return a.expr if isinstance(a, Raw) else "(quote %s)" % to_write(a)


def wr(a):
    if a is CL:
        raise Skip()     # would not end
    if isinstance(a, Raw):
        return a.w
    return to_write(a)


def ds(a):
    if a is CL:
        raise Skip()
    return a.d if isinstance(a, Raw) else to_write(a, True)


def num(n, radix, width, pad):
    neg = n < 0
    n = abs(n)
    t = ''
    while True:
        t = '0123456789abcdef'[n % radix] + t
        n //= radix
        if not n:
            break
    if pad == '0':
        t = t.rjust(max(0, width - neg), '0')
        return ('-' if neg else '') + t
    return (('-' if neg else '') + t).rjust(max(0, width))


def fmt(f, args, cap, raw=None):
    """cap: '28', '48', '+' or '' -> text; raw(f, i, pop) -> (i, text) or None: directives tried first"""
    args = list(args)
    out = ''
    i = 0

    def pop():
        if not args:
            raise Err('missing')
        return args.pop(0)

    def width(i):
        d = ''
        while i < len(f) and f[i] in '0123456789' and len(d) < 4:
            d += f[i]
            i += 1
        if d and int(d) > 127:
            raise Err('width')
        return i, int(d) if d else -1

    while i < len(f):
        c = f[i]
        i += 1
        if c != '~':
            out += c
            continue
        if raw:
            r = raw(f, i, pop)
            if r:
                i = r[0]
                out += r[1]
                continue
        i0 = i
        pad = ' '
        if cap == '+' and f[i:i + 1] == '0':
            pad = '0'
            i += 1
        i, w = width(i)
        if f[i:i + 1] == ',':
            if w < 0:
                raise Err(',')
            i, fr = width(i + 1)
            if fr < 0:
                raise Err(',')
        prefixed = i != i0
        d = f[i:i + 1]
        i += 1
        if d.isascii():
            d = d.lower()
        if cap != '28':
            if d == 'f':
                a = pop()
                if isinstance(a, Str):
                    out += a.s.rjust(max(0, w))
                elif isinstance(a, int) and not isinstance(a, bool):
                    out += num(a, 10, w, pad)
                else:
                    raise Err('f')
                continue
            if d in ('d', 'x', 'o', 'b') and (not prefixed or cap == '+'):
                a = pop()
                if not isinstance(a, int) or isinstance(a, bool):
                    raise Err('int')
                out += num(a, {'d': 10, 'x': 16, 'o': 8, 'b': 2}[d], w, pad)
                continue
        if prefixed:
            raise Err('prefix')
        if d == 'a':
            out += ds(pop())
        elif d == 's':
            out += wr(pop())
        elif d == '%':
            out += '\n'
        elif d == '~':
            out += '~'
        elif cap == '28':
            raise Err('directive')
        elif d == 'w':
            a = pop()
            out += a.ss if isinstance(a, Raw) else to_write(a)
        elif d == 'y':
            out += wr(pop())
        elif d and d in 'k?':
            g = pop()
            if not isinstance(g, Str):
                raise Err('?')
            l = pop()
            if isinstance(l, Raw):
                raise Skip()
            items = []
            while isinstance(l, Pair):
                items.append(l.car)
                l = l.cdr
            if l is not NIL:
                raise Err('list')
            out += fmt(''.join(g.v), items, cap)
        elif d == 'c':
            a = pop()
            if not isinstance(a, Char):
                raise Err('c')
            out += chr(a.c)
        elif d == 't':
            out += '\t'
        elif d == '_':
            out += ' '
        elif d == '&':
            if not out.endswith('\n'):
                out += '\n'
        else:
            raise Err('directive')
    if args and not raw:
        raise Err('superfluous')
    return out


def datum(s, v):
    while True:
        d = g_datum(s, 2, v)
        if '\0' not in to_write(d) + to_write(d, True):
            return d


def fstr(t, s):
    """a string that is given as format"""
    return t


def g_fmt(s, v, cap, depth=0):
    """-> (format string, args); nothing that makes ~& ambiguous"""
    f, args = '', []
    last = None      # None: unknown, else True when the output so far ends with a newline
    for _ in range(s.range(0, 7)):
        k = s.below(13)
        up = s.bool(1, 4)

        def put(t):
            nonlocal f
            f += '~' + (t.upper() if up else t)
        if k <= 1:
            t = ''.join(s.choice(['a', 'b ', 'é', '漢', '😀', '\n', '"', '\\', '%', '&', '0', '5', ',']) for _ in range(s.choice([60, 127, 130, 260, 520]) if s.bool(1, 20) else s.range(1, 4)))
            f += t
            last = t[-1] == '\n'
        elif k == 2:
            f += s.choice(['~~', '~%'])
            last = f[-1] == '%'
        elif k <= 4:
            d = datum(s, v)
            put(s.choice('as'))
            args.append(d)
            last = None
        elif cap == '28':
            continue
        elif k == 5:
            put(s.choice(['w', 'y']))
            a = s.choice([datum(s, v), datum(s, v), SH, CL if f[-1] in 'wW' else SH])
            args.append(a)
            last = None
        elif k <= 7:
            w = ''
            if cap == '+' and s.bool():
                w = s.choice(['0', '', '']) + s.choice(['', '0', '1', '2', '5', '12', '127', '63', '66'])
                if w and w != '0' and s.bool(1, 4):
                    w += ',' + s.choice(['0', '1', '12'])
            put(w + s.choice('dxob'))
            args.append(g_int(s, v))
            last = False
        elif k == 8:
            w = s.choice(['', '', '0', '1', '3', '9', '40', '127', '08', '3,2', '10,0'])
            put(w + 'f')
            if s.bool():
                args.append(g_int(s, v))
                last = False
            else:
                args.append(Str(''.join(chr(c or 97) for c in (g_uchar(s) for _ in range(s.choice([100, 126, 127, 128, 129, 140, 200, 250, 256, 260, 300]) if s.bool(1, 12) else s.size(8)))), True))
                last = None
        elif k == 9:
            put('c')
            args.append(Char(g_uchar(s) or 65))
            last = None
        elif k == 10:
            put(s.choice(['t', '_']))
            last = False
        elif k == 11:
            if last is not None:
                f += '~&'
                last = True
        elif depth < 2:
            g, l = g_fmt(s, v, cap, depth + 1)
            if any(isinstance(x, Raw) for x in l):
                continue
            put(s.choice('?k'))
            args += [Str(g, True), lst(l)]
            last = None
    return f, args


BADCHARS = '~š~ち~あ~é~Ġ'   # code points whose low byte is an ASCII directive, among others


def spoil(s, f, args):
    k = s.below(6)
    f, args = f, list(args)
    if k == 0:
        f += s.choice(['~', '~z', '~1a', '~5s', '~,d', '~,2f', '~3,f', '~128f', '~1234f', '~-1d', '~5', '~.', '~\n', '~ ', '~(', '~5~', '~2%', '~q', '~p', '~12345f'])
    elif k == 1:
        f += '~' + chr(s.choice([0x100, 0x300, 0x3000, 0x10000, 0x80, 0x200]) + ord(s.choice('asdxobfw~%tchyk?_&qz')))
        args.append(datum(s, 'compact'))
    elif k == 2:
        args.append(datum(s, 'compact'))
    elif k == 3 and args:
        del args[s.below(len(args))]
    elif k == 4 and args:
        i = s.below(len(args))
        args[i] = s.choice([Char(97), sym('x'), Str('ab', True), NIL, True, 5, Pair(1, 2)])
    else:
        f = f.replace('~', '~' + s.choice(['1', '0', '00', ',', '3,', '~', ' ']), 1)
    return f, args


def sane(f, args, out):
    return '\0' not in f and '\0' not in (out or '')


def amb(f):
    # help text, and freshlines whose position became unknown
    return '~h' in f.lower() or '~&' in f


def call(s, L, v, cap):
    f, args = g_fmt(s, v, cap)
    spoilt = s.bool(1, 4)
    if spoilt:
        f, args = spoil(s, f, args)
        if amb(f) or any(isinstance(a, Str) and amb(''.join(a.v)) for a in args):
            return
    try:
        out = fmt(f, args, cap)
    except Err:
        out = None
    except Skip:
        return
    if not sane(f, args, out):
        return
    fl = write_str(f) if s.bool() else '(string-copy %s)' % write_str(f)
    al = ''.join(' ' + expr(a) for a in args)
    nt = f.count('~') >= 2
    n = {'28': 'format', '48': 'format', '+': 'format+'}[cap]
    tag = cap + (' error' if out is None else '')
    if cap == '28':
        L.add('(%s %s%s)' % (n, fl, al), '!E' if out is None else '=> ' + write_str(out), tag, nt)
        return
    k = s.below(4)
    if k == 0:
        L.add('(%s %s%s)' % (n, fl, al), '!E' if out is None else '=> ' + write_str(out), tag, nt)
    elif k == 1:
        L.add('(%s #f %s%s)' % (n, fl, al), '!E' if out is None else '=> ' + write_str(out), tag, nt)
    elif k == 2:
        L.add('(begin (set! o (open-output-string)) (display "<" o) (%s o %s%s) (get-output-string o))' % (n, fl, al), '!E' if out is None else '=> ' + write_str('<' + out), tag + ' port', nt)
    else:
        if out is not None and ('\n' in out):
            return
        if out is None:
            return
        L.add('(begin (%s #t %s%s) 1)' % (n, fl, al), out + '=> 1', tag + ' current', nt)


def gen(s):
    v = s.weighted([(4, VARS[0]), (2, VARS[1]), (1, VARS[2]), (1, VARS[3]), (1, VARS[4])])
    L = Lines()
    for _ in range(s.range(1, 6)):
        call(s, L, v, s.choice(['48', '+']))
    if s.bool(1, 10):
        L.add(s.choice(['(format 5 "a")', "(format 'a \"a\")", '(format)', '(format #f)', '(format #t 5)', '(format (open-input-string "x") "~a" 1)', '(format+ #\\a "x")',
                        '(format #f 5 "a")', '(format "a" "b")']), '!E', 'ill-typed')
    return L.case(tags=[v], variant=v)


def check(c, env):
    return check_lines(c, env, preload=PRE48)


def gen28(s):
    v = s.weighted([(4, VARS[0]), (2, VARS[1]), (1, VARS[3])])
    L = Lines()
    for _ in range(s.range(1, 6)):
        call(s, L, v, '28')
    if s.bool(1, 10):
        L.add(s.choice(['(format #f "a")', '(format #t "a")', '(format 5)', '(format)', '(format "~d" 5)', '(format "~5a" 5)', '(format "~&")', '(format "~c" #\\a)']), '!E', 'ill-typed')
    return L.case(tags=[v], variant=v)


def check28(c, env):
    return check_lines(c, env, preload=PRE28)


PARTS = [Part('srfi48', gen, check, 18000, 400000, variants=VARS),
         Part('srfi28', gen28, check28, 4000, 80000, variants=['compact-opt', 'fatty-opt', 'compact-san'])]
