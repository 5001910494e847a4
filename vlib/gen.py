"""Shared generators: data (vlib.sx model) and their textual renderings."""
from .sx import *

ASCII_SYM0 = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!$%&*/:<=>?^_~'
ASCII_SYM = ASCII_SYM0 + '0123456789+-.@'
UNI = 'éßñλжאあ漢字한ﾊ€∀😀𝕏\u0301\u200b\uffff\U0010ffff'
FIX = {'compact': (-(1 << 59), (1 << 59) - 1), 'fatty': (-(1 << 63), (1 << 63) - 1)}
FIX['hygienic'] = FIX['compact']


def fixrange(variant):
    return FIX[variant.split('-')[0]]


def g_int(s, variant='compact'):
    lo, hi = fixrange(variant)
    k = s.below(6)
    if k <= 2:
        v = s.below(10)
        return -v if s.bool() else v
    if k == 3:
        return s.range(-1000, 1000)
    if k == 4:
        sh = s.below(hi.bit_length())
        v = (1 << sh) + s.range(-2, 2)
        if s.bool():
            v = -v
        return max(lo, min(hi, v))
    return s.choice([lo, hi, lo + 1, hi - 1, s.range(lo, hi), s.range(-(1 << 31), 1 << 31)])


def g_uchar(s, nul=False):
    """a code point"""
    k = s.below(8)
    if k <= 2:
        return ord(s.choice('abcxyzABC019'))
    if k == 3:
        return s.range(0 if nul else 1, 127)
    if k == 4:
        return ord(s.choice(' \t\n\r\v\f\x07\x08\x1b\x7f"\\\'#();|'))
    if k == 5:
        return ord(s.choice(UNI))
    if k == 6:
        return s.choice([0x80, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10fffe,
                         0x10ffff])
    v = s.range(0x80, 0x10ffff)
    if 0xd800 <= v <= 0xdfff:
        v -= 0x1000
    return v


def g_str(s, mx=12):
    return ''.join(chr(g_uchar(s)) for _ in range(s.size(mx)))


def g_symname(s):
    k = s.below(8)
    if k == 0:
        return s.choice(['+', '-', '...', 'quote', 'a', 'list->vector', 'quasiquote', 'unquote', 'lambda', 'else', '=>'])
    n = s.range(1, 6)
    a, b = ASCII_SYM0, ASCII_SYM
    if k == 1:
        a, b = a + UNI, b + UNI
    if k == 2 and s.bool(1, 3):
        n = s.range(60, 300)
    return s.choice(a) + ''.join(s.choice(b) for _ in range(n - 1))


def g_datum(s, depth=4, variant='compact', vec=True, sized=6):
    k = s.below(10 if depth > 0 else 7)
    if k == 0:
        return s.choice([NIL, True, False])
    if k <= 2:
        return g_int(s, variant)
    if k == 3:
        return sym(g_symname(s))
    if k == 4:
        return Str(g_str(s), True)
    if k == 5:
        return Char(g_uchar(s, nul=True))
    if k == 6:
        return sym(s.choice(['a', 'b', 'c', 'foo']))
    if k == 7 or not vec and k == 9:
        items = [g_datum(s, depth - 1, variant, vec, sized) for _ in range(s.size(sized))]
        if items and s.bool(1, 4):
            return lst(items, g_datum(s, 0, variant, vec))
        return lst(items)
    if k == 8:
        q = s.choice(['quote', 'quasiquote', 'unquote', 'unquote-splicing'])
        return lst([sym(q), g_datum(s, depth - 1, variant, vec, sized)])
    return Vec([g_datum(s, depth - 1, variant, vec, sized) for _ in range(s.size(sized))], True)


def ws(s, must=False):
    n = s.below(8)
    if n <= 4:
        return ' ' if must else ''
    if n == 5:
        return s.choice([' ', '\n', '\t', '\r', '\f', '\v', '\r\n', '  '])
    if n == 6:
        return s.choice([' ', '\n']) + ';' + s.choice(['', 'c', ' ( ', '"', ';;', "#\\", 'あ']) + '\n'
    return ''.join(s.choice(' \n\t\r\f\v') for _ in range(s.range(1, 3)))


ALTNAME = {0: ['nul'], 7: ['alarm'], 8: ['backspace'], 9: ['tab'], 10: ['newline', 'linefeed'], 11: ['vtab'],
           12: ['page'], 13: ['return'], 27: ['esc'], 32: ['space'], 127: ['delete']}


def rnd_case(s, t):
    return ''.join(c.upper() if s.bool(1, 4) else c for c in t)


def render(s, o):
    """a random external representation of o"""
    if o is True:
        return '#t'
    if o is False:
        return '#f'
    if isinstance(o, int):
        k = s.below(6)
        if k <= 2:
            return str(o)
        if k == 3:
            return ('-' if o < 0 else s.choice(['', '+'])) + '0' * s.below(4) + str(abs(o))
        r, f = s.choice([('x', 'x'), ('b', 'b'), ('o', 'o'), ('d', 'd')])
        t = format(abs(o), f)
        if len(t) > 60:
            return str(o)
        return '#' + r + ('-' if o < 0 else s.choice(['', '+'])) + '0' * (s.below(3) if len(t) < 55 else 0) + rnd_case(s, t)
    if isinstance(o, Sym):
        return o.name
    if isinstance(o, Char):
        c = o.c
        k = s.below(4)
        if c in ALTNAME and k != 3:
            return '#\\' + rnd_case(s, s.choice(ALTNAME[c]))
        if k >= 2 or c < 32 or c == 127:
            t = '%x' % c
            return '#\\x' + '0' * s.below(max(1, 7 - len(t))) + rnd_case(s, t)
        return '#\\' + chr(c)
    if isinstance(o, Str):
        out = []
        for c in o.v:
            k = s.below(6)
            if k == 5:
                t = '%x' % ord(c)
                out.append('\\x' + '0' * s.below(max(1, 7 - len(t))) + rnd_case(s, t) + ';')
            elif c in '"\\':
                out.append('\\' + c)
            elif k >= 2 and c in STRESC:
                out.append(STRESC[c])
            elif c == '\0':
                out.append(STRESC[c])
            else:
                out.append(c)
        return '"' + ''.join(out) + '"'
    if isinstance(o, Vec):
        return '#(' + ''.join(ws(s, i > 0) + render(s, x) for i, x in enumerate(o.v)) + ws(s) + ')'
    if isinstance(o, Pair):
        if isinstance(o.car, Sym) and isinstance(o.cdr, Pair) and o.cdr.cdr is NIL and s.below(4) < 3:
            q = {'quote': "'", 'quasiquote': '`', 'unquote': ',', 'unquote-splicing': ',@'}.get(o.car.name)
            if q:
                r = ws(s) + render(s, o.cdr.car)
                if q == ',' and r.startswith('@'):
                    r = ' ' + r
                return q + r
        out = ['(' + ws(s) + render(s, o.car)]
        o = o.cdr
        while True:
            if o is NIL:
                if s.bool(1, 12):
                    out.append(' . ()')
                break
            if not isinstance(o, Pair) or s.bool(1, 12):
                out.append(' .' + (ws(s, True) or ' ') + render(s, o))
                break
            out.append(ws(s, True) + render(s, o.car))
            o = o.cdr
        return ''.join(out) + ws(s) + ')'
    return o.rep


def size(o):
    n, st = 0, [o]
    while st:
        o = st.pop()
        n += 1
        if isinstance(o, Pair):
            st += [o.car, o.cdr]
        elif isinstance(o, Vec):
            st += o.v
    return n
