"""Conversion between integers and text against Python's."""
from vlib.engine import Part
from vlib.gen import fixrange
from vlib.lines import Lines, check_lines

ID = 'P08'
RULE = 'a conversion involves a magnitude of more than 2^30, a radix other than 10, a sign, leading zeros or text that is no number'
ASSUMPTIONS = ['radixes 2, 8, 10 and 16 are supported; a literal is at most one sign and as many digits as the fixnum width plus one']
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']
PRE = '(use srfi-6)\n'
DIG = '0123456789abcdef'


def g_num(s, lo, hi):
    k = s.below(8)
    if k == 0:
        v = s.range(-20, 20)
    elif k <= 2:
        v = (1 << s.below(64)) + s.range(-2, 2)
    elif k == 3:
        v = s.choice([lo, hi, lo + 1, hi - 1, hi + 1, lo - 1, hi * 2 + 1, hi * 2 + 2, 1 << 63, (1 << 63) - 1, (1 << 64) - 1, 1 << 64, -(1 << 63),
                      -(1 << 63) - 1, lo * 2, (1 << 62)])
    elif k == 4:
        v = 10 ** s.below(20) + s.range(-1, 1)
    elif k == 5:
        v = s.choice([2, 8, 16]) ** s.below(16) - s.below(2)
    else:
        v = s.below(1 << s.range(1, 63))
    return -v if s.bool() else v


def fmt(v, r):
    n, t = abs(v), ''
    while True:
        t = DIG[n % r] + t
        n //= r
        if not n:
            break
    return ('-' if v < 0 else '') + t


def parse(t, r, lo, hi):
    b = t[1:] if t[:1] in ('+', '-') else t
    if not b or any(c.lower() not in DIG[:r] for c in b):
        return None
    v = 0
    for c in b.lower():
        v = v * r + DIG.index(c)
    if t[0] == '-':
        v = -v
    return v if lo <= v <= hi else None


def g_text(s, r, lo, hi):
    """text near the syntax of numbers in radix r"""
    k = s.below(8)
    if k <= 3:
        t = fmt(g_num(s, lo, hi), r if s.bool(7, 8) else s.choice([2, 8, 10, 16]))
        if s.bool(1, 3):
            t = ('-' if t[0] == '-' else '') + '0' * s.range(1, 6) + t.lstrip('-')
        if s.bool(1, 4) and t[0] != '-':
            t = '+' + t
        if s.bool(1, 3):
            t = t.upper()
        if s.bool(1, 4):
            i = s.below(len(t) + 1)
            t = t[:i] + s.choice(list('+-.exgG _,/#0189')) + t[i + s.below(2):]
        return t
    if k == 4:
        return ''.join(s.choice(list('+-0123456789abcdefABCDEF')) for _ in range(s.size(7)))
    if k == 5:
        return s.choice(['', '+', '-', '+-1', '-+1', '--1', '++1', '0x1', '0b1', '0o7', '0B1', '0X1', '1.', '.1', '1e2', '1/2', '#x10', '#b1', '1 ',
                         ' 1', '\t1', '1\n', '+i', 'abc', 'g', '0-', '1+', '-0', '+0', '00', '1_0', 'inf', 'nan', '+inf.0', '1#', '- 1', '0x', '-0x1'])
    return ''.join(s.choice(list(DIG[:r])) for _ in range(s.range(1, 70)))


def gen(s):
    variant = s.weighted([(5, VARS[0]), (4, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    lo, hi = fixrange(variant)
    L = Lines()
    for _ in range(s.range(1, 25)):
        r = s.choice([10, 16, 2, 8])
        opt = ' %d' % r if r != 10 or s.bool() else ''
        k = s.below(8)
        if k <= 1:
            v = g_num(s, lo, hi)
            if not lo <= v <= hi:
                continue
            L.add('(number->string %d%s)' % (v, opt), '=> "%s"' % fmt(v, r), 'number->string', r != 10 or abs(v) > 1 << 30)
        elif k <= 3:
            t = g_text(s, r, lo, hi)
            v = parse(t, r, lo, hi)
            L.add('(string->number "%s"%s)' % (t.replace('\\', '\\\\').replace('"', '\\"'), opt), '=> #f' if v is None else '=> %d' % v,
                  'string->number' if v is not None else 'not-a-number', v is None or r != 10 or abs(v) > 1 << 30 or t[:1] in '+-0')
        elif k == 4:
            v = g_num(s, lo, hi)
            if not lo <= v <= hi:
                continue
            L.add('(let ((n %d)) (= n (string->number (number->string n%s)%s)))' % (v, opt, opt), '=> #t', 'roundtrip', r != 10)
        elif k == 5:
            # literal in the source, or read from a port
            v = g_num(s, lo, hi)
            t = fmt(v, r)
            if s.bool(1, 3):
                t = ('-' if v < 0 else '') + '0' * s.range(1, 5) + t.lstrip('-')
            elif s.bool(1, 4) and v >= 0:
                t = '+' + t
            if s.bool(1, 3):
                t = t.upper()
            # the token buffer has room for a sign and the digits of the widest fixnum
            if len(t) > 60:
                t = fmt(v, r)
            if len(t) > 60 and not lo <= v <= hi:
                continue
            p = '#' + {2: 'b', 8: 'o', 10: 'd', 16: 'x'}[r] if r != 10 or s.bool(1, 3) else ''
            ok = lo <= v <= hi
            j = s.below(4)
            if j == 0 and ok:
                L.add(p + t, '=> %d' % v, 'literal', True)
            elif j == 1:
                L.add('(read (open-input-string "%s%s"))' % (p, t), '=> %d' % v if ok else '!E', 'read', True)
            elif j == 2 and ok:
                L.add("'(a %s%s)" % (p, t), '=> (a %d)' % v, 'literal', True)
            elif ok:
                L.add("(vector-length '#(%s%s #\\a))" % (p, t), '=> 2', 'literal')
        elif k == 6:
            t = g_text(s, r, lo, hi)
            if not t or len(t) > 60 or any(c in ' \t\n"\\;()\',`#' for c in t):
                continue
            p = '#' + {2: 'b', 8: 'o', 10: 'd', 16: 'x'}[r]
            v = parse(t, r, lo, hi)
            L.add('(read (open-input-string "%s%s"))' % (p, t), '!E' if v is None else '=> %d' % v, 'prefixed', True)
        else:
            bad = s.choice(['(number->string 10 %d)', '(string->number "10" %d)'])
            L.add(bad % s.choice([0, 1, 3, 7, 9, 11, 15, 17, 36, -2, -10, 1 << 32, (1 << 32) + 10, (1 << 32) + 2, 32, 64]), '!E', 'radix', True) if s.bool() else \
                L.add(s.choice(["(number->string 'a)", '(number->string "1")', '(number->string)', '(string->number 10)', "(string->number 'a)",
                                '(string->number)', '(number->string 1 10 10)', '(string->number "1" 10 10)', '(number->string 1 "10")',
                                "(string->number \"1\" 'a)", '(number->string #\\1)']), '!E', 'ill-typed', True)
    return L.case(tags=[variant], variant=variant)


def check(c, env):
    return check_lines(c, env, preload=PRE)


PARTS = [Part('conversions', gen, check, 40000, 1000000, variants=VARS)]
