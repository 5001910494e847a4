"""Reader and writer: external representations round-trip, and the reader
agrees with a reference reader on every text."""
import os
from vlib.engine import Case, Part
from vlib.gen import *
from vlib import gen as G

ID = 'P14'
RULE = ('round-trip: the datum has at least 3 nodes; soup: the text makes the reference reader accept at least one '
        'datum or reject after at least 2 characters; distinct texts')
ASSUMPTIONS = ['vlib/sx.py Reader is the reference for the accepted syntax',
               'symbols are those that have a plain external representation']

VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san']


def wsafe(t):
    # `.` followed by VT/FF/CR: any whitespace delimits
    return t


PRE = '''
(define (w->s x) (let ((p (open-output-string))) (write x p) (get-output-string p)))
(define (d->s x) (let ((p (open-output-string))) (display x p) (get-output-string p)))
(define (rt x) (let* ((p (open-input-string (w->s x))) (y (read p))) (list (equal? x y) (eof-object? (read p)))))
(define (rt2 x) (string=? (w->s x) (w->s (read (open-input-string (w->s x))))))
'''


def gen_rt(s):
    variant = s.choice(VARS)
    n = s.range(1, 4)
    data, texts, exp = [], [], []
    for _ in range(n):
        d = g_datum(s, 4, variant)
        r = render(s, d)
        texts.append("(quote" + (ws(s, True) or ' ') + r + ws(s) + ')')
        exp.append('=> ' + to_write(d))
        k = s.below(4)
        lit = "(quote " + to_write(d) + ")"
        if k == 0:
            texts.append('(rt %s)' % lit)
            exp.append('=> (#t #t)')
        elif k == 1:
            texts.append('(rt2 %s)' % lit)
            exp.append('=> #t')
        elif k == 2:
            texts.append('(w->s %s)' % lit)
            exp.append('=> ' + write_str(to_write(d)))
        else:
            texts.append('(d->s %s)' % lit)
            t = to_write(d, True)
            exp.append('=> ' + write_str(t) if '\0' not in t else None)
        data.append(d)
    return Case('\n'.join(texts), exp, any(size(d) >= 3 for d in data), mode=s.choice(['-', 'f']), variant=variant,
                tags=[variant])


def check_rt(c, env):
    text = c.text
    if '\0' in text:
        return None
    r = env.run(text, c.mode, c.variant, preload=PRE)
    if not r.done:
        return 'did not complete: %s\n%s' % (r.describe(), r.text()[-500:])
    # results may contain raw newlines, so compare the whole stream
    out = r.text()
    pos = 0
    for e in c.expect:
        if e is None:
            # displayed NUL: only resynchronise
            j = out.find('\n=> ', pos)
            pos = len(out) - 6 if j < 0 else j + 1
            continue
        if not out.startswith(e + '\n', pos):
            return 'expected %r but got %r' % (e, out[pos:pos + len(e) + 100])
        pos += len(e) + 1
    if out[pos:] != '#DONE\n':
        return 'trailing output %r' % out[pos:pos + 200]
    return None


FRAG = ['(', ')', '(', ')', ' ', ' ', '\n', '.', '. ', ' . ', '...', "'", '`', ',', ',@', '"', '\\', '#', '#(', '#\\', '#t',
        '#f', '#x', '#b', '#o', '#d', ';', ';x\n', 'a', 'b', 'foo', 'x', '0', '1', '7', '9', '+', '-', '12', '-5', '+3',
        '#xfF', '#b101', '#b2', '#o17', '#o8', '576460752303423487', '576460752303423488', '-576460752303423488',
        '-576460752303423489', '9223372036854775807', '9223372036854775808', '-9223372036854775808',
        '-9223372036854775809', '1+', '-a', '+a', '1.5', '1/2', '1e3', '@', '[', ']', '{', '}', '|', '\t', '\r', '\v',
        '\f', 'あ', 'é', '😀', '#あ', '#\\あ', '#\\space', '#\\Newline', '#\\x41', '#\\x', '#\\xz', '#\\x110000',
        '#\\xD800', '#\\nul', '#\\foo', '#\\ ', '#\\(', '#\\)', '#\\;', '#\\"', '\\n', '\\t', '\\x41;', '\\x41', '\\xd800;',
        '\\x;', '\\q', '\\"', '\\\\', '"abc"', '"a b"', 'z' * 70, '1' * 70, '#!', '#|', '|#', '#;', '#e', '#i',
        '\x01', '\x1f', '\x7f', '#', "quote", 'FOO', '->x', '<=?', '!$%&*/:<=>?^_~', '0x10', '#d10', '#d-', '#x-', '#x+f',
        '..', '....', '.a', 'a.b', '1.', '-.', '+.', '.5']


def gen_soup(s):
    variant = s.choice(VARS)
    k = s.below(3)
    if k == 0:
        t = ''.join(s.choice(FRAG) for _ in range(s.range(1, 8)))
    elif k == 1:
        t = ''.join(s.choice(FRAG) + s.choice(['', ' ', '', ' ', '\n']) for _ in range(s.range(1, 20)))
    else:
        # mutate a valid rendering
        t = list(' '.join(render(s, g_datum(s, 3, variant)) for _ in range(s.range(1, 3))))
        for _ in range(s.range(1, 3)):
            if not t:
                break
            i = s.below(len(t))
            m = s.below(4)
            if m == 0:
                del t[i]
            elif m == 1:
                t[i] = s.choice(FRAG)
            elif m == 2:
                t.insert(i, s.choice(FRAG))
            else:
                del t[i:]
        t = ''.join(t)
    t = t.replace('\0', '')
    lo, hi = fixrange(variant)
    rd = Reader(t, lo, hi)
    exp = []
    nontriv = False
    try:
        while True:
            o = rd.read()
            exp.append('=> ' + to_write(o))
            if o is EOF:
                break
            nontriv = True
    except ParseError:
        exp.append('!E')
        nontriv = rd.i >= 2
    return Case(t, exp, nontriv, mode=s.choice(['s', 'f']), variant=variant, tags=[variant, exp[-1][:2]])


def check_soup(c, env):
    if c.mode == 'f':
        path = os.path.join(env.dir(), 'soup')
        with open(path, 'wb') as f:
            f.write(c.text.encode('utf-8'))
        prog = '(define p (open-input-file "%s"))' % path
    else:
        prog = '(define p (open-input-string "%s"))' % ''.join('\\x%x;' % ord(ch) for ch in c.text)
    prog += '\n(read p)' * len(c.expect)
    r = env.run(prog, '-', c.variant)
    if not r.done:
        return 'did not complete: %s\n%s' % (r.describe(), r.text()[-500:])
    exp = '=> p\n' + '\n'.join(c.expect) + '\n#DONE\n'
    if r.text() != exp:
        return 'expected %r but got %r (%s)' % (exp, r.text()[:1000], r.err[:300])


PARTS = [Part('roundtrip', gen_rt, check_rt, 12000, 300000, variants=VARS),
         Part('soup', gen_soup, check_soup, 12000, 300000, variants=VARS)]
