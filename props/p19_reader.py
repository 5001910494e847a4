"""The reader on arbitrary bytes, in every encoding."""
from vlib.engine import Part, Case
from vlib.gen import *
from vlib.mb import ENCS
from .p16_codecs import PY, g_text

ID = 'P19'
RULE = 'at least one datum or parse error after two or more bytes that are not white space'
ASSUMPTIONS = ['nesting of the text is at most 1500 levels deep (the reader is recursive)']
VARS = ['compact-san', 'fatty-san', 'compact-opt', 'fatty-opt']
ENC = ['UTF-8', 'UTF-8', 'UTF-8'] + [e for e in ENCS if e != 'UTF-8']

FRAG = [b'(', b')', b'(', b')', b'[', b']', b'{', b'}', b"'", b'`', b',', b',@', b'#(', b'#', b'.', b'..', b'...', b'"', b'\\', b';', b'#;', b'#|', b'|#', b'|',
        b'#t', b'#f', b'#T', b'#F', b'#\\', b'#\\a', b'#\\space', b'#\\newline', b'#\\x', b'#\\x41', b'#\\xd800', b'#\\x110000', b'#\\x10ffff',
        b'#\\xffffffff', b'#\\xfffffffff', b'#\\nul', b'#\\delete', b'#\\backspace', b'#\\backspacex', b'#\\()', b'#\\;', b'#\\"', b'#d', b'#x', b'#b', b'#o', b'#xff', b'#b101', b'#b2', b'#e1', b'#i1', b'#d#x1',
        b'+', b'-', b'1+', b'-1', b'+1', b'1', b'007', b'+-1', b'-.', b'.5', b'1.5', b'1/2', b'1e3', b'576460752303423487', b'576460752303423488', b'-576460752303423488', b'-576460752303423489',
        b'9223372036854775807', b'9223372036854775808', b'-9223372036854775808', b'-9223372036854775809', b'99999999999999999999999999', b'#x7fffffffffffffff', b'#xffffffffffffffff',
        b'a', b'abc', b'A-b', b'a.b', b'@', b'@a', b'quote', b'unquote-splicing', b'#!eof', b'#!', b'#!default', b'#<undef>', b'#unspecified', b'#1=', b'#1#', b'#vu8(', b'#u8(', b'#"', b'#a',
        b'"a"', b'"\\n"', b'"\\x41;"', b'"\\x41"', b'"\\x;"', b'"\\xd800;"', b'"\\x110000;"', b'"\\x10ffff;"', b'"\\xfffffffff;"', b'"\\q"', b'"\\\n"', b'"\n"', b'"\\',  b'"\\x', b'\\x41;', b'|a b|',
        b'\0', b'\x01', b'\x7f', b'\x80', b'\xff', b'\xfe', b'\xc0\x80', b'\xe3\x81', b'\xe3\x81\x82', b'\xf0\x9f\x98\x80', b'\xf4\x90\x80\x80', b'\xed\xa0\x80', b'\xf8\x88\x80\x80\x80', b'\x8e', b'\x8f', b'\x8e\xb1', b'\x8f\xb0\xa1',
        b'\xa4\xa2', b'\x82\xa0', b'\x81\x5c', b'\x83\x5c', b'\x82', b'\xa4', b'\x1b$B', b'\x0b', b'\x0c', b'\r', b'\n', b' ', b'\t', b'\xef\xbb\xbf', b'\xc2\xa0', b'\xe3\x80\x80']
LONG = [63, 64, 65, 66, 67, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8192, 20000]


def long_tok(s, enc):
    n = s.choice(LONG) + s.range(-1, 1)
    u = s.choice([b'a', b'1', b'\xe3\x81\x82', b'\xa4\xa2', b'-', b'.', b'\\\\', b'\\x3042;', b'\\n', b' ', b';', b"'", b'('])
    if u in (b"'", b'('):
        n = min(n, 1500)
    body = u * n
    if s.bool(1, 3):
        body += s.choice([b'\xff', b'\xe3', b'\xa4', b'\xe3\x81\x82', b'\xe3\x81', b'\\', b'x', b')', b'\0'])
    pre, post = s.choice([(b'"', b'"'), (b'', b''), (b'#x', b''), (b'-', b''), (b'#\\', b''), (b'#\\x', b''), (b'"\\x', b';"'), (b';', b'\n1'), (b'#', b''), (b'#(', b')'), (b'"', b''), (b'(a . ', b')')])
    return pre + body + post


def g_bytes(s, v):
    enc = s.choice(ENC)
    k = s.below(8)
    if k == 0:
        t = bytes(s.below(256) for _ in range(s.range(1, 30)))
        kind = 'random'
    elif k <= 3:
        t = b''.join(s.choice(FRAG) + s.choice([b'', b' ', b'', b'\n']) for _ in range(s.range(1, 25)))
        kind = 'soup'
    elif k == 4:
        t = long_tok(s, enc)
        kind = 'long'
    elif k == 5:
        d = s.choice([20, 200, 1000, 1500]) + s.below(9)
        t = s.choice([b'(', b"'", b'#(', b'(a . ', b'`', b',@', b'(#(']) * (d // 2)
        if s.bool():
            t += s.choice([b'a', b'1', b'"x"', b'\xff', b'#\\a']) + b')' * s.choice([d // 2, d // 2 - 1, d // 2 + 1, d])
        kind = 'deep'
    else:
        if enc == 'UTF-8':
            u = ' '.join(render(s, g_datum(s, 3, v)) for _ in range(s.range(1, 3))).encode()
        else:
            u = ('(%s "%s" #\\%s %s)' % tuple([g_text(s, enc).replace('"', '').replace('\\', '') for _ in range(2)] + ['a', 'b'])).encode(PY[enc])
        t = bytearray(u)
        for _ in range(s.range(0, 3)):
            if not t:
                break
            i = s.below(len(t))
            m = s.below(5)
            if m == 0:
                del t[i]
            elif m == 1:
                t[i] = s.below(256)
            elif m == 2:
                t[i:i] = s.choice(FRAG)
            elif m == 3:
                j = s.below(len(t))
                t[i:i] = t[j:j + s.range(1, 8)]
            else:
                del t[i:]
        t = bytes(t)
        kind = 'mutated'
    return enc, kind, t


def gen(s):
    v = s.weighted([(4, VARS[0]), (2, VARS[1]), (3, VARS[2]), (2, VARS[3])])
    enc, kind, t = g_bytes(s, v)
    return Case(t, None, len(t.split()) > 0 and len(b''.join(t.split())) >= 2, tags=[v, enc, kind], variant=v, enc=enc)


def bad(r):
    if r.timeout:
        return 'does not end: ' + r.describe()
    if not r.done:
        return 'did not complete: %s after %r' % (r.describe(), r.out[-300:])


def check(c, env):
    f = env.run(c.text, 'rf', c.variant, enc=c.enc)
    b = bad(f)
    if b:
        return 'file port: ' + b
    if b'\0' not in c.text:
        p = env.run(c.text, 'r', c.variant, enc=c.enc)
        b = bad(p)
        if b:
            return 'string port: ' + b
        if p.out != f.out:
            return 'a file port reads %r but a string port reads %r' % (f.out[-1500:], p.out[-1500:])
    ls = [l for l in f.out.split(b'\n')[:-2]]
    if any(not l.startswith(b'=> ') and l != b'!P' for l in ls):
        # a datum whose representation spans lines
        return None if b'\n' in c.text else 'stray output %r' % f.out[-1500:]
    data = [l[3:] for l in ls if l != b'!P']
    if c.enc != 'UTF-8' and any(l.endswith(b'!P') for l in data):
        return None     # the hex notation gives the Unicode char also where the current encoding cannot write it
    w = b'\n'.join(data)
    r = env.run(w, 'rf', c.variant, enc=c.enc)
    b = bad(r)
    if b:
        return 'reading the written data back: ' + b
    if r.out != b''.join(b'=> ' + d + b'\n' for d in data) + b'#DONE\n':
        return 'written data %r read back as %r' % (w[-1500:], r.out[-1500:])


PARTS = [Part('bytes', gen, check, 16000, 600000, variants=VARS)]
