"""Python model of SigScheme data: values, `write`/`display`, `read`."""
import sys


class Sym:
    __slots__ = ('name',)
    tab = {}

    def __repr__(self):
        return 'Sym(%s)' % self.name


def sym(name):
    s = Sym.tab.get(name)
    if s is None:
        s = Sym.tab[name] = Sym()
        s.name = name
    return s


class Char:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Char) and o.c == self.c

    def __hash__(self):
        return hash(('ch', self.c))

    def __repr__(self):
        return 'Char(%#x)' % self.c


class Str:
    __slots__ = ('v', 'const')

    def __init__(self, v, const=False):
        self.v = list(v)
        self.const = const

    def __repr__(self):
        return 'Str(%r)' % ''.join(self.v)

    @property
    def s(self):
        return ''.join(self.v)


class Pair:
    __slots__ = ('car', 'cdr')

    def __init__(self, a, d):
        self.car, self.cdr = a, d


class Vec:
    __slots__ = ('v', 'const')

    def __init__(self, v, const=False):
        self.v = list(v)
        self.const = const


class Const:
    __slots__ = ('rep',)

    def __init__(self, rep):
        self.rep = rep

    def __repr__(self):
        return self.rep


class Values:
    def __init__(self, v):
        self.v = list(v)


NIL = Const('()')
EOF = Const('#<eof>')
UNDEF = Const('#<undef>')


def lst(items, tail=None):
    r = NIL if tail is None else tail
    for x in reversed(items):
        r = Pair(x, r)
    return r


def unlist(p):
    out = []
    while isinstance(p, Pair):
        out.append(p.car)
        p = p.cdr
    if p is not NIL:
        raise ValueError('improper')
    return out


CHARNAMES = {32: 'space', 10: 'newline', 0: 'nul', 7: 'alarm', 8: 'backspace', 9: 'tab', 11: 'vtab', 12: 'page',
             13: 'return', 27: 'esc', 127: 'delete'}
STRESC = {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\a': '\\a', '\b': '\\b', '\t': '\\t', '\v': '\\v', '\f': '\\f',
          '\r': '\\r', '\x1b': '\\x1b;', '\x7f': '\\x7f;', '\x00': '\\x00;'}


def write_char(c):
    if c in CHARNAMES:
        return '#\\' + CHARNAMES[c]
    if c < 32:
        return '#\\x%02x' % c
    return '#\\' + chr(c)


def write_str(s):
    return '"' + ''.join(STRESC.get(c, c) for c in s) + '"'


def to_write(o, display=False):
    out = []
    _w(o, display, out)
    return ''.join(out)


def _w(o, d, out):
    # iterative in the cdr direction
    if o is True:
        out.append('#t')
    elif o is False:
        out.append('#f')
    elif isinstance(o, int):
        out.append(str(o))
    elif isinstance(o, Sym):
        out.append(o.name)
    elif isinstance(o, Str):
        out.append(o.s if d else write_str(o.s))
    elif isinstance(o, Char):
        out.append(chr(o.c) if d else write_char(o.c))
    elif isinstance(o, Pair):
        out.append('(')
        while True:
            _w(o.car, d, out)
            o = o.cdr
            if isinstance(o, Pair):
                out.append(' ')
            else:
                break
        if o is not NIL:
            out.append(' . ')
            _w(o, d, out)
        out.append(')')
    elif isinstance(o, Vec):
        out.append('#(')
        for i, x in enumerate(o.v):
            if i:
                out.append(' ')
            _w(x, d, out)
        out.append(')')
    elif isinstance(o, Const):
        out.append(o.rep)
    elif isinstance(o, Values):
        out.append('#<values>')
    else:
        out.append(o.write_rep() if hasattr(o, 'write_rep') else '#<%s>' % type(o).__name__)


def equal(a, b):
    """R5RS equal? on the model"""
    stack = [(a, b)]
    while stack:
        a, b = stack.pop()
        if a is b:
            continue
        if isinstance(a, bool) or isinstance(b, bool):
            return False
        if isinstance(a, int) and isinstance(b, int):
            if a != b:
                return False
        elif isinstance(a, Char) and isinstance(b, Char):
            if a.c != b.c:
                return False
        elif isinstance(a, Str) and isinstance(b, Str):
            if a.v != b.v:
                return False
        elif isinstance(a, Pair) and isinstance(b, Pair):
            stack.append((a.cdr, b.cdr))
            stack.append((a.car, b.car))
        elif isinstance(a, Vec) and isinstance(b, Vec):
            if len(a.v) != len(b.v):
                return False
            stack.extend(zip(a.v, b.v))
        else:
            return False
    return True


def eqv(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Char) and isinstance(b, Char):
        return a.c == b.c
    return False


# ---------------------------------------------------------------- reader
class ParseError(Exception):
    pass


NAME2CH = {v: k for k, v in CHARNAMES.items()}
NAME2CH['linefeed'] = 10
DELIM = set(' \t\n\v\f\r()"\';`,#[]{}|\\') | {chr(i) for i in range(32)} | {'\x7f'}
WS = set(' \t\n\v\f\r')
STRIN = {'"': '"', '\\': '\\', 'n': '\n', 'a': '\a', 'b': '\b', 't': '\t', 'v': '\v', 'f': '\f', 'r': '\r'}


class Reader:
    """Reference reader over a str (Unicode port)."""
    def __init__(self, text, fix_min=-(1 << 59), fix_max=(1 << 59) - 1, const=False):
        self.t, self.i, self.const = text, 0, const
        self.fix_min, self.fix_max = fix_min, fix_max

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ''

    def get(self):
        c = self.peek()
        self.i += 1 if c else 0
        return c

    def skip(self):
        while True:
            c = self.peek()
            if c == ';':
                while self.peek() not in ('\n', '\r', ''):
                    self.i += 1
            elif c and c in WS:
                self.i += 1
            else:
                return c

    def token(self):
        s = ''
        while True:
            c = self.peek()
            if not s and not c:
                raise ParseError('unexpected EOF at a token')
            if s and (not c or c in DELIM):
                return s
            if not s and c in DELIM:
                # the first char of a token is taken as is
                pass
            s += c
            self.i += 1

    def number(self, tok, radix):
        sgn = tok[1:] if tok[:1] in '+-' else tok
        digs = '0123456789abcdef'[:radix]
        if not sgn or any(c.lower() not in digs for c in sgn):
            raise ParseError('ill-formatted number')
        v = int(tok, radix)
        if not self.fix_min <= v <= self.fix_max:
            raise ParseError('fixnum overflow')
        return v

    def read(self):
        c = self.skip()
        if c == '':
            return EOF
        o = ord(c)
        if o > 127 or c.isalpha() or c in '!$%&*/:<=>?^_~':
            return sym(self.token())
        if c.isdigit():
            return self.number(self.token(), 10)
        if c in '+-':
            t = self.token()
            return sym(t) if len(t) == 1 else self.number(t, 10)
        if c == '.':
            t = self.token()
            if t == '...':
                return sym(t)
            raise ParseError('invalid identifier')
        if c == '@':
            raise ParseError('@')
        self.i += 1
        if c == '(':
            return self.list()
        if c == '"':
            return self.string()
        if c in '\'`':
            return self.quoted('quote' if c == "'" else 'quasiquote')
        if c == ',':
            n = self.peek()
            if n == '':
                raise ParseError('EOF in unquote')
            if n == '@':
                self.i += 1
                return self.quoted('unquote-splicing')
            return self.quoted('unquote')
        if c == '#':
            n = self.get()
            if n == 't':
                return True
            if n == 'f':
                return False
            if n == '(':
                return Vec(unlist_strict(self.list()), self.const)
            if n == '\\':
                return self.char()
            if n and n in 'bodx':
                return self.number(self.token(), {'b': 2, 'o': 8, 'd': 10, 'x': 16}[n])
            raise ParseError('#')
        raise ParseError('reserved or invalid %r' % c)

    def quoted(self, name):
        o = self.read()
        if o is EOF:
            raise ParseError('EOF in quote')
        return lst([sym(name), o])

    def list(self):
        items = []
        while True:
            c = self.skip()
            if c == '':
                raise ParseError('EOF inside list')
            if c == ')':
                self.i += 1
                return lst(items)
            if c == '.':
                t = self.token()
                if t == '.':
                    n = self.peek()
                    if n == '' or n not in WS:
                        raise ParseError('implicit dot delimitation')
                    if not items:
                        raise ParseError('dot at start')
                    cdr = self.read()
                    c = self.skip()
                    if c:
                        self.i += 1
                    if c != ')':
                        raise ParseError('bad dot')
                    return lst(items, cdr)
                if t == '...':
                    items.append(sym(t))
                    continue
                raise ParseError('bad dot')
            items.append(self.read())

    def char(self):
        c = self.get()
        n = self.peek()
        if c == '':
            raise ParseError('EOF in char')
        if n == '' or n in DELIM:
            return Char(ord(c))
        t = c + self.token()
        if t[0] == 'x' and all(x in '0123456789abcdefABCDEF' for x in t[1:]):
            v = int(t[1:], 16)
            if v > 0x10ffff or 0xd800 <= v <= 0xdfff or len(t) > 9:
                raise ParseError('invalid unicode')
            return Char(v)
        if t.lower() in NAME2CH and t.isascii():
            return Char(NAME2CH[t.lower()])
        raise ParseError('invalid char literal')

    def string(self):
        out = []
        while True:
            c = self.get()
            if c == '':
                raise ParseError('EOF in string')
            if c == '"':
                return Str(out, self.const)
            if c == '\\':
                c = self.get()
                if c == 'x':
                    t = self.token()
                    if len(t) > 8 or any(x not in '0123456789abcdefABCDEF' for x in t):
                        raise ParseError('hex')
                    v = int(t, 16)
                    if v > 0x10ffff or 0xd800 <= v <= 0xdfff:
                        raise ParseError('invalid unicode')
                    if self.get() != ';':
                        raise ParseError('hex ;')
                    c = chr(v)
                elif c in STRIN and c != '':
                    c = STRIN[c]
                else:
                    raise ParseError('escape')
            if c == '\0':
                raise ParseError('nul')
            out.append(c)


def unlist_strict(p):
    try:
        return unlist(p)
    except ValueError:
        raise ParseError('bad vector')


def parse(text, **kw):
    return Reader(text, **kw).read()


def parse_all(text, **kw):
    r = Reader(text, **kw)
    out = []
    while True:
        o = r.read()
        if o is EOF:
            return out
        out.append(o)
