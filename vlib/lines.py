"""Programs whose every top-level form has an expected output line."""
from .engine import Case


class Lines:
    """collects (form, expected line) pairs; both bytes"""
    def __init__(self, pre=()):
        self.t, self.e, self.tags = [], [], []
        self.nt = False

    def add(self, text, expect, tag=None, nt=False):
        if isinstance(text, str):
            text = text.encode('utf-8')
        if isinstance(expect, str):
            expect = expect.encode('utf-8')
        assert b'\n' not in expect
        self.t.append(text)
        self.e.append(expect)
        if tag:
            self.tags.append(tag)
        self.nt = self.nt or nt

    def case(self, tags=(), nontrivial=None, **kw):
        c = Case(b'\n'.join(self.t), None, self.nt if nontrivial is None else nontrivial, tags=self.tags + list(tags), **kw)
        c.forms, c.lines = self.t, self.e
        return c


def hexify(b):
    return b.decode('utf-8', 'backslashreplace')


def check_lines(c, env, mode='-', **kw):
    """every form printed exactly its expected line"""
    r = env.run(c.text, mode, c.variant, **kw)
    want = b'\n'.join(c.lines + [b'#DONE', b''])
    if r.out == want:
        return None
    got = r.out.split(b'\n')
    for i, e in enumerate(c.lines):
        g = got[i] if i < len(got) else None
        if g != e:
            if g is None or (i == len(got) - 1 and not r.done):
                return '%s: expected %s but the interpreter stopped: %s' % (hexify(c.forms[i]), hexify(e), r.describe())
            return '%s: expected %s but got %s%s' % (hexify(c.forms[i]), hexify(e), hexify(g),
                                                     '' if r.done else ' and then the interpreter stopped: ' + r.describe())
    return 'extra output %s %s' % (hexify(r.out[len(want) - 6:][:300]), r.describe())
