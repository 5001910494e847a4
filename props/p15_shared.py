"""write-with-shared-structure against random object graphs."""
import sys
from vlib.engine import Part
from vlib.lines import Lines
from vlib.gen import g_datum, render
from vlib.sx import Pair, Vec, Str

ID = 'P15'
RULE = 'the graph has a shared node or a cycle'
ASSUMPTIONS = ['labels may have any numbers; only strings that are not empty, pairs, vectors and closures are labelled']
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']
PRE = '(use srfi-38)\n(use srfi-6)\n(use srfi-48)\n'


class N:
    def __init__(self, kind, v):
        self.kind, self.v = kind, v


class Bad(Exception):
    pass


def tokens(b):
    i, n = 0, len(b)
    while i < n:
        c = b[i]
        if c == ' ':
            i += 1
        elif c in '()':
            yield c
            i += 1
        elif b.startswith('#(', i):
            yield '#('
            i += 2
        elif c == '"':
            j = b.index('"', i + 1)
            yield b[i:j + 1]
            i = j + 1
        elif c == '#' and i + 1 < n and b[i + 1].isdigit():
            j = i + 1
            while j < n and b[j].isdigit():
                j += 1
            if j >= n or b[j] not in '=#':
                raise Bad('malformed label at %r' % b[i:i + 20])
            yield b[i:j + 1]
            i = j + 1
        else:
            j = i
            while j < n and b[j] not in ' ()"':
                j += 1
            yield b[i:j]
            i = j


def parse(text):
    """-> (root, labelled nodes)"""
    toks = list(tokens(text))
    pos = [0]
    labels = {}
    labelled = set()
    used = set()

    def peek():
        if pos[0] >= len(toks):
            raise Bad('text ends early')
        return toks[pos[0]]

    def take():
        t = peek()
        pos[0] += 1
        return t

    def datum(label=None):
        t = take()
        if t[0] == '#' and t[1:2].isdigit():
            n = int(t[1:-1])
            if t[-1] == '#':
                if n not in labels or label is not None:
                    raise Bad('label %d is used before its definition' % n)
                used.add(n)
                return labels[n]
            if n in labels or label is not None:
                raise Bad('label %d is defined twice' % n)
            labels[n] = None
            return datum(n)

        def reg(x):
            if label is not None:
                labels[label] = x
                labelled.add(id(x))
            return x
        if t == '(':
            if peek() == ')':
                take()
                return N('atom', '()')
            head = reg(N('pair', [None, None]))
            head.v[0] = datum()
            last = head
            while True:
                t = peek()
                if t == ')':
                    take()
                    last.v[1] = N('atom', '()')
                    return head
                if t == '.':
                    take()
                    last.v[1] = datum()
                    if take() != ')':
                        raise Bad('no ) after the tail')
                    return head
                x = N('pair', [datum(), None])
                last.v[1] = x
                last = x
        if t == '#(':
            x = reg(N('vec', []))
            while peek() != ')':
                x.v.append(datum())
            take()
            return x
        if t in (')', '.'):
            raise Bad('unexpected %s' % t)
        if t[0] == '"':
            return reg(N('str', t[1:-1]))
        if label is not None:
            raise Bad('the atom %s is labelled' % t)
        return N('atom', t)
    r = datum()
    if pos[0] != len(toks):
        raise Bad('text goes on after the datum')
    if used != set(labels):
        raise Bad('labels %s are never used' % sorted(set(labels) - used))
    return r, labelled


def iso(a, la, b):
    """the parsed graph a is the model graph b, with exactly the shared nodes of b labelled"""
    m, back = {}, {}
    count = {}
    st = [b]
    seen = set()
    count[id(b)] = 1
    while st:
        x = st.pop()
        if id(x) in seen or x.kind in ('atom', 'str'):
            continue
        seen.add(id(x))
        for y in x.v:
            count[id(y)] = count.get(id(y), 0) + 1
            st.append(y)
    st = [(a, b)]
    keep = []
    while st:
        x, y = st.pop()
        if x.kind != y.kind:
            return 'a %s is written as a %s' % (y.kind, x.kind)
        if x.kind == 'atom' or x.kind == 'str' and not y.v:
            if x.v != y.v:
                return '%s is written as %s' % (y.v, x.v)
            continue
        if m.get(id(x), y) is not y or back.get(id(y), x) is not x:
            return 'sharing differs at a %s' % x.kind
        if id(x) in m:
            continue
        m[id(x)], back[id(y)] = y, x
        keep.append((x, y))
        if (id(x) in la) != (count[id(y)] > 1):
            return 'a %s referenced %d times is %slabelled' % (x.kind, count[id(y)], '' if id(x) in la else 'not ')
        if x.kind == 'str':
            if x.v != y.v:
                return '%r is written as %r' % (y.v, x.v)
            continue
        if len(x.v) != len(y.v):
            return 'a vector of %d elements is written with %d' % (len(y.v), len(x.v))
        st += list(zip(x.v, y.v))


ATOMS = ["()", "a", "b", "1", "-2", "#t", "#f", "foo", "1000000"]


def gen(s):
    v = s.weighted([(5, VARS[0]), (3, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    n = s.range(1, s.choice([3, 8, 20, 60, 300, 900] if s.bool(1, 4) else [3, 8, 20]))
    shape = s.below(4)
    nodes, forms = [], []
    for i in range(n):
        k = s.below(10)
        if k <= 5:
            nodes.append(N('pair', [None, None]))
            forms.append('(cons 0 0)')
        elif k <= 8:
            m = s.below(4)
            nodes.append(N('vec', [None] * m))
            forms.append('(make-vector %d 0)' % m)
        else:
            t = s.choice(['', 'x', 'yy', 'あ'])
            nodes.append(N('str', t))
            forms.append('(string-copy "%s")' % t)
    L = ['(define g (vector %s))' % ' '.join(forms)]
    sets = []
    for i, x in enumerate(nodes):
        if x.kind == 'str':
            continue
        for j in range(len(x.v)):
            k = s.below(8)
            if k < (1 if n > 100 else 3):
                a = s.choice(ATOMS)
                x.v[j] = N('atom', a)
                e = "'" + a
            else:
                if shape == 0:
                    t = s.below(n)
                elif shape == 1:
                    # forest with few shared nodes
                    t = i + 1 if j == len(x.v) - 1 and i + 1 < n else s.below(n) if s.bool(1, 8) else None
                elif shape == 2:
                    t = min(n - 1, i + s.range(1, 3))      # acyclic, shared
                    t = None if t <= i else t
                else:
                    t = max(0, i - s.below(6)) if s.bool() else (i + 1) % n
                if t is None:
                    x.v[j] = N('atom', '7')
                    e = '7'
                else:
                    x.v[j] = nodes[t]
                    e = '(vector-ref g %d)' % t
            f = 'vector-set! (vector-ref g %d) %d' % (i, j) if x.kind == 'vec' else 'set-c%sr! (vector-ref g %d)' % ('ad'[j], i)
            sets.append('(%s %s)' % (f, e))
    L += ['(begin %s 0)' % ' '.join(sets[i:i + 50]) for i in range(0, len(sets), 50)]
    roots = []
    outs = []
    for _ in range(s.range(1, 3)):
        r = 0 if s.bool() else s.below(n)
        form = s.choice(['(write/ss %s)', '(write-with-shared-structure %s)', '(let ((p (open-output-string))) (write/ss %s p) (display (get-output-string p)))',
                         '(display (format "~w" %s))', '(write/ss %s (current-output-port))', '(write/ss %s (current-output-port) 1)'])
        if s.bool(1, 6):
            outs.append(('(guard (e (#t (display "ERR"))) (write/ss (vector-ref g %d) %s))' % (r, s.choice(['5', '(open-input-string "a")'])), 'ERR'))
        if s.bool(1, 5):
            outs.append(('(write (list g0 g0 "a"))', '(#(1 2) #(1 2) "a")'))
        if s.bool(1, 6):
            outs.append(("(write/ss (eval (list 'lambda '(y) (list 'quote (vector-ref g %d))) (interaction-environment)))" % r, ('closure', nodes[r])))
        elif s.bool(1, 6):
            # an error object, alone or next to something that it shares
            j = s.below(3)
            g = '(vector-ref g %d)' % r
            if j == 0:
                outs.append(('(guard (e (#t (write/ss e))) (error "m" %s 5))' % g, ('#<error "m" ', ' 5>', nodes[r])))
            elif j == 1:
                outs.append(('(guard (e (#t (write/ss e))) (error %s 5))' % g, ('#<error ', ' 5>', nodes[r])))
            else:
                outs.append(('(guard (e (#t (write/ss (vector e %s)))) (error "m" %s 5))' % (g, g), ('#(#<error "m" ', ')', nodes[r])))
        else:
            outs.append((form % ('(vector-ref g %d)' % r), nodes[r]))
    if s.bool(1, 6):
        outs.append(('(list (values (vector-ref g %d) 1))' % r, ('values', nodes[r])))
    elif s.bool(1, 3):
        outs.append(('(error "m" (vector-ref g %d))' % r, ('err', nodes[r])))
    L.append('(define g0 (vector 1 2))')
    text = '\n'.join(L) + '\n' + '\n'.join('(begin %s (newline))' % f for f, _ in outs)
    from vlib.engine import Case
    seen, shared = set(), False
    st = [r if isinstance(r, N) else r[-1] for _, r in outs if not isinstance(r, str)]
    while st:
        x = st.pop()
        if x.kind == 'atom':
            continue
        if id(x) in seen:
            shared = True
            continue
        seen.add(id(x))
        if x.kind != 'str':
            st += x.v
    c = Case(text, None, shared, tags=[v, 'shape%d' % shape] + (['big'] if len(seen) > 170 else []), variant=v)
    c.outs, c.head = outs, len(L)
    return c


def check(c, env):
    r = env.run(c.text, 'q', c.variant, cpu=20, preload=PRE + '(use srfi-34)\n')
    lines = r.out.decode('utf-8', 'replace').split('\n')
    if not r.done or len(lines) != len(c.outs) + 2:
        return 'output %r: %s' % (lines[:6], r.describe())
    for (f, want), got in zip(c.outs, lines):
        if isinstance(want, tuple) and len(want) == 3:
            pre, post, want = want
            if not got.startswith(pre) or not got.endswith(post):
                return '%s: %s' % (f, got)
            got = got[len(pre):len(got) - len(post)]
            if post == ')':
                # the graph, the end of the error object and the graph again
                i = got.rfind(' 5> ')
                if i < 0:
                    return '%s: %s' % (f, got)
                got = '#(%s)' % (got[:i] + got[i + 3:])
                want = N('vec', [want, want])
        elif isinstance(want, tuple) and want[0] == 'closure':
            if not got.startswith('#<closure ((y) (quote ') or not got.endswith('))>'):
                return '%s: %s' % (f, got)
            got, want = got[22:-3], want[1]
        elif isinstance(want, tuple):
            if got != '!E':
                return '%s: expected an error but got %s' % (f, got)
            m = [l for l in r.err.decode('utf-8', 'replace').split('\n') if l.startswith('Error: ')]
            pre, post = ('Error: m ', '') if want[0] == 'err' else ('Error: in (function call): multiple values are not allowed here: #<values (', ' 1)>')
            if not m or not m[-1].startswith(pre) or not m[-1].endswith(post):
                return '%s: error message %r' % (f, m[-1:])
            got, want = m[-1][len(pre):len(m[-1]) - len(post)], want[1]
        if isinstance(want, str):
            if got != want:
                return '%s: expected %s but got %s' % (f, want, got)
            continue
        try:
            a, la = parse(got)
            why = iso(a, la, want)
        except (Bad, ValueError, RecursionError) as e:
            why = str(e)
        if why:
            return '%s: %s in %s' % (f, why, got[:1000])


def tree(s):
    d = g_datum(s, depth=5, sized=8)
    return d


def gen_plain(s):
    """without sharing write/ss is write"""
    from vlib.engine import Case
    v = s.weighted([(5, VARS[0]), (3, VARS[1])])
    d = tree(s)
    t = render(s, d)
    text = "(define d '%s)\n(define p (open-output-string))\n(define q (open-output-string))\n(write/ss d p)\n(write d q)\n" \
           "(if (string=? (get-output-string p) (get-output-string q)) 'same (list 'differ (get-output-string p)))" % t
    return Case(text, None, isinstance(d, (Pair, Vec)), tags=[v], variant=v)


def check_plain(c, env):
    r = env.run(c.text, '-', c.variant, preload=PRE)
    if not r.text().endswith('=> same\n#DONE\n'):
        return 'write/ss differs from write without sharing: %r %s' % (r.text()[-400:], r.describe())


SIZES = [127, 128, 129, 170, 171, 172, 255, 256, 257, 300, 341, 342, 343, 511, 512, 513, 600, 682, 683, 1000]
LARGE = [1023, 1025, 1365, 1366, 1400, 2048, 2100, 2731, 3000, 5462]


def gen_large(s):
    """many nodes, many labels, nested labels and long vectors"""
    from vlib.engine import Case
    sys.setrecursionlimit(50000)
    v = s.weighted([(5, VARS[0]), (3, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    n = s.choice(SIZES if s.bool(4, 5) else LARGE)
    kind = s.choice(['chain', 'picks', 'picks', 'nest'])
    sh = s.choice([1, 2, 3, 10, 60, 10 ** 6])       # one of so many nodes is shared
    if kind == 'chain':
        # a list whose tails are also elements of another one
        ps = [N('pair', [N('atom', str(i)), None]) for i in range(n)]
        for i in range(n):
            ps[i].v[1] = ps[i + 1] if i + 1 < n else N('atom', '()')
        ix = [i for i in range(n) if s.bool(1, sh)] if sh < 10 ** 6 else [n - 1]
        tails = N('vec', [ps[i] for i in ix])
        L = ['(define l (let lp ((i %d) (r (quote ()))) (if (< i 0) r (lp (- i 1) (cons i r)))))' % (n - 1),
             '(define w (list->vector (let lp ((l l) (i 0) (x (quote (%s)))) (cond ((null? x) (quote ())) ((= i (car x)) (cons l (lp (cdr l) (+ i 1) (cdr x)))) (else (lp (cdr l) (+ i 1) x))))))' % ' '.join(map(str, ix))]
        if s.bool():
            e, root = '(vector w l)', N('vec', [tails, ps[0]])
        else:
            e, root = '(vector l w)', N('vec', [ps[0], tails])
    elif kind == 'picks':
        # a long vector or list of objects some of which occur again
        m = s.below(3)
        ns = [N('pair', [N('atom', str(i)), N('atom', '()')]) if m == 0 or m == 2 and i % 2 else N('vec', [N('atom', str(i))]) for i in range(n)]
        ix = list(range(n))
        if sh < 10 ** 6:
            again = [i for i in ix if s.bool(1, sh)]
            k = s.below(4)
            if k == 0:
                ix = ix + again
            elif k == 1:
                ix = again + ix[::-1]
            elif k == 2:
                ix = sorted(ix + again)
            else:
                for i in again:
                    ix.insert(s.below(len(ix) + 1), i)
        else:
            ix.append(s.choice([0, n - 1, n // 2]))
        L = ['(define g (let lp ((i %d) (r (quote ()))) (if (< i 0) (list->vector r) (lp (- i 1) (cons %s r)))))'
             % (n - 1, ['(list i)', '(vector i)', '(if (odd? i) (list i) (vector i))'][m]),
             '(define l (map (lambda (i) (vector-ref g i)) (quote (%s))))' % ' '.join(map(str, ix))]
        els = [ns[i] for i in ix]
        if s.bool():
            e, root = '(list->vector l)', N('vec', els)
        else:
            e, root = 'l', None
            for x in reversed(els):
                root = N('pair', [x, root or N('atom', '()')])
    else:
        # vectors in vectors, each of them also seen from within
        n = min(n, 600)
        L = ['(define w (make-vector %d 0))' % n, '(define top (vector 0))',
             '(let lp ((i 0) (at top)) (if (< i %d) (let ((x (if (odd? i) (vector 0 i at) (list 0 i at)))) (vector-set! w i x) (if (pair? at) (set-car! at x) (vector-set! at 0 x)) (lp (+ i 1) x))))' % n]
        top = at = N('vec', [N('atom', '0')])
        for i in range(n):
            if i % 2:
                x = N('vec', [N('atom', '0'), N('atom', str(i)), at])
            else:
                x = N('pair', [N('atom', '0'), N('pair', [N('atom', str(i)), N('pair', [at, N('atom', '()')])])])
            at.v[0] = x
            at = x
        e, root = 'top', top
    text = '\n'.join(L) + '\n(begin (write/ss %s) (newline))' % e
    c = Case(text, None, kind == 'nest' or bool(ix), tags=[v, kind, 'n>1000' if n > 1000 else 'n<=1000'], variant=v)
    c.outs, c.head = [('(write/ss %s)' % e, root)], len(L)
    return c


PARTS = [Part('graphs', gen, check, 12000, 250000, variants=VARS), Part('trees', gen_plain, check_plain, 4000, 80000, variants=VARS[:2]),
         Part('large', gen_large, check, 600, 12000, variants=VARS)]
