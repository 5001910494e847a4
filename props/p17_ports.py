"""Port histories against a model of ports and files."""
import os
from vlib import mb
from vlib.engine import Case, Part
from vlib.lines import Lines, hexify
from vlib.gen import *

ID = 'P17'
RULE = 'at least three ports or extents are used, or an operation meets a closed, exhausted or failing port'
ASSUMPTIONS = ['R5RS leaves reading a file that is being written, and what happens to the port of an abandoned with-output-to-file, open; neither is generated',
               'char-ready? on file ports is a documented limitation and not used']
VARS = ['compact-opt', 'fatty-opt', 'compact-san', 'fatty-san']
PRE = '''(use srfi-6) (use srfi-34)
(define in0 (current-input-port)) (define out0 (current-output-port))
(define (churn n) (if (= n 0) 'ok (begin (make-vector 2 n) (churn (- n 1)))))
(define (take p n) (if (= n 0) '() (let ((c (read-char p))) (if (eof-object? c) (list 'eof) (cons c (take p (- n 1)))))))
(define (all p) (let ((c (read-char p))) (if (eof-object? c) '() (cons c (all p)))))
(define (home) (list (eq? in0 (current-input-port)) (eq? out0 (current-output-port))))
'''
ESC = {'"': '\\"', '\\': '\\\\'}


def lit(t):
    return '"%s"' % ''.join(c if c.isalnum() and c.isascii() or c in ' ()\'.;-+' else '\\x%x;' % ord(c) for c in t)


def wch(c):
    return to_write(Char(ord(c)))


class P:
    def __init__(self, kind, name, text='', path=None):
        self.kind, self.name, self.text, self.path = kind, name, text, path
        self.i = 0
        self.open = True
        self.bad = False       # state unknown after an error: may only be closed
        self.pending = False   # written characters are not flushed yet

    @property
    def inp(self):
        return self.kind in ('is', 'if')


def g_text(s, variant):
    """what input ports deliver: data and characters"""
    k = s.below(5)
    if k == 0:
        return g_str(s, 12)
    if k == 1:
        return ''.join(s.choice(['a', ' ', '\n', '\r\n', ';x\n', '1', '(', ')', '"', 'é', '漢', '😀', '.', "'"]) for _ in range(s.size(14)))
    t = ''
    for _ in range(s.range(0, 4)):
        t += render(s, g_datum(s, 2, variant)) + s.choice([' ', '\n', '  ', ' ;c\n', ''])
    return t.replace('\0', '')


def g_out(s, variant):
    """-> (datum literal, written, displayed)"""
    while True:
        d = g_datum(s, 2, variant)
        w, t = to_write(d), to_write(d, True)
        if '\0' not in w + t:
            return "(quote %s)" % w, w, t


class M:
    def __init__(self, s, variant):
        self.s, self.v = s, variant
        self.L = []          # (form, alternatives)
        self.ports = []
        self.files = {}      # path -> content (as on disk)
        self.n = 0
        self.marks = 0
        self.tags = []
        lo, hi = fixrange(variant)
        self.rk = dict(fix_min=lo, fix_max=hi)

    def add(self, form, *alts):
        self.L.append((form, alts))

    def fresh(self):
        self.n += 1
        return 'p%d' % self.n

    def path(self):
        return 'f%d' % self.s.below(4)

    def readers(self, path):
        return any(p.path == path and p.open for p in self.ports)

    # effect of an input operation on the model port -> expected value text, or None for an error
    def inop(self, p, op):
        t = p.text
        if op in ('read-char', 'peek-char'):
            if p.i >= len(t):
                return '#<eof>'
            c = t[p.i]
            if op == 'read-char':
                p.i += 1
            return wch(c)
        if op == 'char-ready?':
            return '#t'
        r = Reader(t, **self.rk)
        r.i = p.i
        try:
            o = r.read()
        except ParseError:
            p.bad = True
            return None
        p.i = r.i
        return '#<eof>' if o is EOF else to_write(o)

    def outop(self):
        """-> (form with %s for the port argument, text, flushed, value)"""
        s = self.s
        k = s.below(4)
        if k == 0:
            c = chr(g_uchar(s) or 65)
            return '(write-char %s%%s)' % wch(c).replace('%', '%%'), c, False
        if k == 1:
            return '(newline%s)', '\n', True
        l, w, d = g_out(s, self.v)
        l = l.replace('%', '%%')
        return ('(write %s%%s)' % l, w, True) if k == 2 else ('(display %s%%s)' % l, d, True)

    def step(self):
        s = self.s
        k = s.below(20)
        if k == 0 and len(self.ports) < 8 or not self.ports:
            n, t = self.fresh(), g_text(s, self.v)
            self.add('(define s%s (string-copy %s))' % (n, lit(t)), '=> s' + n)
            self.add('(define %s (open-input-string s%s))' % (n, n), '=> ' + n)
            self.ports.append(P('is', n, t))
        elif k == 1:
            n = self.fresh()
            self.add('(define %s (open-output-string))' % n, '=> ' + n)
            self.ports.append(P('os', n))
        elif k == 2:
            path = self.path()
            n = self.fresh()
            if path not in self.files:
                self.add('(define %s (open-input-file "[@DIR@]/%s"))' % (n, path), '!E')
                self.marks += 1
                return
            if any(q.path == path and q.open and q.kind == 'of' and q.pending for q in self.ports):
                return
            self.add('(define %s (open-input-file "[@DIR@]/%s"))' % (n, path), '=> ' + n)
            self.ports.append(P('if', n, self.files[path], path))
        elif k == 3:
            path = self.path()
            if self.readers(path):
                return
            n = self.fresh()
            self.add('(define %s (open-output-file "[@DIR@]/%s"))' % (n, path), '=> ' + n)
            self.files[path] = ''
            self.ports.append(P('of', n, '', path))
        elif k <= 10:
            p = s.choice(self.ports)
            if p.inp:
                op = s.choice(['read-char', 'peek-char', 'read', 'read-char', 'peek-char', 'char-ready?' if p.kind == 'is' else 'read'])
                if p.bad:
                    return
                if not p.open:
                    self.marks += 1
                    self.add('(%s %s)' % (op, p.name), '!E')
                    return
                if p.i >= len(p.text):
                    self.marks += 1
                v = self.inop(p, op)
                self.add('(%s %s)' % (op, p.name), '!E' if v is None else '=> ' + v)
            else:
                f, t, fl = self.outop()
                form = '(begin %s (quote ok))' % (f % (' ' + p.name))
                if not p.open:
                    self.marks += 1
                    self.add(form, '!E')
                    return
                if p.kind == 'of' and any(q.path == p.path and q.open and q.kind == 'if' for q in self.ports):
                    return
                self.add(form, '=> ok')
                p.text += t
                p.pending = not fl
                if fl and p.kind == 'of':
                    self.files[p.path] = p.text
        elif k == 11:
            p = s.choice(self.ports)
            self.add('(begin (close-%s-port %s) (quote ok))' % ('input' if p.inp else 'output', p.name), '=> ok')
            if not p.open:
                self.marks += 1
            elif p.kind == 'of':
                self.files[p.path] = p.text
            p.open = p.pending = False
        elif k == 12:
            q = [p for p in self.ports if p.kind == 'os']
            if not q:
                return
            p = s.choice(q)
            if p.open:
                self.add('(let* ((a (get-output-string %s)) (b (get-output-string %s))) (if (= 0 (string-length a)) #t (string-set! a 0 #\\Z)) (list b (string-length b) (eq? a b)))' % (p.name, p.name),
                         '=> (%s %d #f)' % (write_str(p.text), len(p.text)))
            else:
                self.add('(get-output-string %s)' % p.name, '!E')
                self.marks += 1
        elif k == 13:
            # the wrong direction
            p = s.choice(self.ports)
            if p.bad:
                return
            self.marks += 1
            if p.inp:
                f, t, fl = self.outop()
                self.add(f % (' ' + p.name), '!E')
                if p.kind == 'if':
                    p.bad = True
            else:
                self.add('(%s %s)' % (s.choice(['read-char', 'peek-char', 'read']), p.name), '!E')
                if p.kind == 'of' and p.open:
                    # stdio's error indicator only matters to input
                    pass
        elif k == 14:
            q = [p for p in self.ports if p.kind == 'is' and p.text]
            if not q:
                return
            p = s.choice(q)
            c = s.choice(['#\\a', '(integer->char 12354)', '(integer->char 128512)'])
            self.add('(begin %s (quote ok))' % s.choice(['(string-fill! s%s %s)' % (p.name, c), '(string-set! s%s %d %s)' % (p.name, s.below(len(p.text)), c)]), '=> ok')
            self.tags.append('source mutated')
        elif k == 15:
            p = s.choice(self.ports)
            self.add('(list (input-port? %s) (output-port? %s))' % ((p.name,) * 2), '=> (%s)' % ('#t #f' if p.inp else '#f #t'))
        elif k == 16:
            q = [p for p in self.ports if p.inp and p.open and not p.bad]
            if not q:
                return
            p = s.choice(q)
            self.add('(all %s)' % p.name, '=> (%s)' % ' '.join(wch(c) for c in p.text[p.i:]))
            p.i = len(p.text)
        elif k == 17:
            self.add('(churn %d)' % s.choice([10, 3000, 12000]), '=> ok')
        else:
            self.extent()

    # -- the current ports and call-with-*
    def body(self, cin, cout, depth):
        """statements for the current extent -> (list of forms, values appended to acc); models cin/cout"""
        s = self.s
        forms = []
        for _ in range(s.range(0, 4)):
            k = s.below(5)
            if k <= 1 and cin is not None:
                if cin.bad:
                    continue
                i = cin.i
                op = s.choice(['read-char', 'peek-char', 'read'])
                v = self.inop(cin, op)
                if v is None:
                    cin.bad = False
                    cin.i = i
                    continue
                forms.append('(note (%s%s))' % (op, cin.name and ' ' + cin.name))
                self.acc.append(v)
            elif k <= 3 and cout is not None:
                f, t, fl = self.outop()
                forms.append(f % (cout.name and ' ' + cout.name))
                cout.text += t
            elif depth < 3:
                e, esc = self.ext(cin, cout, depth + 1)
                if e:
                    forms.append(e)
                if esc:
                    break
        return forms

    def ext(self, cin, cout, depth):
        """an expression that opens an extent -> (text, escapes)"""
        s = self.s
        path = self.path()
        kind = s.choice(['with-in', 'call-in', 'with-out', 'call-out'])
        self.marks += 1
        esc = depth == 1 and s.choice([None, None, None, 'k', 'err']) or None
        if path in self.busy:
            return None, False
        if kind.endswith('in'):
            if path not in self.files:
                return '(note (guard (e (#t (quote bad))) (%s "[@DIR@]/%s" (lambda x (quote no)))))' % (
                    'with-input-from-file' if kind == 'with-in' else 'call-with-input-file', path), self.acc.append('bad')
            if any(q.path == path and q.open and q.kind == 'of' for q in self.ports) or path in self.busy:
                return None, False
            p = P('if', '' if kind == 'with-in' else 'q%d' % depth, self.files[path])
            self.busy.append(path)
            b = self.body(p, cout, depth)
            self.busy.remove(path)
        else:
            if self.readers(path) or path in self.busy:
                return None, False
            p = P('of', '' if kind == 'with-out' else 'q%d' % depth, '')
            self.busy.append(path)
            b = self.body(cin, p, depth)
            self.busy.remove(path)
            if esc:
                self.files.pop(path, None)
                self.gone.append(path)
            else:
                self.files[path] = p.text
        self.n += 1
        v = self.n
        fn = {'with-in': 'with-input-from-file', 'with-out': 'with-output-to-file', 'call-in': 'call-with-input-file', 'call-out': 'call-with-output-file'}[kind]
        t = '(%s "[@DIR@]/%s" (lambda (%s) %s' % (fn, path, '' if kind.startswith('with') else 'q%d' % depth, ''.join(x + ' ' for x in b))
        self.tags.append(kind + (' ' + esc if esc else ''))
        if esc == 'k':
            return '(note (call/cc (lambda (k) %s (k %d))))))' % (t, v), self.acc.append(str(v))
        if esc == 'err':
            return '(note (guard (e (#t %d)) %s (car 5)))))' % (v, t), self.acc.append(str(v))
        # any value is passed through, also the false ones
        v = s.choice([str(v), str(v), '#f', '()', '#<undef>'])
        self.acc.append(v)
        return '(note %s %s)))' % (t, {'()': '(quote ())', '#<undef>': '(if #f #f)'}.get(v, v)), False

    def extent(self):
        s = self.s
        self.acc, self.busy, self.gone = [], [], []
        save = dict(self.files)
        cout = P('os', '', '')
        # the interpreter's own output shows what reaches the outer port
        e, _ = self.ext(None, None, 1)
        if not e:
            return
        # values noted inside an escaped extent are kept in order
        self.add('(let* ((acc (quote ())) (note (lambda (x) (set! acc (cons x acc)) x))) %s (list (reverse acc) (home)))' % e,
                 '=> ((%s) (#t #t))' % ' '.join(self.acc))
        for path in self.gone:
            # abandoned: its content is not specified; make it known again
            if self.readers(path):
                continue
            n = self.fresh()
            self.add('(define %s (open-output-file "[@DIR@]/%s"))' % (n, path), '=> ' + n)
            self.add('(begin (display "x" %s) (close-output-port %s) (quote ok))' % (n, n), '=> ok')
            # the abandoned port may still flush into the file
            self.dead.add(path)


def gen(s):
    variant = s.weighted([(4, VARS[0]), (2, VARS[1]), (2, VARS[2]), (1, VARS[3])])
    m = M(s, variant)
    m.dead = set()
    for i in range(4):
        if s.bool():
            m.files['f%d' % i] = g_text(s, variant)
    init = sorted(m.files.items())
    for _ in range(s.range(3, 30)):
        m.step()
        for d in m.dead:
            m.files.pop(d, None)
        if m.dead:
            break
    if not m.dead:
        # what is on disk in the end
        for p in m.ports:
            if p.kind == 'of' and p.open:
                m.add('(begin (close-output-port %s) (quote ok))' % p.name, '=> ok')
                m.files[p.path] = p.text
                p.open = False
    final = {} if m.dead else dict(m.files)
    L = Lines()
    for f, a in m.L:
        L.t.append(f.encode('utf-8'))
        L.e.append(tuple(x.encode('utf-8') for x in a))
    L.nt = m.marks > 0 or len(m.ports) >= 3
    return L.case(tags=m.tags + [variant], variant=variant, init=init, final=final,
                  files=[(n, t.encode('utf-8')) for n, t in init])


def run(c, env, **kw):
    d = os.path.join(env.dir(), 'p')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    for n, b in c.files:
        with open(os.path.join(d, n), 'wb') as f:
            f.write(b)
    r = env.run(c.text.replace(b"[@DIR@]", d.encode()), '-', c.variant, preload=PRE, **kw)
    pos = 0
    for f, alts in zip(c.forms, c.lines):
        for a in alts:
            if r.out.startswith(a + b'\n', pos):
                pos += len(a) + 1
                break
        else:
            return d, r, '%s: expected %s but got %s (%s)' % (hexify(f), ' or '.join(map(hexify, alts)), hexify(r.out[pos:pos + 400]), r.describe())
    if r.out[pos:] != b'#DONE\n':
        return d, r, 'trailing output %s (%s)' % (hexify(r.out[pos:pos + 300]), r.describe())
    return d, r, None


def check(c, env):
    d, r, why = run(c, env)
    if why:
        return why
    for n, t in sorted(c.final.items()):
        with open(os.path.join(d, n), 'rb') as f:
            b = f.read()
        if b != t.encode('utf-8'):
            return 'file %s holds %r instead of %r' % (n, b[:400], t[:400])


# ---- devices that fail: the loss is reported, the port can be closed, nothing else suffers
def gen_full(s):
    variant = s.weighted([(2, 'compact-san'), (1, 'fatty-san'), (2, 'compact-opt')])
    L = Lines()
    def add(f, *a):
        L.t.append(f.encode())
        L.e.append(tuple(x.encode() for x in a))
    ports = []
    t = ''
    add('(define o (open-output-string))', '=> o')
    n = 0
    for _ in range(s.range(3, 18)):
        k = s.below(9)
        if k == 0 or not ports:
            n += 1
            add('(define p%d (open-output-file "/dev/full"))' % n, '=> p%d' % n)
            ports.append(dict(name='p%d' % n, pend=False, failed=False, open=True))
            continue
        p = s.choice(ports)
        if k <= 2:
            add('(begin (write-char #\\x %s) (quote ok))' % p['name'], *(['!E'] if not p['open'] else ['=> ok', '!E'] if p['failed'] else ['=> ok']))
            p['pend'] = True
        elif k == 3:
            add('(begin (%s %s) (quote ok))' % (s.choice(['newline', 'write 1', 'display "ab"']), p['name']), *(['!E'] if not p['open'] or not p['failed'] else ['!E', '=> ok']))
            if p['open']:
                p['failed'] = True
        elif k == 4:
            add('(begin (let loop ((i 0)) (if (< i %d) (begin (write-char #\\y %s) (loop (+ i 1))))) (quote ok))' % (s.choice([5000, 70000]), p['name']),
                *(['!E'] if not p['open'] or not p['failed'] else ['!E', '=> ok']))
            if p['open']:
                p['failed'] = True
        elif k == 5:
            if not p['open']:
                add('(begin (close-output-port %s) (quote ok))' % p['name'], '=> ok')
            elif p['failed']:
                add('(begin (close-output-port %s) (quote ok))' % p['name'], '=> ok', '!E')
            else:
                add('(begin (close-output-port %s) (quote ok))' % p['name'], '!E' if p['pend'] else '=> ok')
            p['open'] = False
            L.nt = True
        elif k == 6:
            add('(begin (set! %s 0) (churn 12000))' % p['name'], '=> ok')
            ports.remove(p)
            L.nt = True
        elif k == 7:
            c = s.choice('abc')
            t += c
            add('(begin (write-char #\\%s o) (get-output-string o))' % c, '=> "%s"' % t)
        else:
            w = s.below(5)
            if w == 0:
                add('(call-with-output-file "/dev/full" (lambda (q) (write-char #\\x q) 1))', '!E')
            elif w == 1:
                add('(with-output-to-file "/dev/full" (lambda () (write-char #\\x) 1))', '!E')
            elif w == 2:
                add('(list (guard (e (#t 7)) (with-output-to-file "/dev/full" (lambda () (display "x") 1))) (home))', '=> (7 (#t #t))')
            elif w == 3:
                add('(let ((d (open-input-file "/"))) (list (guard (e (#t 1)) (read-char d)) (guard (e (#t 2)) (read d)) (begin (close-input-port d) 3)))', '=> (1 2 3)')
            else:
                add('(list (guard (e (#t 7)) (with-input-from-file "/" (lambda () (peek-char)))) (home))', '=> (7 (#t #t))')
            L.nt = True
    add('(churn 12000)', '=> ok')
    return L.case(tags=[variant], variant=variant, files=[])


def check_full(c, env):
    return run(c, env)[2]


# ---- every byte and every encoding through file ports, in any interleaving
def gen_bytes(s):
    variant = s.weighted([(3, VARS[0]), (2, VARS[1]), (1, VARS[2]), (1, VARS[3])])
    enc = s.choice(['ISO-8859-1', 'ISO-8859-1', 'UTF-8'] + mb.ENCS[1:5])
    L = Lines()

    def add(f, *a):
        L.t.append(f.encode('ascii'))
        L.e.append(tuple(x.encode('ascii') for x in a))

    def code():
        k = s.below(6)
        if k == 0:
            return s.choice([10, 13, 26, 4, 127, 32, 1])
        if enc == 'ISO-8859-1':
            return s.choice([255, 254, 128, 127, 133, 160]) if k == 1 else s.range(1, 255)
        return mb.g_code(s, enc)

    def text(mx):
        l = [code() for _ in range(s.size(mx))]
        if l and s.bool(1, 4):
            # longer than a stdio buffer, or just around one
            n = s.choice([4095, 4096, 4097, 8200])
            l = (l * (n // len(l) + 1))[:n]
        return l
    files = []
    for i in range(s.range(1, 3)):
        files.append(('f%d' % i, text(20)))
    ports, outs, n = [], [], 0
    for _ in range(s.range(3, 25)):
        k = s.below(9)
        if k == 0 or not ports:
            n += 1
            f, l = s.choice(files)
            add('(define p%d (open-input-file "[@DIR@]/%s"))' % (n, f), '=> p%d' % n)
            ports.append(['p%d' % n, l, 0])
        elif k == 1:
            n += 1
            add('(define p%d (open-output-file "[@DIR@]/o%d"))' % (n, n), '=> p%d' % n)
            outs.append(['p%d' % n, 'o%d' % n, []])
        elif k <= 3 and outs:
            o = s.choice(outs)
            l = text(6)
            w = s.below(3)
            if w == 0 or len(l) > 100:
                add("(begin (for-each (lambda (i) (write-char (integer->char i) %s)) '(%s)) (quote ok))" % (o[0], ' '.join(map(str, l))), '=> ok')
            else:
                add("(begin (display (list->string (map integer->char '(%s))) %s) (quote ok))" % (' '.join(map(str, l)), o[0]), '=> ok')
            o[2] += l
        elif k == 4:
            p = s.choice(ports)
            m = s.choice([1, 2, 5, 4094, 4096])
            add('(let loop ((i 0)) (if (= i %d) (quote ok) (begin (read-char %s) (loop (+ i 1)))))' % (m, p[0]), '=> ok')
            p[2] += m
        elif k == 5:
            p = s.choice(ports)
            add('(map (lambda (c) (if (char? c) (char->integer c) (quote eof))) (take %s 30))' % p[0],
                '=> (%s)' % ' '.join([str(x) for x in p[1][p[2]:p[2] + 30]] + (['eof'] if len(p[1]) - p[2] < 30 else [])))
            p[2] = min(p[2] + 30, len(p[1]))
            L.nt = True
        else:
            p = s.choice(ports)
            op = s.choice(['read-char', 'peek-char'])
            v = p[1][p[2]] if p[2] < len(p[1]) else None
            add('(let ((c (%s %s))) (if (char? c) (char->integer c) c))' % (op, p[0]), '=> %s' % ('#<eof>' if v is None else v))
            if op == 'read-char' and v is not None:
                p[2] += 1
            L.nt = L.nt or v is None or v > 127
    for o in outs:
        if s.bool():
            add('(begin (close-output-port %s) (quote ok))' % o[0], '=> ok')
        else:
            o[2] = None
    return L.case(tags=[variant, enc], variant=variant, enc=enc, files=[(f, mb.encode(enc, l)) for f, l in files],
                  final=[(f, mb.encode(enc, l)) for _, f, l in outs if l is not None])


def check_bytes(c, env):
    d, r, why = run(c, env, enc=c.enc)
    if why:
        return why
    for n, t in c.final:
        with open(os.path.join(d, n), 'rb') as f:
            b = f.read()
        if b != t:
            return 'file %s holds %r instead of %r' % (n, b[:400], t[:400])


# ---------------------------------------------------------------- long texts
def gen_large(s):
    """texts of a size at and around the powers of two, in one piece or in several"""
    variant = s.choice(VARS)
    # the sanitizer's realloc copies at every character
    mx = 4096 if 'san' in variant else 131072
    size = lambda: s.choice([n for n in (1, 127, 128, 255, 256, 1023, 1024, 4095, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 70000, 131072) if n <= mx]) + s.choice([0, 0, -1, 1, 5])
    out = ['(define (dr p l) (let ((c (read-char p))) (cond ((eof-object? c) (null? l)) ((null? l) #f) ((char=? c (car l)) (dr p (cdr l))) (else #f))))',
           '(define (sm p l) (let ((c (peek-char p))) (and (equal? c (read-char p)) (cond ((eof-object? c) (null? l)) ((null? l) #f) ((char=? c (car l)) (sm p (cdr l))) (else #f)))))']
    exp = ['=> (dr p l)', '=> (sm p l)']
    ts = []
    for i in range(s.range(1, 3)):
        runs = [(s.choice(['a', 'b', 'Z', '-', 'é', '漢', '😀'] if s.bool(1, 2) else 'abcz'), size()) for _ in range(s.range(1, 2))]
        out.append('(define t%d (string-append%s))' % (i, ''.join(' (make-string %d (integer->char %d))' % (n, ord(c)) for c, n in runs)))
        exp.append('=> t%d' % i)
        ts.append(sum(n for c, n in runs))
    file = s.bool(1, 3)
    out.append('(define o %s)' % ('(open-output-file "[@DIR@]/big")' if file else '(open-output-string)'))
    exp.append('=> o')
    want, n = [], 0
    for _ in range(s.range(1, 4)):
        i = s.below(len(ts))
        k = s.below(5)
        if k <= 1:
            out.append('(begin (display t%d o) 0)' % i)
            want.append('t%d' % i)
            n += ts[i]
        elif k == 2:
            out.append('(begin (write t%d o) 0)' % i)
            want.append('(string #\\") t%d (string #\\")' % i)
            n += ts[i] + 2
        elif k == 3:
            out.append('(begin (for-each (lambda (c) (write-char c o)) (string->list t%d)) 0)' % i)
            want.append('t%d' % i)
            n += ts[i]
        else:
            out.append('(begin (display (quote x) o) (newline o) 0)')
            want.append('(string #\\x #\\newline)')
            n += 2
        exp.append('=> 0')
    out.append('(define w (string-append %s))' % ' '.join(want))
    exp.append('=> w')
    if file:
        out += ['(begin (close-output-port o) 0)', '(%s (open-input-file "[@DIR@]/big") (string->list w))' % s.choice(['dr', 'sm'])]
        exp += ['=> 0', '=> #t']
    else:
        out += ['(let ((g (get-output-string o))) (list (string-length g) (string-length w) (string=? g w)))',
                '(%s (open-input-string (get-output-string o)) (string->list w))' % s.choice(['dr', 'sm'])]
        exp += ['=> (%d %d #t)' % (n, n), '=> #t']
    out.append('(let ((o (open-output-string))) (write (list t0 w) o) (let ((d (read (open-input-string (get-output-string o))))) (list (string=? (car d) t0) (string=? (cadr d) w))))')
    exp.append('=> (#t #t)')
    out.append('(let ((y (string->symbol (string-append "a" t0)))) (list (string-length (symbol->string y)) (eq? y (read (open-input-string (string-append "a" t0 " "))))))')
    exp.append('=> (%d #t)' % (ts[0] + 1))
    return Case('\n'.join(out), '\n'.join(exp), True, variant=variant, mode=s.choice(['-', 'f']), tags=[variant, 'file' if file else 'string'])


def check_large(c, env):
    r = env.run(c.text.replace('[@DIR@]', env.dir()), c.mode, c.variant, cpu=60)
    if r.text() != c.expect + '\n#DONE\n':
        return 'expected %r but got %r (%s)' % (c.expect, r.text()[:1500], r.describe()[:300])


PARTS = [Part('large', gen_large, check_large, 150, 5000, variants=VARS),
         Part('histories', gen, check, 9000, 300000, variants=VARS),
         Part('bytes', gen_bytes, check_bytes, 4000, 100000, variants=VARS),
         Part('failing', gen_full, check_full, 2000, 50000, variants=['compact-san', 'fatty-san', 'compact-opt'])]
