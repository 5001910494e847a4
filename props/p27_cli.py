"""The sscm command: interactive sessions, scripts, options and exit statuses."""
import os, subprocess, tempfile
from vlib import sx
from vlib.sx import Str
from vlib import build as B
from vlib.engine import Case, Part
from vlib.gen import fixrange, g_datum
from vlib.proggen import Prog
from vlib.ref import run_program, Unmodelled

ID = 'P27'
RULE = ('repl: an evaluation after an error, an exit or input consumed by the program; script: an error, an exit, a prelude '
        'or an option; args: at least two arguments')
ASSUMPTIONS = ['vlib/ref.py is the reference semantics of the evaluated forms',
               'a read error at the prompt is not observed (the command ends there; "known bug" of ready? on files)',
               'of error messages on the standard error only their number is compared, and the text of those about user-raised objects (part messages)']
VARS = ['compact-opt', 'fatty-opt', 'hygienic-opt', 'compact-san']
CODECS = ['UTF-8', 'EUC-JP', 'EUC-CN', 'EUC-KR', 'Shift_JIS', 'ISO-8859-1']


def weighted_variant(s):
    return s.weighted([(5, VARS[0]), (3, VARS[1]), (2, VARS[2]), (1, VARS[3])])


def forms(s, variant, bad):
    g = Prog(s, bad=bad)
    text = g.program(s.range(2, 3))
    try:
        exp = run_program(text, fixrange(variant))
    except Unmodelled:
        return []
    fs = sx.parse_all(text)
    if len(fs) != len(exp):
        return []
    out = []
    for f, e in zip(fs, exp):
        e = e[:-1]
        if e.endswith('!E'):
            out.append((sx.to_write(f), e[:-2], None))
        else:
            i = e.rindex('=> ')
            out.append((sx.to_write(f), e[:i], e[i + 3:]))
    return out


EXTRA = [("(car '())", '', None), ('(raise 5)', '', None), ("(raise 'sym)", '', None), ('(raise (list 1 2))', '', None),
         ('(begin (display "a") (error "boom" 1))', 'a', None), ('undefined-variable', '', None), ('(vector-ref (vector 1) 5)', '', None),
         ('(call/cc (lambda (k) (dynamic-wind (lambda () (display "i")) (lambda () (k 7)) (lambda () (display "o")))))', 'io', '7'),
         ('(dynamic-wind (lambda () (display "i")) (lambda () (raise 1)) (lambda () (display "o")))', 'io', None),
         ("(guard (e (#t (list 'c e))) (raise 3))", '', '(c 3)'), ('(with-exception-handler (lambda (e) (k e)) (lambda () (raise 1)))', '', None),
         ('"a\\nb"', '', '"a\\nb"'), ("'sym", '', 'sym'), ('#\\a', '', '#\\a'), ("'(1 . 2)", '', '(1 . 2)'),
         ('(let ((x (list 1 2))) (use srfi-38) (set-cdr! (cdr x) x) x)', '', '#1=(1 2 . #1#)'), ('(begin (write "x") (newline) 1)', '"x"\n', '1'),
         ('(values 5)', '', '5'), ('(lambda)', '', None), ("(if)", '', None), ('(string-set! "abc" 0 #\\x)', '', None),
         ("(eval '(car 1) (interaction-environment))", '', None), ('(load "missing-file")', '', None),
         ('(open-input-file "missing-file")', '', None), ('(with-output-to-file "scratch" (lambda () (display 1) (raise 2)))', '', None),
         ('(let ((p (open-output-string))) (display 5 p) (get-output-string p))', '', '"5"')]


def gen_repl(s):
    variant = weighted_variant(s)
    fs = forms(s, variant, s.choice([0, 2, 4]))
    for _ in range(s.below(6)):
        fs.insert(s.range(1, len(fs)) if fs else 0, s.choice(EXTRA))
    text, want = '', ''
    err = 0
    status = 0
    nt = False
    for t, o, v in fs:
        if s.bool(1, 12):
            # the program reads what follows on the same input
            k = s.below(4)
            d = s.choice(['(a b)', '42', '"s t"', 'foo', "#(1 2)", '#t'])
            if k == 0:
                text += '(read) %s' % d
                want += 'sscm> %s\n' % d
            elif k == 1:
                c = s.choice('xyz09;(")')
                text += '(read-char)' + c
                want += 'sscm> #\\%s\n' % c
            elif k == 2:
                text += '(begin (read-char) (list (read) (peek-char)))\n%s)5' % d if d[-1] in ')"' else "'zz"
                want += 'sscm> (%s #\\))\n' % d if d[-1] in ')"' else 'sscm> zz\n'
                if d[-1] in ')"':
                    # the parenthesis is still there
                    text = text[:-2] + '5'
                    want = want.replace('#\\))\n', '#\\5)\n') + 'sscm> 5\n'
            else:
                text += '(display 1)'
                want += 'sscm> 1#<undef>\n'
            text += '\n'
            nt = True
            if k == 3:
                nt = nt or False
        text += t + s.choice(['\n', '\n', '\n\n', ' ', ' ; comment (\n', '\r\n', '\t'])
        want += 'sscm> ' + o
        if v is None:
            err += 1
        else:
            want += v + '\n'
            nt = nt or err > 0
    if s.bool(1, 6):
        n = s.choice(['', '0', '1', '3', '77', '255', '#t', '1 2', "'a"])
        text += '(exit%s)\n' % (' ' + n if n else '')
        want += 'sscm> '
        if n.isdigit() or not n:
            status = int(n or 0)
            text += s.choice(['', "(display 'never)", '(car 1)', '(a . '])
            nt = True
        else:
            err += 1
            want += 'sscm> '
    else:
        want += 'sscm> '
    return Case(text, want, nt, variant=variant, status=status, errs=err, argv=[], files=[(' argv', b'')], tags=[variant, 'errors=%s' % min(err, 3)])


# a session that defines names of its own, those of the standard included
OWN = ('read eval write display newline error raise err guard else => with-exception-handler dynamic-wind call-with-current-continuation call-with-values call/cc values apply interaction-environment '
       'read-char peek-char char-ready? ready? eof-object? exit current-input-port current-output-port load begin let let* letrec cond case and or do delay list cons append force not eq? '
       'write/ss %%error-object? prompt x quasiquote unquote set!').split()
NEUTRAL = [('(+ 1 2)', '3'), ("(car 1)", None), ("'(a . b)", '(a . b)'), ('"s"', '"s"'), ('(vector 1 #\\a)', '#(1 #\\a)'), ('(if #f 1 2)', '2'), ('((lambda (a . b) b) 1 2)', '(2)'), ('(lambda)', None), ('no-such-name', None),
           ('(string-append "a" "b")', '"ab"'), ('(vector-ref (vector) 0)', None), ("(cdr '(1 2))", '(2)'), ('5', '5'), ('(1 2)', None), ('(define z 5)', 'z'), ('(string-set! "abc" 0 #\\a)', None)]


def gen_own(s):
    variant = weighted_variant(s)
    text, want, err, own = '', '', 0, 0
    for _ in range(s.range(2, 9)):
        if s.bool(2, 5):
            n = s.choice(OWN)
            t, v = s.choice([('(define (%s . l) 5)' % n, '(%s . l)' % n), ('(define %s 5)' % n, n), ("(define %s (lambda x 'mine))" % n, n), ('(define (%s a) (car a))' % n, '(%s a)' % n)])
            own += 1
        else:
            t, v = s.choice(NEUTRAL)
        text += t + s.choice(['\n', '\n', ' ', ' ; comment\n'])
        want += 'sscm> ' + ('' if v is None else v + '\n')
        err += v is None
    return Case(text, want + 'sscm> ', own > 0 and err > 0, variant=variant, status=0, errs=err, argv=[], files=[(' argv', b'')], tags=[variant, 'errors=%s' % min(err, 3)])


def gen_script(s):
    variant = weighted_variant(s)
    fs = forms(s, variant, s.choice([0, 0, 4]))
    for _ in range(s.below(3)):
        # an error that nothing handles ends a script where it is raised, after thunks do not run
        fs.insert(s.range(1, len(fs)) if fs else 0, s.choice([e for e in EXTRA if e[2] is not None or 'wind' not in e[0]]))
    enc = 'UTF-8'
    argv = []
    tags = []
    if s.bool(1, 3):
        enc = s.choice(CODECS)
        argv += ['-C', enc]
        tags.append('-C')
    inner = enc
    pre, bad = '', False
    if s.bool(1, 4):
        opts = ''
        if s.bool(2, 3):
            inner = s.choice(CODECS)
            opts = s.choice([' -C ', ' -C ', '\t-C\t', '  -C  ']) + inner
        pre = s.choice(['#! sscm%s', '#! /usr/bin/env sscm%s', '#! /usr/bin/sscm%s', '#!  sscm%s', '#! /usr/bin/env  sscm\t%s', '#! %s' if not opts else '#! x%s']) % opts
        if s.bool(1, 3):
            pre += s.choice([' ', '\r', '\t', ' script', ' f', '  '])
        if s.bool(1, 4):
            # up to 63 bytes before the end of the line
            pre += ' ' * (s.range(61, 66) - len(pre))
        bad = len(pre) > 63
        if s.bool(1, 8):
            pre = s.choice([pre[:2] + pre[3:].lstrip(), '#!', '#!\t' + pre[3:], pre + 'あ', '#! a -x', '#! a -C', '#! a -C foo', '#! a --system-load-path rel'])
            bad = True
        pre += '\n'
        tags.append('prelude')
    want, text = '', pre
    status, err = 0, int(bad)
    for t, o, v in fs:
        text += t + s.choice(['\n', ' ', ' ; x\n', '\n\n'])
        if err or status is None:
            continue
        want += o
        if v is None:
            err = 1
    k = s.below(8)
    if k == 0:
        text += '(display (%%current-char-codec))\n'
        if not err:
            want += inner
    elif k <= 2:
        n = s.choice([None, 0, 1, 2, 40, 255])
        text += '(begin (display "bye") (exit%s)) (display "never")' % ('' if n is None else ' %d' % n)
        if not err:
            want += 'bye'
            status = n or 0
        tags.append('exit')
    elif k == 3:
        text += s.choice(['(display 1', ')', '"abc', '(1 . 2 3)', '#\\unknownname'])
        err = err or 1
        tags.append('syntax')
    if err:
        status = 1
        tags.append('error')
    name = s.choice(['f.scm', 'dir/f.scm', '-'])
    if name == '-':
        name = 'f-.scm'
    path = s.choice([name, '@D@/' + name])
    argv += [path] + s.choice([[], [], ['x', '-C', 'nonsense'], ['-z']])
    return Case('', want, bool(tags) or len(argv) > 1, variant=variant, status=status, errs=1 if err else 0, argv=argv,
                files=[(name, text.encode()), (' argv', repr(argv).encode())], tags=[variant] + tags)


def gen_args(s):
    """options: the first invalid one decides"""
    variant = weighted_variant(s)
    argv = []
    ok, enc, script = True, 'UTF-8', None
    for _ in range(s.below(5)):
        k = s.below(10)
        if k <= 2:
            e = s.choice(CODECS)
            argv += ['-C', e]
            if ok:
                enc = e
        elif k == 3:
            argv += ['--system-load-path', '@LIB@']
        elif k == 4:
            e = s.choice(['foo', '', 'utf-8', 'UTF-8 ', '-C', '日本'])
            argv += ['-C', e]
            enc = None      # unless a later -C replaces it
        elif k == 5:
            argv += ['--system-load-path', s.choice(['lib', '.', '', 'a/b', '-'])]
            ok = False
        elif k == 6:
            argv += [s.choice(['-x', '--', '-', '--help', '-c', '-CUTF-8', '--system-load-path=/'])]
            ok = False
        elif k == 7:
            argv += [s.choice(['-C', '--system-load-path'])]
            # takes the next word as its argument; at the end it is an error
            if s.bool():
                return gen_args_case(s, variant, argv, False, None, None)
            argv += ['UTF-8'] if argv[-1] == '-C' else ['@LIB@']
            if argv[-2] == '-C':
                enc = 'UTF-8'
        elif k == 8:
            script = s.choice(['f.scm', '@D@/f.scm', 'missing.scm', '@D@/missing'])
            argv += [script] + s.choice([[], ['-q'], ['a', 'b']])
            break
    return gen_args_case(s, variant, argv, ok, enc, script)


def gen_args_case(s, variant, argv, ok, enc, script):
    text = '(display (%%current-char-codec))\n'
    files = [('f.scm', text.encode()), (' argv', repr(argv).encode())]
    good = ok and enc is not None
    if not good:
        return Case('', '', len(argv) > 1, variant=variant, status=1, errs=1, argv=argv, files=files, tags=['bad'])
    if script and 'missing' in script:
        return Case('', '', True, variant=variant, status=1, errs=1, argv=argv, files=files, tags=['missing'])
    if script:
        return Case('', enc, True, variant=variant, status=0, errs=0, argv=argv, files=files, tags=['script'])
    return Case('(%%current-char-codec)', 'sscm> "%s"\nsscm> ' % enc, len(argv) > 1, variant=variant, status=0, errs=0, argv=argv,
                files=files, tags=['repl'])


def gen_messages(s):
    """what the session says on the standard error about objects that nothing caught"""
    variant = weighted_variant(s)
    text, want, msgs, nt = '', '', [], False
    for _ in range(s.range(1, 6)):
        k = s.below(8)
        d = lambda n=2: g_datum(s, n, variant)
        quote = lambda o: "'" + sx.to_write(o)
        if k <= 2:
            o = d(3)
            t, m = '(raise %s)' % quote(o), [('tail', sx.to_write(o))]
        elif k <= 5:
            msg = Str(''.join(s.choice(list('abc :%~\\"(')) for _ in range(s.range(0, 6))))
            irr = [d() for _ in range(s.range(0, 4))]
            t = '(error %s%s)' % (sx.to_write(msg), ''.join(' ' + quote(o) for o in irr))
            m = [('all', ' '.join([msg.s] + [sx.to_write(o) for o in irr]))]
            nt = nt or len(irr) > 1
        elif k == 6:
            o = d()
            t, m = '(begin (display "x") (newline) 5)', []
            want += 'sscm> x\n5\n'
        else:
            # a guard without a matching clause raises the same object again
            o = d()
            t, m = '(guard (e (#f 1)) (raise %s))' % quote(o), [('tail', sx.to_write(o))]
            if s.bool():
                t, m = '(guard (e ((string? e) 1)) (error "in" %s))' % quote(o), [('all', 'in ' + sx.to_write(o))]
        text += t + '\n'
        msgs += m
        if m:
            want += 'sscm> '
    if any(ord(ch) > 126 or (ch < ' ' and ch != '\n') for m in msgs for ch in m[1]) or any('\n' in m[1] for m in msgs):
        return gen_messages(s)
    return Case(text, want + 'sscm> ', nt, variant=variant, status=0, errs=len(msgs), argv=[], files=[(' argv', b'')], tags=[variant, 'errors=%s' % min(len(msgs), 3)], msgs=msgs)


EXE = {}


def check(c, env):
    d = env.dir()
    w = os.path.join(d, 'w')
    if os.path.isdir(w):
        import shutil
        shutil.rmtree(w)
    os.makedirs(os.path.join(w, 'dir'))
    for n, b in c.files:
        if n == ' argv':
            continue
        with open(os.path.join(w, n), 'wb') as f:
            f.write(b)
    exe = EXE.get(c.variant)
    if not exe:
        exe = EXE[c.variant] = os.path.join(B.build(c.variant), 'sscm')
    argv = [exe, '--system-load-path', B.LIB] + [a.replace('@D@', w).replace('@LIB@', B.LIB) for a in c.argv]
    e = {'PATH': os.environ['PATH'], 'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=1', 'LC_ALL': 'C'}
    try:
        p = subprocess.run(argv, input=c.text.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=w, env=e, timeout=20)
    except subprocess.TimeoutExpired:
        return 'did not end within 20 s'
    out = p.stdout.decode('utf-8', 'backslashreplace')
    err = p.stderr.decode('utf-8', 'backslashreplace')
    if p.returncode != c.status:
        return 'argv %r: exit status %d instead of %d; stdout %r stderr %r' % (c.argv, p.returncode, c.status, out[-1500:], err[-800:])
    if out != c.expect:
        return 'argv %r: expected output %r but got %r; stderr %r' % (c.argv, c.expect[-2000:], out[-2000:], err[-800:])
    ls = [l for l in err.split('\n') if l.startswith('Error: ')]
    n = len(ls)
    if n != c.errs:
        return 'argv %r: %d error messages instead of %d: %r' % (c.argv, n, c.errs, err[-800:])
    for (k, m), l in zip(getattr(c, 'msgs', ()), ls):
        if l != 'Error: ' + m if k == 'all' else l == 'Error: ' + m or not l.endswith(': ' + m):
            return 'the standard error says %r instead of %r' % (l, m)


PARTS = [Part('repl', gen_repl, check, 8000, 200000, variants=VARS),
         Part('own', gen_own, check, 4000, 60000, variants=VARS),
         Part('script', gen_script, check, 6000, 150000, variants=VARS),
         Part('args', gen_args, check, 2500, 30000, variants=VARS),
         Part('messages', gen_messages, check, 3000, 60000, variants=VARS)]
