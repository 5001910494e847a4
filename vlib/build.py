"""Builds instrumented copies of SigScheme from /repo's working tree into
/verif/build/<variant>-<hash>/.  /repo itself is never written to.

A variant is  <storage>-<flavour>:
  storage:  compact | fatty | hygienic   (config.h from /verif/cfg)
  flavour:  san  = gcc -O1 -fsanitize=address,undefined
            opt  = gcc -O2 (same flags as the project's own build)
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
LIB = os.path.join(REPO, 'lib')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

# never part of the configured library (other platforms / disabled features)
EXCLUDED = {'dllentry.c', 'global-aggregated.c', 'template.c', 'module-siod.c',
            'scmport-null.c', 'scmport-sbchar.c', 'main.c', 'strcasecmp.c',
            'macro.c'}
INC_HEADERS = ['scmint.h', 'global.h', 'sigscheme.h', 'config-old.h',
               'storage-common.h', 'storage-compact.h', 'storage-fatty.h',
               'encoding.h', 'encoding-dummy.h']

FLAVOURS = {
    # alignment and bounded shifts etc. stay on; signed overflow of the
    # documented "unchecked" arithmetic is not an error of the program.
    'san': ['-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address',
            '-fsanitize=bounds,null,alignment,object-size,return,unreachable,'
            'vla-bound,integer-divide-by-zero,bool',
            '-fno-sanitize-recover=all'],
    # same code as opt, plus forced collections (harness/gcs)
    'gcs': ['-g', '-O2', '-fno-var-tracking'],
    'opt': ['-g', '-O2', '-fno-var-tracking'],
}


class BuildError(Exception):
    pass


def _sources(storage):
    out = []
    for f in sorted(os.listdir(SRC)):
        if not f.endswith('.c') or f.startswith('functable-') \
                or f.startswith('sigscheme-combined'):
            continue
        if f in EXCLUDED and not (f == 'macro.c' and storage == 'hygienic'):
            continue
        out.append(f)
    return out


def _functables():
    """name -> (symbol, [sources]) parsed from src/Makefile.am"""
    mk = open(os.path.join(SRC, 'Makefile.am')).read()
    var = {}
    for m in re.finditer(r'^(\w+_SRCS) = ((?:\\\n|[^\n])*)', mk, re.M):
        var[m.group(1)] = re.findall(r'\$\(srcdir\)/([\w-]+\.c)', m.group(2))
    res = {}
    for m in re.finditer(r'^(functable-[\w-]+\.c): ([^\n]*)\n\t\$\(BUILD_FUNCTBL_CMD\) \$@ "(\w+)" ([^\n]*)', mk, re.M):
        srcs = re.findall(r'\$\(srcdir\)/([\w-]+\.c)', m.group(2))
        for v in re.findall(r'\$\((\w+_SRCS)\)', m.group(2)):
            srcs += var[v]
        res[m.group(1)] = (m.group(3), srcs)
    return res


def _hash():
    h = hashlib.sha256()
    for base, exts in ((SRC, ('.c', '.h', '.am')), (os.path.join(REPO, 'tools'), ('.rb', '.txt')),
                       (HARNESS, ('.c', '.h', '.scm')),
                       (os.path.join(HARNESS, 'gcs'), ('.c',)), (os.path.join(VERIF, 'cfg'), ('.h',))):
        for f in sorted(os.listdir(base)):
            if f.endswith(exts) and not f.startswith('functable-siod-'):
                h.update(f.encode() + b'\0')
                with open(os.path.join(base, f), 'rb') as fd:
                    h.update(fd.read())
    with open(os.path.abspath(__file__), 'rb') as fd:
        h.update(fd.read())
    return h.hexdigest()[:16]


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-4000:])


def _gcs(cmd, plain):
    try:
        _run(cmd + [os.path.join(HARNESS, 'gcs', 'storage-gc-stress.c')])
    except BuildError:
        # the collector's internals were renamed: only the small heap of the
        # checks provokes collections then
        _run(cmd + [plain])




def _harness(cmd, name):
    try:
        _run(cmd)
    except BuildError as e:
        # only the checks that use this harness suffer
        if name == 'vrun':
            raise
        print(str(e), file=sys.stderr)


def _compile(d, storage, flavour):
    flags = FLAVOURS[flavour]
    inc = os.path.join(d, 'include', 'sigscheme')
    os.makedirs(inc)
    gen = os.path.join(d, 'gen')
    os.makedirs(gen)
    cfg = os.path.join(VERIF, 'cfg', 'config-%s.h' % storage)
    shutil.copy(cfg, os.path.join(gen, 'config.h'))
    shutil.copy(cfg, os.path.join(inc, 'config.h'))
    for h in INC_HEADERS:
        p = os.path.join(SRC, h)
        if os.path.exists(p):
            shutil.copy(p, inc)
    tools = os.path.join(REPO, 'tools')
    jobs = []
    with ThreadPoolExecutor(8) as ex:
        for name, (sym, srcs) in _functables().items():
            jobs.append(ex.submit(_run, ['ruby', '-I' + tools,
                        os.path.join(tools, 'build_func_table.rb'),
                        os.path.join(gen, name), sym]
                        + [os.path.join(SRC, s) for s in srcs], gen))
        for j in jobs:
            j.result()
        base = ['gcc', '-DHAVE_CONFIG_H', '-I' + gen, '-I' + os.path.join(d, 'include'), '-I' + SRC,
                '-DPKGDATADIR="/nonexistent"', '-DSCMLIBDIR="/nonexistent"', '-w']
        objs, jobs = [], []
        for f in _sources(storage) + ['main.c']:
            o = os.path.join(d, f[:-2] + '.o')
            fl = list(flags)
            if f == 'storage-gc.c' and flavour == 'san':
                # the conservative stack scan legitimately reads every word
                # of the stack, redzones included
                fl = ['-g', '-O1', '-fno-omit-frame-pointer']
            if f == 'storage-gc.c' and flavour == 'gcs':
                objs.append(o)
                jobs.append(ex.submit(_gcs, base + fl + ['-DSCM_COMPILING_LIBSSCM=1', '-o', o, '-c'], os.path.join(SRC, f)))
                continue
            if f != 'main.c':
                fl.append('-DSCM_COMPILING_LIBSSCM=1')
                objs.append(o)
            jobs.append(ex.submit(_run, base + fl + ['-c', os.path.join(SRC, f), '-o', o]))
        for f in sorted(os.listdir(HARNESS)):
            if f.endswith('.c'):
                jobs.append(ex.submit(_harness, base + flags + ['-DSCM_COMPILING_LIBSSCM=1', '-c', os.path.join(HARNESS, f),
                                      '-o', os.path.join(d, 'h_' + f[:-2] + '.o')], f[:-2]))
        for j in jobs:
            j.result()
        jobs = [ex.submit(_run, ['gcc'] + flags + objs + [os.path.join(d, 'main.o'), '-lgcroots', '-lm',
                                                          '-o', os.path.join(d, 'sscm')])]
        for f in sorted(os.listdir(HARNESS)):
            if f.endswith('.c'):
                jobs.append(ex.submit(_harness, ['gcc'] + flags + objs + [os.path.join(d, 'h_' + f[:-2] + '.o'),
                            '-lgcroots', '-lm', '-o', os.path.join(d, f[:-2])], f[:-2]))
        for j in jobs:
            j.result()


def build(variant):
    """Returns the directory holding the executables of VARIANT."""
    storage, flavour = variant.split('-')
    os.makedirs(BUILD, exist_ok=True)
    key = _hash()
    d = os.path.join(BUILD, '%s-%s' % (variant, key))
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, '.ok')):
            os.utime(d)
            return d
        # drop stale builds of this variant
        old = sorted((f for f in os.listdir(BUILD) if f.startswith(variant + '-')),
                     key=lambda f: os.path.getmtime(os.path.join(BUILD, f)))
        for f in old[:-15]:
            shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        _compile(d, storage, flavour)
        open(os.path.join(d, '.ok'), 'w').close()
    return d


if __name__ == '__main__':
    for v in sys.argv[1:]:
        print(build(v))
