"""Search engine shared by all properties.

A property module in /verif/props defines

  ID, TITLE_RULE (the stated non-triviality rule), ASSUMPTIONS (list)
  PARTS = [Part, ...]

Part(name, gen, check, quick=N, thorough=M)
  gen(src)          -> case (any object with .key() and .show())
  check(case, env)  -> None | str (why it fails)
"""
import glob, hashlib, importlib, json, multiprocessing as mp, os, re, signal, sys, time, traceback
from . import build as B
from .runner import Server, ServerDied
from .src import Src, Overrun, shrink

VERIF = B.VERIF
NWORK = int(os.environ.get('VERIF_JOBS', '8'))


class Case:
    """Default case: a program text plus an expectation."""
    def __init__(self, text, expect=None, nontrivial=True, tags=(), **kw):
        self.text, self.expect, self.nontrivial, self.tags = text, expect, nontrivial, tuple(tags)
        self.__dict__.update(kw)

    def key(self):
        t = self.text
        if isinstance(t, str):
            t = t.encode('utf-8', 'surrogateescape')
        for n, b in getattr(self, 'files', ()):
            t += b'\0' + n.encode() + b'\0' + b
        return t

    def show(self):
        t = self.text
        if isinstance(t, bytes):
            t = t.decode('utf-8', 'backslashreplace')
        for n, b in getattr(self, 'files', ()):
            t += '\n;; file %s: %r' % (n, b)
        return t


class Part:
    def __init__(self, name, gen, check, quick, thorough, variants=('compact-opt',), batch=50, setup=None,
                 shrink_budget=400):
        self.name, self.gen, self.check, self.quick, self.thorough = name, gen, check, quick, thorough
        self.variants, self.batch, self.setup, self.shrink_budget = variants, batch, setup, shrink_budget


class Env:
    """Per-worker lazily created servers."""
    def __init__(self):
        self.servers = {}
        self.scratch = None

    def server(self, variant='compact-opt', **kw):
        k = (variant, tuple(sorted(kw.items())))
        s = self.servers.get(k)
        if s is None:
            s = self.servers[k] = Server(variant, **kw)
        return s

    def run(self, text, mode='-', variant='compact-opt', cpu=10, as_mb=0, **kw):
        s = self.server(variant, **kw)
        try:
            return s.run(text, mode, cpu, as_mb)
        except (ServerDied, BrokenPipeError):
            s.close()
            del self.servers[(variant, tuple(sorted(kw.items())))]
            raise

    def dir(self):
        if self.scratch is None:
            import tempfile
            self.scratch = tempfile.mkdtemp(prefix='vsscm')
        return self.scratch

    def close(self):
        for s in self.servers.values():
            s.close()
        if self.scratch:
            import shutil
            shutil.rmtree(self.scratch, ignore_errors=True)
            self.scratch = None


def case_seed(seed, pid, part, i):
    return int.from_bytes(hashlib.sha256(('%d/%s/%s/%d' % (seed, pid, part, i)).encode()).digest()[:8], 'big')


def one(part, src, env):
    """-> (case, failure)"""
    case = part.gen(src)
    try:
        return case, part.check(case, env)
    except ServerDied as e:
        return case, 'interpreter died: %s' % e


def _worker(pid, modname, seed, tier, jobs, q, deadline, stop):
    try:
        sys.setrecursionlimit(20000)
        mod = importlib.import_module(modname)
        env = Env()
        parts = {p.name: p for p in mod.PARTS}
        known = load_known()
        while True:
            try:
                pname, lo, hi = jobs.get()
            except Exception:
                break
            if pname is None:
                break
            part = parts[pname]
            st = dict(part=pname, n=0, nontriv=[], tags={}, samples=[], fails=[], skipped=0, sizes=0, known={})
            for i in range(lo, hi):
                if stop.value or time.time() > deadline:
                    st['skipped'] += hi - i
                    break
                src = Src(case_seed(seed, pid, pname, i))
                try:
                    case, why = one(part, src, env)
                except Overrun:
                    continue
                st['n'] += 1
                st['sizes'] += len(src.rec)
                if case.nontrivial:
                    k = case.key()
                    if isinstance(k, str):
                        k = k.encode('utf-8', 'surrogateescape')
                    st['nontriv'].append(hashlib.sha1(k).digest()[:10])
                    if i % 97 == 3 and len(st['samples']) < 2:
                        st['samples'].append(case.show()[:600])
                for t in case.tags:
                    st['tags'][t] = st['tags'].get(t, 0) + 1
                k = known_match(pid, case, why, known) if why is not None else None
                if k:
                    st['known'][k['id']] = st['known'].get(k['id'], 0) + 1
                elif why is not None:
                    st['fails'].append((i, why, list(src.rec)))
                    if len(st['fails']) >= 3:
                        stop.value = 1
                        break
            q.put(st)
        env.close()
        q.put(None)
    except BaseException:
        q.put(dict(crash=traceback.format_exc()))
        q.put(None)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def known_match(pid, case, why, known):
    for k in known:
        if k.get('property') != pid or k.get('status') != 'known':
            continue
        if re.search(k['match_case'], case.show(), re.S) and re.search(k['match_why'], why, re.S):
            return k
    return None


def minimise(part, choices, env, pid='', known=()):
    def fails(c):
        src = Src(choices=c)
        try:
            case, why = one(part, src, env)
        except Overrun:
            return None
        except Exception:
            return None
        if why is not None and known_match(pid, case, why, known):
            return None
        return src.rec if why is not None else None
    return shrink(choices, fails, part.shrink_budget)


def main(mod, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--part')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--index', type=int)
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    pid = mod.ID
    t0 = time.time()
    parts = [p for p in mod.PARTS if not a.part or p.name == a.part]
    for v in sorted({v for p in parts for v in p.variants}):
        try:
            B.build(v)
        except B.BuildError as e:
            print('cannot build %s:\n%s' % (v, e))
            sys.exit(2)

    if a.replay or a.index is not None:
        env = Env()
        if a.replay:
            r = json.load(open(a.replay))
            part = {p.name: p for p in mod.PARTS}[r['part']]
            src = Src(choices=r['choices'])
        else:
            part = parts[0]
            src = Src(case_seed(a.seed, pid, part.name, a.index))
        case, why = one(part, src, env)
        print(case.show())
        if why:
            print('FAIL:', why)
        else:
            print('holds')
        env.close()
        sys.exit(1 if why else 0)

    wall = float(os.environ.get('VERIF_WALL', '400' if a.tier == 'quick' else '3000'))
    ctx = mp.get_context('fork')
    q, jobs, stop = ctx.Queue(), ctx.SimpleQueue(), ctx.Value('i', 0)
    todo = []
    for p in parts:
        n = int((p.quick if a.tier == 'quick' else p.thorough) * a.scale)
        for lo in range(0, n, p.batch):
            todo.append((p.name, lo, min(n, lo + p.batch)))
    # interleave the parts
    order = sorted(range(len(todo)), key=lambda i: (todo[i][1] // max(1, todo[i][2] - todo[i][1]), i))
    feeder = [todo[i] for i in order]
    import threading

    def feed():
        for t in feeder + [(None, 0, 0)] * NWORK:
            jobs.put(t)
    threading.Thread(target=feed, daemon=True).start()
    deadline = t0 + wall
    ws = [ctx.Process(target=_worker, args=(pid, mod.__name__, a.seed, a.tier, jobs, q, deadline, stop))
          for _ in range(NWORK)]
    for w in ws:
        w.start()
    live = NWORK
    agg = {}
    crash = None
    while live:
        st = q.get()
        if st is None:
            live -= 1
            continue
        if 'crash' in st:
            crash = st['crash']
            stop.value = 1
            continue
        g = agg.setdefault(st['part'], dict(n=0, nontriv=set(), tags={}, samples=[], fails=[], skipped=0, sizes=0,
                                            known={}))
        g['n'] += st['n']
        g['sizes'] += st['sizes']
        g['nontriv'].update(st['nontriv'])
        g['samples'] += st['samples']
        g['fails'] += st['fails']
        g['skipped'] += st['skipped']
        for t, c in st['known'].items():
            g['known'][t] = g['known'].get(t, 0) + c
        for t, c in st['tags'].items():
            g['tags'][t] = g['tags'].get(t, 0) + c
    for w in ws:
        w.join()
    if crash:
        print('check machinery error:\n' + crash)
        sys.exit(2)

    known = load_known()
    violations = []
    hit = {t for g in agg.values() for t in g['known']}
    seen_known = {k['id']: k for k in known if k['id'] in hit}
    env = Env()
    for p in parts:
        if p.name not in agg:
            continue
        if violations:
            break
        for i, why, choices in sorted(agg[p.name]['fails'])[:6]:
            # deterministic confirmation before anything is reported
            ok = 0
            for _ in range(3):
                case, w = one(p, Src(choices=choices), env)
                ok += w is not None
            if ok < 3:
                print('unconfirmed (%d/3) part=%s index=%d: %s' % (ok, p.name, i, why[:500]))
                continue
            k = known_match(pid, case, w, known)
            if k:
                seen_known[k['id']] = k
                continue
            small = minimise(p, choices, env, pid, known)
            case, w = one(p, Src(choices=small), env)
            if w is None:
                small = choices
                case, w = one(p, Src(choices=small), env)
            rd = os.path.join(VERIF, 'replay')
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s-%d-%d.json' % (pid, p.name, a.seed, i))
            json.dump(dict(property=pid, part=p.name, seed=a.seed, index=i, choices=small,
                           case=case.show(), why=w), open(path, 'w'), indent=1)
            violations.append(dict(path=path, case=case.show(), why=w, part=p.name))
            break
    env.close()
    for k in seen_known.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    total = sum(g['n'] for g in agg.values())
    distinct = len(set().union(*[g['nontriv'] for g in agg.values()])) if agg else 0
    skipped = sum(g['skipped'] for g in agg.values())
    cov = dict(evaluations=total, distinct_nontrivial=distinct, rule=mod.RULE,
               samples=[s for g in agg.values() for s in g['samples'][:3]][:12],
               parts={n: dict(cases=g['n'], distinct_nontrivial=len(g['nontriv']), choices=g['sizes'],
                              skipped=g['skipped'],
                              tags=dict(sorted(g['tags'].items(), key=lambda kv: -kv[1])[:60]))
                      for n, g in agg.items()})
    if hasattr(mod, 'finish'):
        mod.finish(agg, cov)
    ev = dict(property=pid, tier=a.tier, seed=a.seed, level='exploration', coverage=cov,
              wall_s=round(time.time() - t0, 2), violations=len(violations),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
              known_findings=[k['id'] for k in seen_known.values()])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %.1fs' % (
        pid, a.tier, a.seed, total, distinct, skipped, time.time() - t0))
    for n, g in agg.items():
        print('  part %-14s %7d cases %7d distinct non-trivial' % (n, g['n'], len(g['nontriv'])))
    for v in violations:
        print('--- minimal case (%s):\n%s\n--- why: %s' % (v['part'], v['case'][:3000], v['why'][:3000]))
        print('VIOLATION property=%s replay=%s' % (pid, v['path']))
    sys.exit(1 if violations else 0)
