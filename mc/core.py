'''Runner for the bounded exhaustive checks.

A check is a module `mc/checks/cXX.py` with

    PROPERTY = 'CXX'
    def families(tier): -> list of Family

A Family enumerates JSON-able cases of a finite space completely, and
`Family.check(case, ctx)` executes one case on the real code and compares every
observation with the reference model; it raises `Violation` (helper: ctx.ck /
ctx.eq) when the property is broken.  The runner distributes the cases over
forked worker processes, gives every case a time limit (not terminating is a
violation, too), writes evidence and replay files and decides the exit status.
'''
from __future__ import annotations
import argparse
import atexit
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CAUSETS_REPO', '/repo')
SOFT_DEADLINE = {'quick': 640.0, 'thorough': 6 * 3600.0}
CASE_LIMIT = {'quick': 60, 'thorough': 120}


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx:
    '''Counters of one worker, and assertion helpers.'''

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.extra = {}

    def ck(self, cond, msg, *args):
        self.transitions += 1
        if not cond:
            raise Violation(msg % args if args else msg)

    def eq(self, got, want, msg, *args):
        self.transitions += 1
        if got != want:
            m = msg % args if args else msg
            raise Violation('%s: got %s, expected %s'
                            % (m, short(got), short(want)))

    def raises(self, exc, f, msg):
        self.transitions += 1
        try:
            r = f()
        except exc:
            return
        raise Violation('%s: %s not raised (result %s)'
                        % (msg, getattr(exc, '__name__', exc), short(r)))

    def count(self, key, k=1):
        self.extra[key] = self.extra.get(key, 0) + k


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Family:
    '''cases: callable returning an iterable; check: callable(case, ctx)'''

    def __init__(self, name, cases, check, note=''):
        self.name = name
        self.cases = cases
        self.check = check
        self.note = note


_link_dir = None


def setup_import():
    '''make `import causets` load the working tree in REPO, without writing
    byte code anywhere.'''
    global _link_dir
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.environ['MPLBACKEND'] = 'Agg'
    _link_dir = tempfile.mkdtemp(prefix='mc_causets_')
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(_link_dir, ignore_errors=True)
    atexit.register(clean)
    os.environ['MPLCONFIGDIR'] = os.path.join(_link_dir, 'mpl')
    if os.path.isdir('/opt/venv/mplconfig'):
        try:
            shutil.copytree('/opt/venv/mplconfig', os.path.join(_link_dir, 'mpl'))
        except Exception:
            pass
    # the directory of the package is not importable from elsewhere by name,
    # and its byte code caches are never used:
    sys.pycache_prefix = os.path.join(_link_dir, 'pyc')
    os.symlink(REPO, os.path.join(_link_dir, 'causets'))
    sys.path.insert(0, _link_dir)
    warnings.simplefilter('ignore')


def scratch():
    return _link_dir


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(fam, case, ctx, limit):
    '''returns None or an error string'''
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    impl = sys.modules.get('mc.impl')
    if impl is not None:
        impl.reset()    # scheduled hashes do not depend on earlier cases
    try:
        fam.check(case, ctx)
        return None
    except Violation as v:
        return str(v)
    except CaseTimeout:
        return 'does not terminate within %d s' % limit
    except MemoryError:
        return 'runs out of memory'
    except RecursionError:
        return 'unbounded recursion'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if '/causets/' in f.filename]
        at = (loc or list(tb))[-1]
        return 'raised %s: %s (%s line %d)' % (
            type(e).__name__, short(str(e), 200),
            os.path.basename(at.filename), at.lineno or 0)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def case_key(fam, case):
    return fam.name + ':' + json.dumps(case, sort_keys=True)


def claimed(cases, counter):
    '''the cases that this worker claims from a counter shared by all; the
    number of cases claimed at a time adapts to their duration'''
    nxt, end, chunk = 0, 0, 1
    t0 = time.time()
    for i, case in enumerate(cases):
        if i >= end:
            t1 = time.time()
            chunk = min(64, 2 * chunk) if t1 - t0 < 0.02 else 1
            with counter.get_lock():
                nxt = counter.value
                counter.value = end = nxt + chunk
            t0 = time.time()
        if i >= nxt:
            yield case


def _worker(k, counters, fams, known, tier, deadline, stopflag, q):
    try:
        import numpy as np
        np.seterr(all='ignore')
    except Exception:
        pass
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    except Exception:
        pass
    ctx = Ctx()
    per = {}
    samples = []
    fails = []
    kn = []
    truncated = False
    limit = CASE_LIMIT[tier]
    for fam, counter in zip(fams, counters):
        n = 0
        t0 = time.time()
        full = True
        for case in claimed(fam.cases(), counter):
            if time.time() > deadline:
                truncated, full = True, False
                break
            if stopflag.value >= 3 and not fails:
                full = False
                break
            n += 1
            ctx.traces += 1
            err = run_case(fam, case, ctx, limit)
            if n <= 1 and len(samples) < 12:
                samples.append([fam.name, case])
            if err is not None:
                key = case_key(fam, case)
                if key in known:
                    kn.append((key, err))
                    continue
                fails.append((len(json.dumps(case)), fam.name, case, err))
                with stopflag.get_lock():
                    stopflag.value += 1
                if len(fails) >= 3 or 'terminate' in err:
                    full = False
                    break
        per[fam.name] = (n, full, time.time() - t0)
        if fails:
            break
    q.put((k, ctx.states, ctx.transitions, ctx.traces, ctx.extra, per, samples,
           fails, kn, truncated))


def load_known(prop):
    f = os.path.join(ROOT, 'known_findings.json')
    known = {}
    if os.path.exists(f):
        with open(f) as fh:
            data = json.load(fh)
        for e in data.get('findings', []):
            if e['property'] == prop:
                known[e['case']] = e['what']
    return known


def write_replay(prop, famname, case, err):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    body = {'property': prop, 'family': famname, 'case': case, 'error': err,
            'how': './run.sh %s --replay <this file>' % prop}
    h = hashlib.sha1(json.dumps([famname, case]).encode()).hexdigest()[:10]
    f = os.path.join(d, '%s_%s.json' % (prop, h))
    with open(f, 'w') as fh:
        json.dump(body, fh, indent=1)
    return os.path.relpath(f, ROOT)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--family')
    ap.add_argument('--jobs', type=int, default=0)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    prop = a.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    setup_import()
    try:
        mod = importlib.import_module('mc.checks.' + prop.lower())
    except Exception as e:
        traceback.print_exc()
        if '/causets/' in ''.join(traceback.format_tb(e.__traceback__)):
            r = write_replay(prop, 'import', None, str(e))
            print('VIOLATION property=%s replay=%s' % (prop, r))
            return 1
        return 2
    fams = mod.families(tier)
    if a.family:
        fams = [f for f in fams if f.name == a.family]
    if a.replay:
        with open(a.replay) as fh:
            r = json.load(fh)
        every = {f.name: f for f in mod.families('quick')}
        every.update({f.name: f for f in mod.families('thorough')
                      if f.name not in every})
        if r['family'] not in every:
            print('unknown family', r['family'])
            return 2
        err = run_case(every[r['family']], r['case'], Ctx(), 300)
        print('replay of', r['family'], short(r['case'], 2000))
        if err:
            print('  ', err)
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        print('   holds')
        return 0
    known = load_known(prop)
    ncpu = a.jobs or min(8, max(1, len(os.sched_getaffinity(0))))
    # pre-import everything, so that the workers share it
    import causets  # noqa
    q = mp.Queue()
    stop = mp.Value('i', 0)
    deadline = t0 + SOFT_DEADLINE[tier]
    counters = [mp.Value('q', 0) for f in fams]
    ps = [mp.Process(target=_worker, args=(k, counters, fams, known, tier,
                                           deadline, stop, q))
          for k in range(ncpu)]
    for p in ps:
        p.start()
    res = []
    dead = 0
    while len(res) + dead < ncpu:
        try:
            res.append(q.get(timeout=5))
        except Exception:
            got = {r[0] for r in res}
            dead = sum(1 for k, p in enumerate(ps)
                       if not p.is_alive() and k not in got)
            if dead:
                # one more look, the message may be in the pipe
                try:
                    res.append(q.get(timeout=3))
                    got = {r[0] for r in res}
                except Exception:
                    pass
                dead = sum(1 for k, p in enumerate(ps)
                           if not p.is_alive() and k not in got)
    for p in ps:
        p.join(2)
    fails = sorted((f for r in res for f in r[7]),
                   key=lambda f: (f[0], str(f)))
    if dead and not fails:
        print('worker process died (killed?); no verdict', file=sys.stderr)
        return 3
    kn = sorted({e for r in res for e in r[8]})
    per = {}
    extra = {}
    for r in res:
        for name, (n, full, dt) in r[5].items():
            c = per.setdefault(name, {'cases': 0, 'complete': True, 'cpu_s': 0})
            c['cases'] += n
            c['complete'] = c['complete'] and full
            c['cpu_s'] = round(c['cpu_s'] + dt, 2)
        for key, v in r[4].items():
            extra[key] = extra.get(key, 0) + v
    truncated = any(r[9] for r in res)
    exhaustive = not truncated and not fails and \
        all(c['complete'] for c in per.values()) and len(per) == len(fams)
    traces = sum(r[3] for r in res)
    samples = [s for r in res for s in r[6]][:24]
    notes = {f.name: f.note for f in fams}
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'model_checking',
          'coverage': {
              'states': sum(r[1] for r in res),
              'transitions': sum(r[2] for r in res),
              'traces_validated_against_impl': traces,
              'exhaustive': exhaustive,
              'truncated_by_deadline': truncated,
              'families': {k: dict(v, bound=notes.get(k, ''))
                           for k, v in per.items()},
              'counters': extra,
              'rule': getattr(mod, 'RULE', ''),
              'samples': [{'family': s[0], 'case': json.loads(
                  json.dumps(s[1])) if len(json.dumps(s[1])) < 1500
                  else short(s[1], 600)} for s in samples],
          },
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(time.time() - t0, 2),
          'violations': len(fails)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    tmp = os.path.join(ROOT, 'evidence', '.%s.%d' % (prop, os.getpid()))
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(tmp, os.path.join(ROOT, 'evidence', prop + '.json'))
    print('%s %s: states=%d transitions=%d traces=%d exhaustive=%s wall=%.1fs'
          % (prop, tier, ev['coverage']['states'], ev['coverage']['transitions'],
             traces, exhaustive, ev['wall_s']))
    for name, c in per.items():
        print('   %-28s cases=%-9d complete=%s cpu=%.1fs'
              % (name, c['cases'], c['complete'], c['cpu_s']))
    shown = set()
    for key, err in kn:
        if known[key] not in shown:
            shown.add(known[key])
            print('KNOWN-FINDING: property=%s %s' % (prop, known[key]))
    if fails:
        _, famname, case, err = fails[0]
        print('   family %s case %s' % (famname, short(case, 1500)))
        print('   ' + err)
        r = write_replay(prop, famname, case, err)
        print('VIOLATION property=%s replay=%s' % (prop, r))
        return 1
    return 0
