# coding: utf-8
"""Runtime-monitoring harness for FiXiF.

A *property module* (rv/props/Cxx.py) declares

    PROPERTY, RULE, ASSUMPTIONS
    WORKLOADS = [Workload(name, func, quick=N, thorough=M), ...]
    EXPECT    = {'monitor-name': minimal number of observations, ...}

`func(m, rng, i)` drives the real code on one generated case and reports what it observes to
the monitor `m`:  m.case(...) describes the case, m.ok(monitor, cond, what, **witness) is an
oracle evaluation, m.raises(...) watches a rejection.  Any exception that escapes from the case
is itself an observation ("the operation is not available on a legal input") and a violation.

Verdicts are three-valued: exit 1 + VIOLATION line, exit 0, or exit 2 (inconclusive: a monitor
was never reached, or the harness itself failed).
"""
import os
import sys
import json
import time
import random
import signal
import hashlib
import traceback
import resource
import pickle
import tempfile
import shutil
import importlib
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('RV_REPO', '/repo')
CASE_CPU = int(os.environ.get('RV_CASE_CPU', 90))          # CPU seconds granted to one case (they normally take milliseconds)
SCRATCH = None          # per-run scratch directory (removed at the end)


class NonTermination(BaseException):
    pass


class StopCase(Exception):
    """raised by the monitor to leave a case after a failed precondition of the oracle"""


QUICK = 6       # the quick runs explore six times the number of cases given to the workloads


class Workload(object):
    def __init__(self, name, func, quick, thorough, chunk=None):
        self.name, self.func = name, func
        self.n = {'quick': max(quick, min(QUICK * quick, thorough)), 'thorough': thorough}
        self.chunk = chunk


class Monitor(object):
    """collects the observations of one worker"""
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events = Counter()
        self.keys = set()
        self.evals = 0
        self.samples = {}
        self.violations = []
        self.notes = Counter()
        self._cur = None
        self._seen = set()

    # -- case bookkeeping -------------------------------------------------
    def begin(self, workload, index):
        self._cur = (workload, index)
        self._case = None

    def case(self, desc, nontrivial=True, key=None):
        """describe the current case (a string / JSON-able object)"""
        s = desc if isinstance(desc, str) else json.dumps(desc, sort_keys=True, default=str)
        self._case = s
        self.evals += 1
        if nontrivial:
            self.keys.add(hashlib.sha1((self._cur[0] + '|' + str(key if key is not None else s)).encode()).hexdigest()[:16])
        if len(self.samples.setdefault(self._cur[0], [])) < 2:
            self.samples[self._cur[0]].append(s[:600])

    def seen(self, monitor, n=1):
        """count an observed event"""
        self.events[monitor] += n

    def note(self, what, n=1):
        self.notes[what] += n

    # -- oracles ------------------------------------------------------------
    def ok(self, monitor, cond, what='', **witness):
        self.events[monitor] += 1
        if not cond:
            self.violation(monitor, what, witness)
        return bool(cond)

    def need(self, monitor, cond, what='', **witness):
        if not self.ok(monitor, cond, what, **witness):
            raise StopCase()

    def raises(self, monitor, exc, func, what='', **witness):
        """the call must be refused with `exc` (a class or a tuple)"""
        self.events[monitor] += 1
        try:
            r = func()
        except exc:
            return True
        except NonTermination:
            raise
        except Exception as e:
            witness['raised'] = '%s: %s' % (type(e).__name__, e)
            self.violation(monitor, what + ' (wrong exception)', witness)
            return False
        witness['returned'] = repr(r)[:300]
        self.violation(monitor, what + ' (accepted)', witness)
        return False

    def violation(self, monitor, what, witness):
        key = '%s/%s' % (self._cur[0] if self._cur else '-', monitor)
        # keep a few witnesses by monitor only
        if sum(1 for v in self.violations if v['key'] == key and v['what'] == what) >= 2 or len(self.violations) > 200:
            self.notes['suppressed duplicate violations'] += 1
            return
        self.violations.append({
            'property': self.prop, 'key': key, 'what': what, 'workload': self._cur[0], 'index': self._cur[1],
            'case': self._case, 'witness': {k: (v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)[:2000]) for k, v in witness.items()},
            'seed': self.seed, 'tier': self.tier})

    def dump(self):
        return dict(events=self.events, keys=self.keys, evals=self.evals, samples=self.samples,
                    violations=self.violations, notes=self.notes)

    def merge(self, d):
        self.events.update(d['events'])
        self.keys |= d['keys']
        self.evals += d['evals']
        for k, v in d['samples'].items():
            self.samples.setdefault(k, [])
            self.samples[k] = (self.samples[k] + v)[:2]
        self.violations += d['violations']
        self.notes.update(d['notes'])


def case_rng(seed, prop, workload, index):
    return random.Random('%s:%s:%s:%s' % (seed, prop, workload, index))


def _alarm(signum, frame):
    raise NonTermination()


def setup_paths():
    sys.dont_write_bytecode = True
    for p in (os.path.join(VERIF, 'stubs'), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def _ambient():
    import mpmath
    return mpmath.mp.prec


def run_case(m, mod, w, i):
    import numpy
    import mpmath
    rng = case_rng(m.seed, m.prop, w.name, i)
    numpy.random.seed(rng.getrandbits(32))
    random.seed(rng.getrandbits(64))
    mpmath.mp.prec = 53
    mpmath.mp.pretty = False
    m.begin(w.name, i)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        w.func(m, rng, i)
    except StopCase:
        pass
    except NonTermination:
        m.violation('terminates', 'the case did not terminate within %d CPU seconds (normally well below one)' % CASE_CPU,
                    {'stack': traceback.format_exc()[-1500:]})
    except MemoryError:
        m.violation('memory', 'the case exhausted the memory granted', {})
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        where = inrepo[-1].name if inrepo else tb[-1].name
        m.violation('no-exception:%s:%s' % (type(e).__name__, where), 'unexpected exception on a legal case: %s: %s' % (type(e).__name__, str(e)[:300]),
                    {'traceback': traceback.format_exc()[-2500:], 'in_repo': bool(inrepo)})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        mpmath.mp.prec = 53


def _worker(args):
    """child process: run a list of (workload index, case index)"""
    prop, tier, seed, jobs, out, scratch = args
    global SCRATCH
    SCRATCH = scratch
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    signal.signal(signal.SIGPROF, _alarm)
    mod = importlib.import_module('rv.props.%s' % prop)
    m = Monitor(prop, tier, seed)
    for wi, i in jobs:
        run_case(m, mod, mod.WORKLOADS[wi], i)
        if any(v['key'].endswith('/terminates') for v in m.violations):
            break           # each further case could take as long
    with open(out, 'wb') as f:
        pickle.dump(m.dump(), f)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(argv):
    global SCRATCH
    t0 = time.time()
    prop = argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as f:
            replay = json.load(f)
        seed, tier = replay['seed'], replay['tier']
    setup_paths()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    SCRATCH = tempfile.mkdtemp(prefix='rv-%s-' % prop)
    os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
    os.environ['TMPDIR'] = SCRATCH
    tempfile.tempdir = SCRATCH
    try:
        return _main(prop, tier, seed, replay, t0)
    finally:
        shutil.rmtree(SCRATCH, ignore_errors=True)


def _main(prop, tier, seed, replay, t0):
    import warnings
    warnings.simplefilter('ignore')
    try:
        import numpy, mpmath  # noqa
        mod = importlib.import_module('rv.props.%s' % prop)
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(REPO) for f in tb):
            # the package cannot even be imported: nothing the property promises is available
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-import.json' % prop)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'what': 'import failed', 'traceback': traceback.format_exc(), 'seed': seed, 'tier': tier,
                           'workload': None}, f, indent=1)
            write_evidence(prop, tier, seed, Monitor(prop, tier, seed), t0, 'import', [], 1)
            print('%s: the code cannot be imported: %s' % (prop, e))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        traceback.print_exc()
        return 2
    if replay is not None:
        return do_replay(prop, tier, seed, replay, mod)

    total = Monitor(prop, tier, seed)
    jobs = []
    for wi, w in enumerate(mod.WORKLOADS):
        for i in range(w.n[tier]):
            jobs.append((wi, i))
    ncpu = min(int(os.environ.get("RV_NCPU", 8)), os.cpu_count() or 1, max(1, len(jobs)))
    # interleave the cases over the workers (chunks keep related cases together)
    shards = [jobs[k::ncpu * 3] for k in range(ncpu * 3)]
    shards = [s for s in shards if s]
    problems = []
    pids = {}
    outs = []
    pending = list(enumerate(shards))
    deadline = t0 + (780 if tier == 'quick' else 840)
    while pending or pids:
        while pending and len(pids) < ncpu:
            k, s = pending.pop(0)
            out = os.path.join(SCRATCH, 'shard-%d.pkl' % k)
            scr = os.path.join(SCRATCH, 's%d' % k)
            os.makedirs(scr)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
                    os.setpgid(0, 0)
                    _worker((prop, tier, seed, s, out, scr))
                    code = 0
                except BaseException:
                    try:
                        with open(out + '.err', 'w') as f:
                            traceback.print_exc(file=f)
                    except Exception:
                        pass
                os._exit(code)
            pids[pid] = (k, out, s)
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            if time.time() > deadline:
                for p in pids:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
                problems.append('wall-clock watchdog fired: %d shards unfinished' % len(pids))
                break
            time.sleep(0.01)
            continue
        if pid not in pids:
            continue
        k, out, s = pids.pop(pid)
        outs.append(k)
        if status != 0 or not os.path.exists(out):
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL):
                total.begin('shard', k)
                total._case = 'shard %d of %d' % (k, len(shards))
                total.violation('no-crash', 'the process running the code died with signal %d' % os.WTERMSIG(status), {'jobs': s[:50]})
            else:
                err = ''
                if os.path.exists(out + '.err'):
                    with open(out + '.err') as f:
                        err = f.read()
                problems.append('worker %d failed (status %d) %s' % (k, status, err[-1500:]))
            continue
        with open(out, 'rb') as f:
            total.merge(pickle.load(f))
        if pending and any(v['key'].endswith('/terminates') for v in total.violations):
            problems.append('%d shards not started after a case that does not terminate' % len(pending))
            pending = []
    # monitors that must have been reached
    for mon, least in mod.EXPECT.items():
        if total.events[mon] < least:
            problems.append('monitor %r observed %d events only (at least %d expected)' % (mon, total.events[mon], least))

    known = [k for k in load_known() if k['property'] == prop]
    hit, new = Counter(), []
    for v in sorted(total.violations, key=lambda v: (v['key'], v['index'])):
        for k in known:
            if k['key'] == v['key'] and (k.get('what') is None or k['what'] in v['what']):
                hit[k['id']] += 1
                break
        else:
            new.append(v)
    write_evidence(prop, tier, seed, total, t0, mod.RULE, mod.ASSUMPTIONS, len(new))
    print('%s (%s, seed %d): %d cases, %d distinct non-trivial, %d oracle evaluations, %.1f s' % (
        prop, tier, seed, total.evals, len(total.keys), sum(total.events.values()), time.time() - t0))
    for k, n in sorted(total.events.items()):
        print('   observed %-42s %d' % (k, n))
    for k, n in sorted(total.notes.items()):
        print('   note     %-42s %d' % (k, n))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['title']))
    if new:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        done = set()
        for v in new:
            sig = (v['key'], v['what'][:80])
            if sig in done or len(done) >= 12:
                continue
            done.add(sig)
            path = os.path.join(VERIF, 'replays', '%s-%s.json' % (prop, hashlib.sha1(repr(sig).encode()).hexdigest()[:10]))
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print('-- %s [case %s] %s' % (v['key'], v['index'], v['what']))
            print('   case: %s' % (v['case'] or '')[:400])
            for a, b in list(v['witness'].items())[:6]:
                print('   %s: %s' % (a, str(b)[:700]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if problems:
        for p in problems:
            print('INCONCLUSIVE: ' + p)
        return 2
    return 0


def do_replay(prop, tier, seed, r, mod):
    signal.signal(signal.SIGPROF, _alarm)
    m = Monitor(prop, tier, seed)
    for w in mod.WORKLOADS:
        if w.name == r['workload']:
            run_case(m, mod, w, r['index'])
    for v in m.violations:
        print('%s: %s\n  case: %s' % (v['key'], v['what'], v['case']))
        for a, b in v['witness'].items():
            print('   %s: %s' % (a, b))
    if m.violations:
        print('VIOLATION property=%s replay=%s' % (prop, sys.argv[-1]))
        return 1
    print('not reproduced')
    return 0


def write_evidence(prop, tier, seed, m, t0, rule, assumptions, nviol):
    samples = []
    for w in sorted(m.samples):
        for s in m.samples[w][:1]:
            samples.append('%s: %s' % (w, s))
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': m.evals, 'distinct_nontrivial': len(m.keys), 'rule': rule,
            'samples': samples[:14] or ['(none)'],
            'oracle_evaluations': int(sum(m.events.values())),
            'observed_events': {k: int(v) for k, v in sorted(m.events.items())},
            'notes': {k: int(v) for k, v in sorted(m.notes.items())},
            'explanation': 'held on the executions listed here; nothing is claimed about executions not driven',
        },
        'assumptions': list(assumptions), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', '%s.json' % prop))
