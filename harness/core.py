"""Campaign runner: generated-input search with Hypothesis, sharded over forked workers.

A property module (props/cNN.py) offers ID, ASSUMPTIONS and CAMPAIGNS.  Each campaign has a
strategy producing a JSON-able case and a check(case, ctx) that raises Violation.  Every random
choice is drawn by Hypothesis, seeded from (VERIF_SEED, property, campaign, worker).
"""
import contextlib
import copy
import hashlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('OELINT_REPO', '/repo'))

for _extra in ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']:
    if os.path.isdir(_extra) and _extra not in sys.path:
        sys.path.append(_extra)

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, Verbosity, seed, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401

# bytecode of the code under test is never taken from, nor left in, the repository
_PYC = tempfile.mkdtemp(prefix='oelintv-pyc-')
sys.pycache_prefix = _PYC
sys.path.insert(0, REPO)
import oelint_parser  # noqa: E402
import oelint_parser.cls_item  # noqa: E402
import oelint_parser.cls_stash  # noqa: E402
import oelint_parser.constants  # noqa: E402
import oelint_parser.inlinerep  # noqa: E402,F401
import oelint_parser.parser  # noqa: E402
import oelint_parser.rpl_regex  # noqa: E402
shutil.rmtree(_PYC, ignore_errors=True)
sys.pycache_prefix = None
sys.dont_write_bytecode = True

if not os.path.abspath(oelint_parser.cls_stash.__file__).startswith(REPO + os.sep):
    raise SystemExit('harness error: oelint_parser not imported from ' + REPO)

from oelint_parser.cls_stash import Stash  # noqa: E402
from oelint_parser.constants import CONSTANTS, DEFAULT_DB  # noqa: E402

with open(DEFAULT_DB) as _i:
    _DEFAULT = json.load(_i)

WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
CPU_LIMIT = 30          # seconds of CPU one case may burn before it counts as not terminating
SHRINK_SECONDS = 40


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """Something is wrong with the harness or environment, not with the code."""


class Hang(BaseException):
    """CPU guard fired."""


class StopRun(BaseException):
    """Leave the Hypothesis loop early."""


def ensure(cond, msg, *info):
    if not cond:
        raise Violation(msg + ''.join('\n    ' + (x if isinstance(x, str) else repr(x)) for x in info))


def same(what, got, want, *info):
    if got != want:
        raise Violation('%s differs\n    expected: %r\n    reported: %r' % (what, want, got)
                        + ''.join('\n    ' + (x if isinstance(x, str) else repr(x)) for x in info))


def canon(value):
    return json.dumps(value, sort_keys=True, ensure_ascii=True)


class Ctx:
    """Per case context: scratch directory, classification and file helpers."""

    def __init__(self, scratch):
        self.base = scratch
        self.labels = {}
        self.counts = {}
        self.known = []
        self._n = 0
        self.reset()

    def reset(self):
        self.nontrivial = None
        self.case_labels = set()
        self._n += 1
        self.dir = os.path.join(self.base, 'w')
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)

    def label(self, name):
        self.case_labels.add(name)

    def nt(self, flag=True):
        """mark the case as non trivial"""
        self.nontrivial = bool(flag) or bool(self.nontrivial)

    def path(self, rel):
        return os.path.join(self.dir, rel)

    def write(self, rel, content):
        path = self.path(rel)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        if isinstance(content, bytes):
            with open(path, 'wb') as o:
                o.write(content)
        else:
            with open(path, 'w', newline='', encoding='utf-8', errors='surrogatepass') as o:
                o.write(content)
        return path


def reset_constants():
    CONSTANTS.__init__(copy.deepcopy(_DEFAULT))


def default_constants():
    return copy.deepcopy(_DEFAULT)


class Baseline:
    """state of modules, classes and functions of the code under test right after the import"""

    SIMPLE = (type(None), bool, int, float, str, bytes, tuple, frozenset)

    def __init__(self):
        self.holders, self.content, self.caches = [], [], []
        seen = set()
        todo = [m for n, m in sorted(sys.modules.items()) if n == 'oelint_parser' or n.startswith('oelint_parser.')]
        while todo:
            obj = todo.pop()
            if id(obj) in seen:
                continue
            seen.add(id(obj))
            names = {k: v for k, v in vars(obj).items() if not (k.startswith('__') and k.endswith('__'))}
            self.holders.append((obj, dict(names)))
            for v in names.values():
                v = getattr(v, '__func__', v)
                if callable(getattr(v, 'cache_clear', None)):
                    self.caches.append(v)
                    v = getattr(v, '__wrapped__', v)
                if isinstance(v, type) and v.__module__.startswith('oelint_parser'):
                    todo.append(v)
                elif isinstance(v, (dict, list, set)):
                    self.content.append((v, copy.copy(v)))
                elif hasattr(v, '__defaults__'):
                    for d in list(v.__defaults__ or ()) + list((v.__kwdefaults__ or {}).values()):
                        if isinstance(d, (dict, list, set)):
                            self.content.append((d, copy.copy(d)))

    def restore(self):
        for obj, names in self.holders:
            now = vars(obj)
            for k in [k for k in now if k not in names and not (k.startswith('__') and k.endswith('__'))]:
                delattr(obj, k)
            for k, v in names.items():
                if now.get(k, self) is not v:
                    setattr(obj, k, v)
        for obj, kept in self.content:
            if obj != kept:
                obj.clear()
                obj.extend(kept) if isinstance(obj, list) else obj.update(kept)
        for c in self.caches:
            c.cache_clear()


_BASELINE = Baseline()


def reset_sut():
    """put everything global in the code under test back to its initial state"""
    _BASELINE.restore()
    reset_constants()


def new_stash(**kwargs):
    kwargs.setdefault('quiet', True)
    return Stash(**kwargs)


class Campaign:
    def __init__(self, name, strategy, check, quick, thorough=None, rule='', cpu=CPU_LIMIT, single=False):
        self.name = name
        self._strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.rule = rule
        self.cpu = cpu
        self.single = single

    def strategy(self):
        return self._strategy() if callable(self._strategy) else self._strategy


@contextlib.contextmanager
def cpu_guard(seconds):
    def _fire(*_):
        raise Hang()
    old = signal.signal(signal.SIGVTALRM, _fire)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


def run_case(campaign, case, ctx):
    """run one case; returns None or the violation text"""
    case = json.loads(json.dumps(case))
    ctx.reset()
    reset_sut()
    try:
        with cpu_guard(campaign.cpu):
            campaign.check(case, ctx)
    except Violation as e:
        return str(e)
    except HarnessError:
        raise
    except Hang:
        return 'no result within %d s of CPU time' % campaign.cpu
    except (KeyboardInterrupt, StopRun):
        raise
    except MemoryError:
        return 'memory exhausted'
    except RecursionError:
        return 'unexpected RecursionError\n' + '\n'.join(traceback.format_exc().splitlines()[-6:])
    except Exception:
        return 'unexpected exception\n' + traceback.format_exc(limit=-8)
    return None


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.excluded = {}

    def add(self, case, ctx):
        self.evaluations += 1
        h = hashlib.sha1(canon(case).encode()).digest()[:10]
        self.hashes.add(h)
        fresh = False
        if ctx.nontrivial is not False and ctx.nontrivial is not None:
            if h not in self.nontrivial:
                fresh = True
            self.nontrivial.add(h)
        for x in ctx.case_labels:
            self.labels[x] = self.labels.get(x, 0) + 1
        if fresh and len(self.nontrivial) in (3, 40, 200):
            self.samples.append(case)

    def merge(self, other):
        self.evaluations += other.evaluations
        self.hashes |= other.hashes
        self.nontrivial |= other.nontrivial
        for k, v in other.labels.items():
            self.labels[k] = self.labels.get(k, 0) + v
        for s in other.samples:
            if len(self.samples) < 4:
                self.samples.append(s)


def derive_seed(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:6], 'big')


def run_shard(campaign, prop, verif_seed, worker, count, scratch, deadline, stop):
    """run count cases of a campaign; returns (Stats, failure or None, truncated)"""
    ctx = Ctx(scratch)
    stats = Stats()
    state = {'fail': None, 'shrink_until': None, 'index': 0, 'truncated': False, 'harness': None}

    def body(case):
        now = time.monotonic()
        if state['fail'] is None:
            if stop is not None and stop.is_set():
                raise StopRun()
            if deadline and now > deadline:
                state['truncated'] = True
                raise StopRun()
        elif now > state['shrink_until']:
            raise StopRun()
        state['index'] += 1
        try:
            msg = run_case(campaign, case, ctx)
        except HarnessError:
            raise
        if state['fail'] is None:
            stats.add(case, ctx)
        if msg is not None:
            size = len(canon(case))
            if state['fail'] is None:
                state['shrink_until'] = time.monotonic() + SHRINK_SECONDS
                if stop is not None:
                    stop.set()
            if state['fail'] is None or size <= state['fail'][0]:
                state['fail'] = (size, json.loads(json.dumps(case)), msg, state['index'])
            if msg.startswith('no result within'):
                raise StopRun()
            raise AssertionError('violation')

    test = hypothesis.given(campaign.strategy())(body)
    test = settings(max_examples=max(1, count), database=None, deadline=None,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    verbosity=Verbosity.quiet, print_blob=False,
                    phases=(Phase.generate, Phase.shrink))(test)
    test = seed(derive_seed(verif_seed, prop, campaign.name, worker))(test)
    try:
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null), contextlib.redirect_stderr(null):
            test()
    except StopRun:
        pass
    except HarnessError:
        raise
    except BaseException:
        if state['fail'] is None:
            raise
    return stats, state['fail'], state['truncated']


def limit_memory():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    lim = 6 << 30 if hard == resource.RLIM_INFINITY else min(6 << 30, hard)
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))


def _worker_main(module, prop, plan, verif_seed, worker, scratch, deadline, stop, out):
    limit_memory()
    random.seed(0)
    res = {'campaigns': {}, 'failure': None, 'error': None}
    try:
        os.makedirs(scratch, exist_ok=True)
        for camp, count in plan:
            if stop.is_set():
                break
            t0 = time.monotonic()
            stats, fail, trunc = run_shard(camp, prop, verif_seed, worker, count, scratch, deadline, stop)
            res['campaigns'][camp.name] = (stats, trunc, time.monotonic() - t0)
            if fail:
                res['failure'] = {'campaign': camp.name, 'case': fail[1], 'message': fail[2],
                                  'worker': worker, 'count': count, 'index': fail[3]}
                break
    except BaseException:
        res['error'] = traceback.format_exc()
    with open(out + '.tmp', 'wb') as o:
        pickle.dump(res, o)
    os.rename(out + '.tmp', out)


def make_scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    try:
        return os.path.realpath(tempfile.mkdtemp(prefix='oelintv-', dir=base))
    except OSError:
        return os.path.realpath(tempfile.mkdtemp(prefix='oelintv-'))


def replay_one(module, prop, entry, scratch):
    """run one saved case in this process, returns the violation text or None"""
    camp = {c.name: c for c in module.CAMPAIGNS}.get(entry['campaign'])
    if camp is None:
        raise HarnessError('unknown campaign %r' % entry['campaign'])
    if entry.get('history'):
        h = entry['history']
        _, fail, _ = run_shard(camp, prop, h['seed'], h['worker'], h['count'], scratch, None, None)
        return fail[2] if fail else None
    return run_case(camp, entry['case'], Ctx(scratch))


def isolated(func):
    """run func in a forked child, return its (picklable) result"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        limit_memory()
        try:
            out = ('ok', func())
        except BaseException:
            out = ('err', traceback.format_exc())
        try:
            with os.fdopen(w, 'wb') as o:
                pickle.dump(out, o)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as i:
        data = i.read()
    os.waitpid(pid, 0)
    if not data:
        raise HarnessError('child died')
    kind, val = pickle.loads(data)
    if kind == 'err':
        raise HarnessError(val)
    return val


def run_check(module, tier, verif_seed, only=None, scale=1.0, verbose=False):
    import multiprocessing
    t0 = time.monotonic()
    prop = module.ID
    scratch = make_scratch()
    violations = []
    known_lines = []
    truncated = False
    total = Stats()
    per = {}
    rc = 0
    try:
        # 1. saved inputs first: known findings, then the regression corpus
        knownf = load_known(prop)
        for entry in knownf:
            msg = isolated(lambda e=entry: replay_one(module, prop, e, os.path.join(scratch, 'k')))
            if msg is not None:
                known_lines.append('KNOWN-FINDING: property=%s %s' % (prop, entry['what']))
        corpus_n = 0
        cdir = os.path.join(VERIF, 'corpus', prop)
        for name in sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []:
            with open(os.path.join(cdir, name)) as i:
                entry = json.load(i)
            corpus_n += 1
            msg = isolated(lambda e=entry: replay_one(module, prop, e, os.path.join(scratch, 'k')))
            if msg is not None:
                violations.append((os.path.join(cdir, name), msg, entry))
        # 2. generated search
        if not violations:
            camps = [c for c in module.CAMPAIGNS if not only or c.name == only]
            limit = float(os.environ.get('VERIF_TIME_LIMIT', '420' if tier == 'quick' else '780'))
            deadline = time.monotonic() + limit
            mp = multiprocessing.get_context('fork')
            stop = mp.Event()
            procs = []
            for w in range(WORKERS):
                plan = []
                for c in camps:
                    n = int((c.quick if tier == 'quick' else c.thorough) * scale)
                    share = n // WORKERS + (1 if w < n % WORKERS else 0)
                    if share:
                        plan.append((c, share))
                out = os.path.join(scratch, 'res%d' % w)
                p = mp.Process(target=_worker_main, args=(module, prop, plan, verif_seed, w,
                                                          os.path.join(scratch, 's%d' % w), deadline, stop, out))
                p.start()
                procs.append((p, out))
            failures = []
            for p, out in procs:
                p.join()
                if not os.path.exists(out):
                    raise HarnessError('worker ended with code %r' % p.exitcode)
                with open(out, 'rb') as i:
                    res = pickle.load(i)
                if res['error']:
                    raise HarnessError(res['error'])
                for name, (stats, trunc, secs) in res['campaigns'].items():
                    total.merge(stats)
                    per.setdefault(name, [Stats(), 0.0])[0].merge(stats)
                    per[name][1] += secs
                    truncated |= trunc
                if res['failure']:
                    failures.append(res['failure'])
            if failures:
                f = min(failures, key=lambda x: len(canon(x['case'])))
                entry = {'property': prop, 'campaign': f['campaign'], 'case': f['case'],
                         'message': f['message'], 'seed': verif_seed}
                again = isolated(lambda: replay_one(module, prop, entry, os.path.join(scratch, 'k')))
                if again is None:
                    # depends on what ran before in the same process: replay the whole history
                    entry['history'] = {'seed': verif_seed, 'worker': f['worker'], 'count': f['count']}
                rdir = os.path.join(VERIF, 'replays', prop)
                os.makedirs(rdir, exist_ok=True)
                path = os.path.join(rdir, hashlib.sha1(canon(entry).encode()).hexdigest()[:12] + '.json')
                with open(path, 'w') as o:
                    json.dump(entry, o, indent=1, sort_keys=True)
                    o.write('\n')
                violations.append((path, again or f['message'], entry))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.monotonic() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': verif_seed, 'level': 'exploration',
        'coverage': {
            'evaluations': total.evaluations,
            'distinct': len(total.hashes),
            'distinct_nontrivial': len(total.nontrivial),
            'rule': module.RULE,
            'samples': total.samples[:4] or [v[2].get('case') for v in violations],
            'labels': dict(sorted(total.labels.items())),
            'campaigns': {k: {'evaluations': v[0].evaluations, 'distinct_nontrivial': len(v[0].nontrivial),
                              'worker_seconds': round(v[1], 1),
                              'labels': dict(sorted(v[0].labels.items()))} for k, v in per.items()},
            'truncated_by_time': truncated,
            'known_findings_replayed': len(known_lines),
            'corpus_replayed': corpus_n if 'corpus_n' in dir() else 0,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as o:
            json.dump(evidence, o, indent=1, sort_keys=True)
            o.write('\n')
    for line in known_lines:
        print(line)
    for path, msg, _ in violations:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  ' + msg.replace('\n', '\n  '))
        rc = 1
    print('%s %s: %d cases, %d distinct non-trivial, %.1f s%s' % (
        prop, tier, total.evaluations, len(total.nontrivial), wall, ' (truncated)' if truncated else ''))
    if verbose:
        print(json.dumps(evidence['coverage'], indent=1)[:8000])
    return rc


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as i:
        data = json.load(i)
    return [x for x in data.get('known', []) if x['property'] == prop]
