"""Runner: generated cases, shrinking, replay files, evidence.

A property module (props/cNN.py) registers *facets*.  A facet is a Hypothesis
strategy producing a JSON-able case and a function judging the case against an
explicit oracle.  Every random choice comes from the strategy (bulk numbers are
expanded from drawn integers), so a case is replayed from its JSON alone.
"""
import argparse
import hashlib
import importlib
import json
import math
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CASE_CPU_SECONDS = 100      # CPU time of one case; typical cases take < 1 s
SHRINK_CALLS = 250
SHRINK_CPU_SECONDS = 40
WORKERS = 8


def cpu_time():
    'CPU time of this process and of the programs it has run.'
    return sum(os.times()[:4])


class Violation(Exception):
    'The property does not hold on this case.'


class Known(Exception):
    'The case shows a defect listed in the known-findings file.'


class Skip(Exception):
    'The case is outside the domain (counted, never silently).'


class CaseTimeout(Exception):
    'The case used an absurd amount of CPU time.'


class StopShrink(BaseException):
    pass


class HarnessError(Exception):
    pass


FACETS = []


class Facet:
    def __init__(self, name, strategy, check, quick, thorough, shards, examples, doc):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.examples = examples
        self.doc = doc


# Checks which spend their time in commands and trained models: the quick
# tier of every other check generates twice the cases its facets say.
SLOW = {'C07', 'C08', 'C12', 'C17', 'C22', 'C23', 'C24', 'C25', 'C29', 'C31',
        'C32', 'C33', 'C34', 'C36'}


def facet(strategy, quick=200, thorough=None, shards=None, examples=()):
    'Registers the decorated function check(spec, ctx).'
    def wrap(fn):
        FACETS.append(Facet(fn.__name__, strategy, fn, quick,
                            thorough if thorough is not None else quick * 12,
                            shards, list(examples), (fn.__doc__ or '').strip()))
        return fn
    return wrap


# ----------------------------------------------------------------------
# Context given to the checks.

def _np(x):
    import numpy as np
    import torch
    if isinstance(x, torch.Tensor):
        x = x.detach().cpu()
        if x.dtype in (torch.float16, torch.bfloat16):
            x = x.float()
        return x.numpy()
    return np.asarray(x)


class Ctx:
    def __init__(self, listed):
        self.labels = {}
        self.is_nontrivial = False
        self.listed = listed
        self._tmp = None

    # -- bookkeeping ----------------------------------------------------
    def label(self, name, cond=True):
        if cond:
            self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def tmpdir(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='vfcase-')
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # -- verdicts -------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def ensure(self, cond, msg):
        if not bool(cond):
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, got, want, msg):
        if not got == want:
            raise Violation(f'{msg}: got {_short(got)}, expected {_short(want)}')

    def allclose(self, got, want, msg, rtol=1e-6, atol=1e-8, scale=None):
        '''|got - want| <= atol + rtol * max(|want|, scale); same shape;
        equal infinities are equal, NaN equals nothing.'''
        import numpy as np
        got, want = _np(got), _np(want)
        if got.shape != want.shape:
            raise Violation(f'{msg}: shape {got.shape}, expected {want.shape}')
        if got.dtype == object or want.dtype == object:
            raise Violation(f'{msg}: not numeric')
        got, want = got.astype(np.float64), want.astype(np.float64)
        mag = np.abs(want)
        if scale is not None:
            mag = np.maximum(mag, scale)
        with np.errstate(invalid='ignore', over='ignore'):
            bad = ~(np.abs(got - want) <= atol + rtol * mag)
            bad &= ~((got == want))
        if bad.any():
            i = tuple(int(k) for k in np.argwhere(bad)[0])
            raise Violation(f'{msg}: at {i} got {got[i]!r}, expected {want[i]!r} '
                            f'({int(bad.sum())}/{bad.size} entries differ)')

    def raises(self, exc, fn, msg):
        try:
            fn()
        except exc as err:
            return err
        except Exception as err:
            raise Violation(f'{msg}: raised {type(err).__name__}: {err}')
        raise Violation(f'{msg}: no error raised')

    def finding(self, fid, msg):
        'The case fails exactly as described by the known finding `fid`.'
        if fid in self.listed:
            raise Known(fid)
        raise Violation(f'[{fid}] {msg}')


def _short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ----------------------------------------------------------------------
# Known findings: lines "known: property=Cxx id=<id> <text>"
#                       "fixed: property=Cxx <commit> <text>"

def known_findings(prop):
    out = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if not os.path.exists(path):
        return out
    with open(path) as f:
        for line in f:
            tok = line.strip().split(None, 3)
            if len(tok) == 4 and tok[0] == 'known:' and tok[1] == f'property={prop}':
                out[tok[2].split('=', 1)[1]] = tok[3]
    return out


# ----------------------------------------------------------------------
# One case.

def spec_hash(name, spec):
    data = json.dumps([name, spec], sort_keys=True)
    return hashlib.blake2b(data.encode(), digest_size=8).digest()


def reset_state(spec):
    import numpy as np
    import torch
    n = int.from_bytes(spec_hash('', spec)[:4], 'little')
    torch.manual_seed(n)
    np.random.seed(n)
    random.seed(n)
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    if 'vf.mods' in sys.modules:
        from vf import mods
        mods.GIVEN.clear()


def _on_timer(signum, frame):
    raise CaseTimeout()


def run_case(fac, spec, listed):
    '''Returns (status, message, ctx); status in ok/violation/known/skip.'''
    import warnings
    ctx = Ctx(listed)
    cwd = os.getcwd()
    argv, stdin, stdout, path = sys.argv, sys.stdin, sys.stdout, list(sys.path)
    reset_state(spec)
    signal.signal(signal.SIGVTALRM, _on_timer)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_SECONDS)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                fac.check(spec, ctx)
                if 'vf.mods' in sys.modules:
                    from vf import mods
                    try:
                        mods.check_given()
                    except AssertionError as err:
                        raise Violation(str(err))
                res = ('ok', '')
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Violation as err:
        res = ('violation', str(err))
    except Known as err:
        res = ('known', str(err))
    except Skip as err:
        res = ('skip', str(err))
    except CaseTimeout:
        res = ('timeout', f'the case does not terminate ({CASE_CPU_SECONDS} s of CPU time)')
    except (MemoryError, HarnessError):
        raise
    except OSError as err:
        if err.errno in (12, 23, 24, 28, 30, 122):   # resources of the sandbox
            raise
        res = ('violation', _describe(err))
    except SystemExit as err:
        res = ('violation', f'unexpected exit: {err.code!r}')
    except Exception as err:
        res = ('violation', _describe(err))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        os.chdir(cwd)
        sys.argv, sys.stdin, sys.stdout = argv, stdin, stdout
        sys.path[:] = path
        ctx.close()
    return res[0], res[1], ctx


def _describe(err):
    tb = traceback.extract_tb(err.__traceback__)
    where = ''
    for fr in reversed(tb):
        if fr.filename.startswith(REPO):
            where = f' at {os.path.relpath(fr.filename, REPO)}:{fr.lineno}'
            break
    else:
        if tb:
            where = f' at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}'
    return f'unexpected {type(err).__name__}: {_short(str(err))}{where}'


# ----------------------------------------------------------------------
# One shard of a facet, in its own process.

def run_shard(fac, shard, ncases, seed, listed, with_examples):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    out = {'facet': fac.name, 'evaluations': 0, 'skipped': 0, 'labels': {},
           'hashes': set(), 'nontrivial': 0, 'samples': [], 'known': {},
           'violation': None, 'error': None}
    best = {}
    t_fail = [None]
    calls_after = [0]

    def one(spec):
        failing = bool(best)
        if failing:
            calls_after[0] += 1
            if (calls_after[0] > SHRINK_CALLS or
                    cpu_time() - t_fail[0] > SHRINK_CPU_SECONDS):
                raise StopShrink()
        status, msg, ctx = run_case(fac, spec, listed)
        if not failing:
            out['evaluations'] += 1
            if status == 'skip':
                out['skipped'] += 1
                out['labels']['skip: ' + msg] = out['labels'].get('skip: ' + msg, 0) + 1
            for k, v in ctx.labels.items():
                out['labels'][k] = out['labels'].get(k, 0) + 1
            if ctx.is_nontrivial and status != 'skip':
                h = spec_hash(fac.name, spec)
                if h not in out['hashes']:
                    out['hashes'].add(h)
                    if len(out['samples']) < 3 and len(out['hashes']) % 7 == 1:
                        out['samples'].append(spec)
        if status == 'known':
            out['known'][msg] = out['known'].get(msg, 0) + 1
        if status in ('violation', 'timeout'):
            size = len(json.dumps(spec))
            if not best or size <= best['size']:
                best.update(size=size, spec=spec, message=msg)
            if t_fail[0] is None:
                t_fail[0] = cpu_time()
            if status == 'timeout':
                raise StopShrink()
            raise Violation(msg)

    try:
        if with_examples:
            for spec in fac.examples:
                one(spec)
        if ncases > 0:
            n = int.from_bytes(hashlib.sha256(
                f'{seed}/{fac.name}/{shard}'.encode()).digest()[:8], 'little')
            runner = given(fac.strategy)(one)
            runner = settings(
                max_examples=ncases, database=None, deadline=None, print_blob=False,
                report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
                suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                                       HealthCheck.large_base_example])(runner)
            runner = hypothesis.seed(n)(runner)
            runner()
    except (StopShrink, Violation):
        pass
    except BaseException as err:
        if not best:
            out['error'] = f'{fac.name}: ' + ''.join(
                traceback.format_exception(type(err), err, err.__traceback__))[-3000:]
    if best:
        out['violation'] = {'spec': best['spec'], 'message': best['message']}
    return out


def _child(task, path, seed, listed):
    fac, shard, n, ex = task
    try:
        devnull = os.open(os.devnull, os.O_RDONLY)
        os.dup2(devnull, 0)
        # Output of the code under test must not reach the output of the check.
        log = os.open(path + '.log', os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(log, 1)
        os.dup2(log, 2)
        sys.stdout = os.fdopen(1, 'w')
        sys.stderr = os.fdopen(2, 'w')
        os.chdir(os.path.dirname(path))
        tempfile.tempdir = os.path.dirname(path)
        t0 = time.time()
        out = run_shard(fac, shard, n, seed, listed, ex)
        out['wall'] = time.time() - t0
        with open(path + '.tmp', 'wb') as f:
            pickle.dump(out, f)
        os.rename(path + '.tmp', path)
        os._exit(0)
    except BaseException:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(9)


def run_tasks(tasks, seed, listed, budget):
    scratch = tempfile.mkdtemp(prefix='vf-')
    results, errors, inconclusive = [], [], 0
    running = {}
    queue = list(enumerate(tasks))
    deadline = time.time() + budget
    stop = False
    try:
        while queue or running:
            while queue and len(running) < WORKERS and not stop:
                i, task = queue.pop(0)
                d = os.path.join(scratch, f't{i}')
                os.mkdir(d)
                path = os.path.join(d, 'result')
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    _child(task, path, seed, listed)
                running[pid] = (task, path, d)
            if stop:
                queue = []
            if not running:
                break
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid in running:
                task, path, d = running.pop(pid)
                if os.path.exists(path):
                    with open(path, 'rb') as f:
                        res = pickle.load(f)
                    results.append(res)
                    if res['error']:
                        errors.append(res['error'])
                    if res['violation']:
                        stop = True
                        deadline = min(deadline, time.time() + 20)
                else:
                    tail = ''
                    if os.path.exists(path + '.log'):
                        with open(path + '.log', errors='replace') as f:
                            tail = f.read()[-1500:]
                    errors.append(f'worker of {task[0].name} ended with status {st}: {tail}')
                shutil.rmtree(d, ignore_errors=True)
                continue
            if time.time() > deadline:
                for p in list(running):
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    inconclusive += 1
                inconclusive += len(queue)
                break
            time.sleep(0.02)
    finally:
        for p in list(running):
            try:
                os.kill(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
    return results, errors, inconclusive


# ----------------------------------------------------------------------

def load(prop):
    FACETS.clear()
    mod = importlib.import_module('props.' + prop.lower())
    return mod, [f for f in FACETS if f.check.__module__ == mod.__name__]


def prepare():
    import numpy                 # noqa: F401
    import torch
    torch.set_num_threads(1)
    sys.path[:] = [p for p in sys.path if p]
    import beer
    where = os.path.realpath(beer.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f'beer imported from {where}')


def replay(path):
    with open(path) as f:
        rec = json.load(f)
    prepare()
    _, facets = load(rec['property'])
    fac = {f.name: f for f in facets}[rec['facet']]
    scratch = tempfile.mkdtemp(prefix='vf-')
    os.chdir(scratch)
    out = sys.stdout
    try:
        status, msg, _ = run_case(fac, rec['spec'], known_findings(rec['property']))
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout = out
    print(f'{rec["property"]}/{rec["facet"]}: {status} {msg}')
    if status in ('violation', 'timeout'):
        print(f'VIOLATION property={rec["property"]} replay={path}')
        return 1
    return 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--replay')
    ap.add_argument('--facet')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args(argv)
    if args.replay:
        return replay(args.replay)
    if args.selftest:
        prepare()
        import hypothesis
        print('ready: hypothesis', hypothesis.__version__)
        return 0
    seed = args.seed
    if seed is None:
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    prop = args.property.upper()
    t0 = time.time()
    try:
        prepare()
        mod, facets = load(prop)
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={prop}: the tree under test or the harness cannot be loaded')
        return 3
    if args.facet:
        facets = [f for f in facets if f.name == args.facet]
    findings = known_findings(prop)
    tasks = []
    for fac in facets:
        n = fac.quick * (1 if prop in SLOW else 2) if tier == 'quick' else fac.thorough
        n = int(math.ceil(n * args.scale))
        shards = fac.shards or max(1, min(4, n // 60))
        if tier == 'thorough':
            shards = max(shards, min(16, max(1, n // 60)))
        per = [n // shards + (1 if i < n % shards else 0) for i in range(shards)]
        for i, k in enumerate(per):
            tasks.append((fac, i, k, i == 0))
    # Interleave the facets: the first shards of every facet first.
    tasks.sort(key=lambda t: t[1])
    budget = 800 if tier == 'quick' else 3 * 3600
    results, errors, inconclusive = run_tasks(tasks, seed, set(findings), budget)

    evaluations = sum(r['evaluations'] for r in results)
    hashes = set().union(*[r['hashes'] for r in results]) if results else set()
    per_facet, samples, known = {}, [], {}
    for r in results:
        pf = per_facet.setdefault(r['facet'], {'evaluations': 0, 'distinct_nontrivial': 0,
                                               'skipped': 0, 'labels': {}, '_h': set(),
                                               'worker_s': 0.})
        pf['evaluations'] += r['evaluations']
        pf['skipped'] += r['skipped']
        pf['_h'] |= r['hashes']
        pf['worker_s'] += r.get('wall', 0)
        for k, v in r['labels'].items():
            pf['labels'][k] = pf['labels'].get(k, 0) + v
        if len([s for s in samples if s['facet'] == r['facet']]) < 2:
            samples += [{'facet': r['facet'], 'case': s} for s in r['samples'][:1]]
        for k, v in r['known'].items():
            known[k] = known.get(k, 0) + v
    for pf in per_facet.values():
        pf['distinct_nontrivial'] = len(pf.pop('_h'))
        pf['worker_s'] = round(pf['worker_s'], 2)

    violations = [r for r in results if r['violation']]
    replays = []
    if not args.facet or violations:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    for r in violations:
        d = os.path.join(HERE, 'evidence', 'replays')
        os.makedirs(d, exist_ok=True)
        v = r['violation']
        tag = spec_hash(r['facet'], v['spec']).hex()[:8]
        path = os.path.join(d, f'{prop}-{r["facet"]}-{tag}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'facet': r['facet'], 'message': v['message'],
                       'spec': v['spec']}, f, indent=1)
        replays.append((path, r['facet'], v['message']))

    if not args.facet:
        rule = getattr(mod, 'RULE', '')
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
            'coverage': {
                'evaluations': evaluations,
                'distinct_nontrivial': len(hashes),
                'rule': rule,
                'samples': samples,
                'facets': per_facet,
                'inconclusive_shards': inconclusive,
                'known_findings_hit': known,
            },
            'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
            'wall_s': round(time.time() - t0, 2),
            'violations': len(violations),
        }
        tmp = os.path.join(HERE, 'evidence', prop + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))

    if args.v:
        for name, pf in per_facet.items():
            print(f'  {name}: {pf["evaluations"]} cases, {pf["distinct_nontrivial"]} non-trivial, '
                  f'{pf["worker_s"]:.1f} s')
            for k, v in sorted(pf['labels'].items()):
                print(f'      {k}: {v}')
    for fid in sorted(known):
        print(f'KNOWN-FINDING: property={prop} {findings[fid]}')
    print(f'{prop} {tier} seed={seed}: {evaluations} cases, {len(hashes)} distinct non-trivial, '
          f'{time.time() - t0:.1f} s')
    if replays:
        for path, name, msg in replays:
            print(f'{prop}/{name}: {msg}')
        print(f'VIOLATION property={prop} replay={replays[0][0]}')
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 3
    return 0
