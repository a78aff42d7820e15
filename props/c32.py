"""C32: reservation of a graphics device."""
import contextlib
import os
import stat
import time

import torch
from hypothesis import strategies as st

from vf import cli
from vf.core import facet

RULE = ('A case is a machine (device identifiers, indices) and a schedule of other jobs taking and releasing devices at '
        'every step (device query, allocation, wait).  Non-trivial: at least two devices and one of them taken or '
        'released during the reservation.')
ASSUMPTIONS = ['nvidia-smi is replaced by a program on the PATH, the allocation on the device and the wait by stand-ins',
               'a device used by another job refuses the allocation (exclusive mode)', 'devices do not appear or vanish']

SMI = '''#!/bin/sh
d=$(dirname "$0")
case "$*" in
*query-gpu*uuid*index*) cat "$d/gpus" ;;
*query-compute-apps*) : > "$d/asked.$(ls "$d" | grep -c asked)"; cat "$d/active" ;;
*) echo "unknown query $*" >&2; exit 2 ;;
esac
'''
CREATORS = ['zeros', 'ones', 'empty', 'rand', 'randn', 'full', 'tensor', 'arange']


class Machine:
    '''Devices and other jobs.  A step happens at each query of the active devices, allocation and wait; before each
    of them the other jobs change the state as written in the schedule.'''

    def __init__(self, spec, ctx):
        self.ctx, self.dir = ctx, ctx.tmpdir()
        self.gpus = [(f'GPU-{g["id"]:08x}-{i}', g['index']) for i, g in enumerate(spec['gpus'])]
        self.schedule = [set(s) for s in spec['schedule']]
        self.busy, self.step, self.log = set(), 0, []
        self.apps, self.changes, self.error = spec['apps'], 0, spec['error']
        self.before = None if spec['before'] is None else spec['before'] % max(1, len(self.gpus))
        path = os.path.join(self.dir, 'nvidia-smi')
        with open(path, 'w') as f:
            f.write(SMI)
        os.chmod(path, stat.S_IRWXU)
        with open(os.path.join(self.dir, 'gpus'), 'w') as f:
            f.writelines(f'{u}, {i}\n' for u, i in self.gpus)
        self.asked = 0
        self.publish()

    def publish(self):
        'The state seen by the next query.'
        self.snapshot = {i for u, i in self.gpus if i in self.busy}
        with open(os.path.join(self.dir, 'active'), 'w') as f:
            for u, i in self.gpus:
                if i in self.busy:
                    f.write(f'{u}\n' * (1 + self.apps))

    def collect(self):
        'Queries made since the last step.'
        n = sum(x.startswith('asked') for x in os.listdir(self.dir))
        for _ in range(n - self.asked):
            self.log.append(('query', self.snapshot))
        self.asked = n

    def advance(self):
        self.collect()
        if self.step < len(self.schedule):
            new = {i for k, (_, i) in enumerate(self.gpus) if k in self.schedule[self.step]}
            self.changes += new != self.busy
            self.busy = new
        self.step += 1

    def allocate(self):
        'An allocation on the visible device.'
        self.advance()
        vis = os.environ.get('CUDA_VISIBLE_DEVICES', '')
        dev = int(vis) if vis.strip().isdigit() else None
        ok = dev in {i for _, i in self.gpus} and dev not in self.busy
        self.log.append(('allocate', dev, ok))
        self.publish()
        if not ok:
            # The ways torch refuses a device.
            error = {'runtime': RuntimeError, 'memory': torch.cuda.OutOfMemoryError, 'assertion': AssertionError,
                     'deferred': torch.cuda.DeferredCudaCallError}[self.error]
            raise error('CUDA error: all CUDA-capable devices are busy or unavailable')

    def sleep(self, seconds):
        self.advance()
        self.log.append(('wait', seconds))
        self.publish()

    @contextlib.contextmanager
    def running(self):
        keep = {n: getattr(torch, n) for n in CREATORS}
        real_sleep, env, cuda, to = time.sleep, dict(os.environ), torch.Tensor.cuda, torch.Tensor.to

        def creator(fn):
            def wrapped(*a, **k):
                dev = k.get('device')
                if dev is not None and torch.device(dev).type == 'cuda':
                    self.allocate()
                    k = dict(k, device='cpu')
                return fn(*a, **k)
            return wrapped

        def to_cuda(t, *a, **k):
            self.allocate()
            return t

        def moved(t, *a, **k):
            dev = k.get('device', a[0] if a else None)
            if isinstance(dev, (str, torch.device)) and torch.device(dev).type == 'cuda':
                self.allocate()
                return t
            return to(t, *a, **k)
        try:
            for n, f in keep.items():
                setattr(torch, n, creator(f))
            torch.Tensor.cuda, torch.Tensor.to = to_cuda, moved
            time.sleep = self.sleep
            os.environ['PATH'] = self.dir + os.pathsep + env['PATH']
            # The device of a former reservation, which may have failed, or one set by the user.
            os.environ.pop('CUDA_VISIBLE_DEVICES', None)
            if self.before is not None:
                os.environ['CUDA_VISIBLE_DEVICES'] = str(self.gpus[self.before][1] if self.gpus else self.before)
            yield
        finally:
            self.visible = os.environ.get('CUDA_VISIBLE_DEVICES')
            for n, f in keep.items():
                setattr(torch, n, f)
            torch.Tensor.cuda, torch.Tensor.to, time.sleep = cuda, to, real_sleep
            os.environ.clear()
            os.environ.update(env)
            self.collect()


@st.composite
def machines(draw):
    n = draw(st.sampled_from([2, 3, 4, 1, 5, 0]))
    index = draw(st.permutations(range(n)))
    shift = draw(st.sampled_from([0, 0, 3]))
    gpus = [{'id': draw(st.integers(0, 2**32 - 1)), 'index': i + shift} for i in index]
    everyone = list(range(n))
    # Each state of the schedule is the previous one with a few changes, or a full machine.
    state, schedule = set(draw(st.sampled_from([everyone, everyone, everyone[:1], []]))), []
    first = sorted(state)
    for op in draw(st.lists(st.sampled_from(['swap', 'keep', 'full', 'take', 'free', 'swap']), min_size=2, max_size=14)):
        k = draw(st.integers(0, max(0, n - 1)))
        if op == 'full':
            state = set(everyone)
        elif n and op == 'take':
            state = state | {k}
        elif n and op == 'free':
            state = state - {k}
        elif n and op == 'swap':
            state = set(everyone) - {k}
        schedule.append(sorted(state))
    return {'gpus': gpus, 'apps': draw(st.integers(0, 2)), 'first': first, 'schedule': schedule,
            'error': draw(st.sampled_from(['runtime', 'runtime', 'memory', 'assertion', 'deferred'])),
            'before': draw(st.sampled_from([None, None, 0, 1, 2])),
            'retry': draw(st.sampled_from([4, 2, 3, 1, 6, 0])), 'wait': draw(st.sampled_from([10, 1, 0.5])),
            'logger': draw(st.booleans())}


def machine(spec, ctx):
    m = Machine(spec, ctx)
    m.busy = {m.gpus[k][1] for k in spec['first']}
    m.publish()
    return m


def judge(ctx, m, spec, got, retry, wait):
    'The invariants over the history.'
    indices = {i for _, i in m.gpus}
    log = m.log
    good = [e[1] for e in log if e[0] == 'allocate' and e[2]]
    rounds = [i for i, e in enumerate(log) if e[0] == 'query']
    ctx.ensure(len(rounds) <= retry, lambda: f'{len(rounds)} attempts, at most {retry} were asked for')
    # Devices tried in each round.
    for r, i in enumerate(rounds):
        part = log[i:rounds[r + 1] if r + 1 < len(rounds) else len(log)]
        free = indices - part[0][1]
        tried = [e[1] for e in part if e[0] == 'allocate']
        ctx.ensure(set(tried) <= free, lambda: f'tried the devices {tried} while {sorted(part[0][1])} were in use')
        ctx.equal(len(set(tried)), len(tried), 'devices tried once per attempt')
        waited = sum(e[1] for e in part if e[0] == 'wait')
        last = r + 1 == len(rounds)
        if not (last and got is not None):
            ctx.equal(set(tried), free, 'free devices tried before waiting')
            if not last:
                ctx.ensure(abs(waited - wait) < 1e-9, lambda: f'waited {waited} s, not {wait} s, between two attempts')
        else:
            ctx.ensure(waited == 0, 'waits after having found a device')
    if got is None:
        ctx.label('no device')
        ctx.equal(good, [], 'devices allocated without being reported')
        ctx.equal(len(rounds), retry, 'number of attempts before giving up')
    else:
        ctx.label('reserved')
        ctx.label('after several attempts', len(rounds) > 1)
        ctx.label('grabbed by another job meanwhile', any(e[0] == 'allocate' and not e[2] for e in log))
        ctx.equal(good, [got], 'allocated and reported devices')
        ctx.equal(m.visible, str(got), 'visible device')
        ctx.ensure(got in indices, 'unknown device')
    ctx.label('device visible before', m.before is not None)
    ctx.nontrivial(len(indices) > 1 and m.changes > 0)


@facet(machines(), quick=1200, shards=4)
def reserve(spec, ctx):
    'Invariants of a reservation for any schedule of the other jobs.'
    import logging
    from beer import utils
    m = machine(spec, ctx)
    logger = logging.getLogger('c32') if spec['logger'] else None
    with m.running():
        try:
            got = utils.reserve_gpu(max_retry=spec['retry'], logger=logger, wait_time=spec['wait'])
        except utils.NoGPUAvailable:
            got = None
    judge(ctx, m, spec, got, spec['retry'], spec['wait'])


@facet(st.fixed_dictionaries({'machine': machines(), 'cmd': st.sampled_from(['shmm', 'hshmm'])}), quick=120, shards=2)
def command(spec, ctx):
    'Training on a device: reserves first, with the default number of attempts, and fails without output otherwise.'
    from beer import utils
    m = machine(spec['machine'], ctx)
    p = lambda n: os.path.join(m.dir, n)
    got = None
    with m.running():
        try:
            res = cli.beer(spec['cmd'], 'train', '--gpu', *map(p, ('gsm', 'posts', 'sploop', 'gsm2', 'posts2', 'sploop2')))
            ctx.fail('training without input files succeeds')
        except utils.NoGPUAvailable:
            pass
        except FileNotFoundError as e:
            ctx.ensure(str(e.filename).endswith('gsm'), f'{e}')
            alloc = [e for e in m.log if e[0] == 'allocate']
            got = alloc[-1][1] if alloc else -1
    ctx.equal(sorted(set(os.listdir(m.dir)) & {'gsm2', 'posts2', 'sploop2'}), [], 'outputs of a failed command')
    judge(ctx, m, spec['machine'], got, 12, 10)


@facet(machines(), quick=60)
def listing(spec, ctx):
    'Devices and devices in use, as listed by the driver.'
    from beer import utils
    m = machine(spec, ctx)
    ctx.nontrivial(len(m.gpus) > 1 and 0 < len(m.busy) < len(m.gpus))
    with m.running():
        gpus, active = utils.get_gpus(), utils.get_active_gpus()
    ctx.equal(gpus, dict(m.gpus), 'devices')
    ctx.equal(set(active), {u for u, i in m.gpus if i in m.busy}, 'devices in use')
