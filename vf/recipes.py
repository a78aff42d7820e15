'''Runs the shell scripts of the recipes in a scratch directory, as an
unprivileged user, with stand-ins for the cluster and for "beer".'''
import json
import os
import shutil
import signal
import subprocess
import sys

from .core import REPO

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'standins')
PYTHON = os.path.realpath(sys.executable)
NOBODY = 65534
TIMEOUT = 120


class Recipe:
    def __init__(self, ctx, name='aud', recipe='aud'):
        self.ctx = ctx
        top = ctx.tmpdir()
        # The user of the scripts has to reach the scratch directory.
        d = top
        while os.path.basename(d).startswith(('vf', 't')) and d != '/tmp':
            if os.stat(d).st_uid == os.getuid():
                os.chmod(d, 0o711)
            d = os.path.dirname(d)
        self.root = os.path.join(os.path.realpath(top), name)
        self.state = os.path.join(self.root, 'state')
        os.makedirs(self.state)
        src = os.path.join(REPO, 'recipes', recipe)
        for sub in ('steps', 'utils'):
            if os.path.isdir(os.path.join(src, sub)):
                shutil.copytree(os.path.join(src, sub), os.path.join(self.root, sub))
        self.write('path.sh', '')
        for tool in ('beer', 'qsub', 'rm'):
            with open(os.path.join(HERE, tool)) as f:
                self.write('bin/' + tool, f'#!{PYTHON} -IS\n' + f.read(), 0o755)
        os.symlink(PYTHON, os.path.join(self.root, 'bin', 'python'))

    def path(self, name):
        return os.path.join(self.root, name)

    def write(self, name, text, mode=0o644):
        os.makedirs(os.path.dirname(self.path(name)), exist_ok=True)
        data = text if isinstance(text, bytes) else text.encode()
        with open(self.path(name), 'wb') as f:
            f.write(data)
        os.chmod(self.path(name), mode)

    def exists(self, name):
        return os.path.exists(self.path(name))

    def read(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def json(self, name):
        return json.loads(self.read(name))

    def lines(self, name):
        return [line for line in self.read(name).split('\n') if line]

    def files(self, name='.'):
        'All the files below a directory with their content and date.'
        out = {}
        for d, _, names in os.walk(self.path(name)):
            for n in names:
                p = os.path.join(d, n)
                if os.path.isfile(p):
                    with open(p, 'rb') as f:
                        out[os.path.relpath(p, self.root)] = (f.read(), os.stat(p).st_mtime_ns)
        return out

    def give(self, uid):
        for d, _, names in os.walk(self.root):
            os.chown(d, uid, uid)
            for n in names:
                os.chown(os.path.join(d, n), uid, uid, follow_symlinks=False)

    def run(self, *cmd, fault=None, order=0, together=False, noise=False, count=False, env=None):
        '''Runs a script.  Sets "calls", the calls to "beer", and "fired",
        whether the fault occured; returns the exit status.'''
        for name in ('calls', 'fired'):
            if self.exists('state/' + name):
                os.remove(self.path('state/' + name))
        full = {
            'PATH': self.path('bin') + ':/usr/local/bin:/usr/bin:/bin', 'HOME': self.root, 'LC_ALL': 'C.UTF-8',
            'VF_ROOT': self.root, 'VF_STATE': self.state, 'VF_HARNESS_SESSION': str(os.getsid(0)),
            'VF_ORDER': str(order), 'TMPDIR': self.state,
        }
        if fault:
            full['VF_FAULT'] = json.dumps(fault)
        for key, on in (('VF_TOGETHER', together), ('VF_NOISE', noise), ('VF_COUNT', count)):
            if on:
                full[key] = '1'
        full.update(env or {})
        who = {}
        if os.getuid() == 0:
            try:
                self.give(NOBODY)
                who = dict(user=NOBODY, group=NOBODY, extra_groups=[])
            except OSError:
                who = {}
        with open(os.path.join(os.path.dirname(self.root), os.path.basename(self.root) + '.out'), 'wb') as out:
            def launch(who):
                return subprocess.Popen(['bash'] + [str(c) for c in cmd], cwd=self.root, env=full, stdin=subprocess.DEVNULL,
                                        stdout=out, stderr=out, start_new_session=True, **who)
            try:
                proc = launch(who)
            except PermissionError:
                proc = launch({})
            try:
                code = proc.wait(TIMEOUT)
            except subprocess.TimeoutExpired:
                code = 'timeout'
            # Nothing outlives the script.
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            proc.wait()
        if self.exists('state/refused'):
            self.ctx.fail('a script removes files outside its directory: ' + self.read('state/refused'))
        if code == 'timeout':
            self.ctx.fail(f'{cmd[0]} is still running after {TIMEOUT} s')
        self.fired = self.exists('state/fired')
        self.calls = self.lines('state/calls') if self.exists('state/calls') else []
        return code

    def out(self):
        with open(self.root + '.out', errors='replace') as f:
            return f.read()
