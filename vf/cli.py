"""Runs the command line and the recipe scripts inside the process."""
import contextlib
import io
import logging
import os
import runpy
import sys
import warnings

from .core import REPO

BEER = os.path.join(REPO, 'beer', 'cli', 'beer')
UTILS = os.path.join(REPO, 'recipes', 'aud', 'utils')


class Result:
    def __init__(self, out, code, err):
        self.out, self.code, self.err = out, code, err

    @property
    def lines(self):
        return self.out.split('\n')[:-1] if self.out.endswith('\n') else self.out.split('\n')


class Stdin(io.TextIOWrapper):
    def __init__(self, text):
        super().__init__(io.BytesIO(text.encode()), encoding='utf-8')


def run_script(path, argv, stdin='', isolated=()):
    '''Runs a script as a program.  The exit status is 0, the value of
    sys.exit, or the exception that ended it.'''
    out, err = io.TextIOWrapper(io.BytesIO(), encoding='utf-8'), io.StringIO()
    keep = sys.argv, sys.stdin, sys.path[:]
    for name in list(sys.modules):
        if any(name == p or name.startswith(p + '.') for p in isolated):
            del sys.modules[name]
    root = logging.getLogger()
    handlers, level = root.handlers[:], root.level
    root.handlers[:] = [logging.StreamHandler(err)]
    code = 0
    try:
        sys.argv = [path] + [str(a) for a in argv]
        sys.stdin = Stdin(stdin)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            try:
                runpy.run_path(path, run_name='__main__')
            except SystemExit as e:
                code = e.code if e.code is not None else 0
            out.flush()
    finally:
        sys.argv, sys.stdin = keep[0], keep[1]
        sys.path[:] = keep[2]
        root.handlers[:] = handlers
        root.setLevel(level)
    return Result(out.buffer.getvalue().decode(), code, err.getvalue())


def beer(*argv, stdin=''):
    'The beer command, every module of the command line loaded afresh.'
    return run_script(BEER, argv, stdin, isolated=('beer.cli.subcommands',))


def ok(ctx, *argv, stdin=''):
    'The command succeeds.'
    res = beer(*argv, stdin=stdin)
    ctx.ensure(res.code == 0, lambda: f'{" ".join(map(str, argv[:2]))}: exit status {res.code}: {res.err[-300:]}')
    return res


def util(name, *argv, stdin=''):
    'One of the scripts of recipes/aud/utils.'
    return run_script(os.path.join(UTILS, name), argv, stdin)
