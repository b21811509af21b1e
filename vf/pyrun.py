"""Runs the repository's Python tools in-process inside worker processes."""
import contextlib
import importlib.util
import io
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import traceback

from . import core

_modules = {}


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def module(path):
    """The tool as a module, loaded afresh once per worker process."""
    if path not in _modules:
        sys.dont_write_bytecode = True
        name = 'vf_tool_' + re.sub(r'\W', '_', os.path.basename(path))
        spec = importlib.util.spec_from_file_location(name, path)
        m = importlib.util.module_from_spec(spec)
        sys.modules[name] = m
        d = os.path.dirname(path)
        if d not in sys.path:
            sys.path.append(d)
        spec.loader.exec_module(m)
        _modules[path] = m
    return _modules[path]


class Run(object):
    """rc, out, err; error is the traceback text of an uncaught exception,
    or 'hang'."""
    __slots__ = ('rc', 'out', 'err', 'error')

    @property
    def text(self):
        return self.out + self.err


def call(path, argv, stdin='', cwd=None, limit=30, fn=None):
    """Run the main function of a Python tool of the repository."""
    r = Run()
    r.rc, r.error = None, None
    out, err = io.StringIO(), io.StringIO()
    old_in, old_cwd = sys.stdin, os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        try:
            if cwd:
                os.chdir(cwd)
            m = module(path)
            sys.stdin = io.StringIO(stdin)
            with contextlib.redirect_stdout(out), \
                    contextlib.redirect_stderr(err):
                r.rc = (fn or m.main)([path] + list(argv))
        except SystemExit as e:
            r.rc = e.code if isinstance(e.code, int) else (
                0 if e.code is None else 1)
            if isinstance(e.code, str):
                err.write(e.code + '\n')
        except Hang:
            r.error = 'hang'
        except Exception:
            r.error = traceback.format_exc()
    finally:
        signal.alarm(0)
        sys.stdin = old_in
        os.chdir(old_cwd)
    r.out, r.err = out.getvalue(), err.getvalue()
    return r


def pmap(fn, items, chunk=8):
    """Parallel map over worker processes (fn must be a module function)."""
    items = list(items)
    core.scratch()
    with mp.get_context('fork').Pool(core.JOBS) as pool:
        return pool.map(fn, items, chunk)


def workdir(tag):
    d = os.path.join(core.scratch(), 'p%d-%s' % (os.getpid(), tag))
    os.makedirs(d, exist_ok=True)
    return d
