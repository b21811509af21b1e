"""Shared plumbing for all checks: verdicts, evidence, scratch space, runs."""
import atexit
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from . import build

VERIF = build.VERIF
REPO = build.REPO
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
CLANG = build.LLVM + '/bin/clang'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
SCALE = float(os.environ.get('VERIF_SCALE', '1'))

_scratch = None


def scratch():
    """Scratch directory of this process, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='vf-')
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


_dir_lock = threading.Lock()
_dir_count = 0


def newdir(name='d'):
    global _dir_count
    with _dir_lock:
        _dir_count += 1
        n = _dir_count
    d = os.path.join(scratch(), '%s%05d' % (name, n))
    os.makedirs(d)
    return d


def write_tree(root, files):
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        mode = 'wb'
        data = text if isinstance(text, bytes) else text.encode('utf-8')
        with open(p, mode) as f:
            f.write(data)


def rmtree(d):
    if not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(d, True)


class Result(object):
    __slots__ = ('rc', 'out', 'err', 'timeout', 'cmd', 'cwd', 'raw_out')

    def __init__(self, rc, out, err, timeout, cmd, cwd):
        self.rc, self.out, self.err = rc, out, err
        self.timeout, self.cmd, self.cwd = timeout, cmd, cwd

    @property
    def text(self):
        return self.out + self.err

    @property
    def crashed(self):
        return self.rc is not None and (self.rc < 0 or self.rc >= 128)


def _decode(b):
    return b.decode('utf-8', errors='surrogateescape')


def run(cmd, cwd=None, stdin=None, timeout=60, env=None, retry=True):
    """Run a command; a time-out is retried once with four times the limit."""
    e = dict(os.environ)
    for k in ('CPATH', 'C_INCLUDE_PATH', 'CPLUS_INCLUDE_PATH', 'LANG',
              'IWYU_BINARY', 'CCC_OVERRIDE_OPTIONS'):
        e.pop(k, None)
    e['LC_ALL'] = 'C.UTF-8'
    if env:
        e.update(env)
    if isinstance(stdin, str):
        stdin = stdin.encode('utf-8', errors='surrogateescape')
    for attempt, limit in enumerate((timeout, timeout * 4)):
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE
                             if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             start_new_session=True)
        try:
            out, err = p.communicate(stdin, timeout=limit)
            return Result(p.returncode, _decode(out), _decode(err), False,
                          cmd, cwd)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            out, err = p.communicate()
            if attempt or not retry:
                return Result(None, _decode(out), _decode(err), True, cmd, cwd)


# Seconds after which no further case is started: in general, and once a
# violation has been found.
BUDGET = (400, 60) if TIER == 'quick' else (4 * 3600, 1800)
_start = time.time()
_found = [0]
skipped = [0]


def late():
    return time.time() - _start > BUDGET[1 if _found[0] else 0]


def pmap(fn, items, jobs=None, keep=False):
    """Parallel map over threads (the work is in subprocesses).  Cases that
    do not fit in the time budget are left out (or give None)."""
    items = list(items)

    def one(x):
        if late():
            skipped[0] += 1
            return one
        return fn(x)
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        res = list(ex.map(one, items))
    if keep:
        return [None if x is one else x for x in res]
    return [x for x in res if x is not one]


def rng(*parts):
    """Deterministic generator for this seed and the given labels."""
    h = hashlib.sha256(repr((SEED,) + parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


def n_cases(quick, thorough):
    return max(1, int((quick if TIER == 'quick' else thorough) * SCALE))


class Check(object):
    """Collects observations and delivers the verdict of one property."""

    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.counters = {}
        self.violations = []     # (key, detail, replay)
        self.inconclusive = []
        self.lock = threading.Lock()
        self.assumptions = []
        self.known, self.known_seen = self._load_known(), set()
        self.level = 'exploration'

    def _load_known(self):
        """Lines: finding: property=<id> key=<key> <text>"""
        res = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r'finding: property=(\S+) key=(\S+)\s+(.*)$',
                             line.strip())
                if m and m.group(1) == self.pid:
                    res[m.group(2)] = m.group(3)
        return res

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def case(self, key=None, sample=None):
        """One evaluated case; key (hashable text) if it is non-trivial."""
        with self.lock:
            self.evaluations += 1
            if key is not None:
                self.nontrivial.add(hashlib.sha1(
                    repr(key).encode()).digest()[:10])
                if sample is not None and len(self.samples) < 3:
                    self.samples.append(sample)

    def maybe(self, what):
        with self.lock:
            self.inconclusive.append(what)

    def violation(self, key, detail, tree=None, files=None, cmd=None):
        """Report a violation.  key identifies the failing input for
        known-finding matching; tree is a directory copied into the replay."""
        with self.lock:
            if key in self.known:
                if key not in self.known_seen:
                    self.known_seen.add(key)
                return
            n = len(self.violations)
            self.violations.append((key, detail))
            _found[0] += 1
        if n >= 12:
            return
        rd = os.path.join(VERIF, 'evidence', 'replay',
                          '%s-%d' % (self.pid, n + 1))
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        with open(os.path.join(rd, 'what.txt'), 'w',
                  errors='surrogateescape') as f:
            f.write('property %s seed %d tier %s\nkey: %s\n\n%s\n' % (
                self.pid, SEED, TIER, key, detail))
            if cmd:
                f.write('\ncommand: %s\n' % (cmd if isinstance(cmd, str) else
                                             ' '.join(map(str, cmd))))
        if tree and os.path.isdir(tree):
            shutil.copytree(tree, os.path.join(rd, 'tree'), symlinks=True)
        if files:
            write_tree(rd, files)
        print('VIOLATION property=%s replay=%s' % (self.pid, rd))
        print('  key: %s' % key)
        for l in str(detail).splitlines()[:25]:
            print('  | ' + l.encode('utf-8', 'replace').decode())
        sys.stdout.flush()

    def finish(self, **extra):
        cov = {'evaluations': self.evaluations,
               'distinct_nontrivial': len(self.nontrivial),
               'rule': self.rule, 'samples': self.samples or ['(none)'],
               'observed': self.counters,
               'inconclusive': self.inconclusive[:20],
               'inconclusive_count': len(self.inconclusive)}
        if skipped[0]:
            cov['skipped_for_time'] = skipped[0]
        cov.update(extra)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        for k in sorted(self.known_seen):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[k]))
        print('%s: %d evaluations, %d distinct non-trivial, %d violations, '
              '%d inconclusive, %.1fs' % (
                  self.pid, self.evaluations, len(self.nontrivial),
                  len(self.violations), len(self.inconclusive),
                  time.time() - self.t0))
        print('  observed: ' + ', '.join(
            '%s=%s' % kv for kv in sorted(self.counters.items())))
        if self.violations:
            sys.stdout.flush()
            os._exit(_exit(1))
        if self.evaluations == 0 or not self.nontrivial:
            print('error: the check observed nothing')
            os._exit(_exit(2))
        if len(self.inconclusive) > max(5, self.evaluations // 10):
            print('error: too many inconclusive cases: %s'
                  % self.inconclusive[:3])
            os._exit(_exit(2))
        sys.stdout.flush()
        os._exit(_exit(0))


def _exit(code):
    if _scratch and not os.environ.get('VERIF_KEEP'):
        shutil.rmtree(_scratch, True)
    sys.stdout.flush()
    sys.stderr.flush()
    return code


def main(fn):
    """Run a check; anything unexpected is an error exit, not a verdict."""
    try:
        fn()
    except SystemExit:
        raise
    except build.BuildError as e:
        print('BUILD ERROR: %s' % e)
        os._exit(_exit(3))
    except BaseException:
        traceback.print_exc()
        os._exit(_exit(4))
