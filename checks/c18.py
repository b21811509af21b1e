#!/usr/bin/env python3
"""C18: whatever it is given, the tool ends normally."""
import os
import re
import resource
import shutil
import sys

import _path  # noqa: F401
from vf import build, core, hostile

ENV = {'ASAN_OPTIONS': 'detect_leaks=0:detect_container_overflow=0:'
                       'symbolize=1:abort_on_error=0:exitcode=99:'
                       'allocator_may_return_null=1:quarantine_size_mb=16',
       'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
       'LLVM_SYMBOLIZER_PATH': build.LLVM + '/bin/llvm-symbolizer',
       'ASAN_SYMBOLIZER_PATH': build.LLVM + '/bin/llvm-symbolizer'}
BAD = re.compile(r'ERROR: AddressSanitizer|runtime error: |'
                 r'AddressSanitizer:DEADLYSIGNAL|Assertion failed|Assertion .* failed|'
                 r'PLEASE submit a bug report|UNREACHABLE executed|'
                 r'terminate called|LLVM ERROR')
LIMIT = 25


def env(d):
    return dict(ENV, HOME=d, TMPDIR=d)


def clang(args, d):
    """The compiler alone on the same input: (crashed, timed out)."""
    cmd, skip = [core.CLANG, '-fsyntax-only'], False
    for i, a in enumerate(args):
        if skip:
            skip = False
        elif a == '-Xiwyu':
            skip = True
        else:
            cmd.append(a)
    for _ in range(4):
        res = core.run(cmd, cwd=d, timeout=LIMIT, env=env(d), retry=False)
        # The tool goes on after what the compiler's driver complains about.
        no = set(re.findall(r"unknown argument:? '([^']*)'", res.err))
        if not no or not no & set(cmd):
            break
        cmd = [c for c in cmd if c not in no]
    return ((res.rc or 0) < 0 or 'PLEASE submit a bug' in res.err or
            'LLVM ERROR' in res.err, res.timeout)


def signature(res):
    """A name for what went wrong that does not depend on addresses."""
    t = res.text
    m = re.search(r'Assertion failed: (.*)', t) or \
        re.search(r'Assertion (.*) failed', t) or \
        re.search(r'runtime error: (.*)', t)
    what = re.sub(r'0x[0-9a-f]+|\d{3,}', 'N', m.group(1)) if m else ''
    if not what:
        m = re.search(r'AddressSanitizer: ([\w-]+)', t)
        what = m.group(1) if m else 'signal %d' % -(res.rc or 0)
    fr = [f for f in re.findall(
        r'(?:#\d+|^ *\d+\.?) +0x[0-9a-f]+ (?:in )?(.*?)(?:\(| /|$)', t, re.M)
        if 'include_what_you_use' in f or 'main' == f]
    m = re.search(r'in (include_what_you_use::[\w:~<>]+)', t)
    at = m.group(1) if m else (fr[0] if fr else '')
    return re.sub(r'\W+', '_', what)[:60].strip('_') + '@' + \
        re.sub(r'\W+', '_', at.replace('include_what_you_use::', ''))[:60]


def judge(check, binary, files, args, kind, tag, name=None):
    d = core.newdir('h')
    try:
        core.write_tree(d, files)
        cmd = [binary] + args
        res = core.run(cmd, cwd=d, timeout=LIMIT, env=env(d), retry=False)
        check.count(kind.split('+')[0] + ' inputs')
        check.count('runs under ' + tag)
        bad = not res.timeout and (res.rc < 0 or res.rc == 99 and
                                   BAD.search(res.err))
        if not bad and not res.timeout:
            check.count('exit %s' % res.rc)
            if 'should add these lines' in res.text or \
                    'has correct #includes' in res.text:
                check.count('runs that reached a report')
            check.case(key=(kind, files, args), sample={
                'kind': kind, 'args': ' '.join(args), 'exit': res.rc})
            return
        if res.timeout:
            ccrash, cslow = clang(args, d)
            if ccrash or cslow:
                check.count('compiler alone is as slow')
                return
            again = core.run(cmd, cwd=d, timeout=LIMIT * 6, env=env(d),
                             retry=False)
            if not again.timeout:
                check.count('slow runs')
                return
            key, what = 'hang', 'no end after %d s' % (LIMIT * 6)
        else:
            if clang(args, d)[0]:
                check.count('compiler alone crashes too')
                return
            key, what = signature(res), res.text[-6000:]
            if res.rc == -6 and '--regex=ecmascript' in args and \
                    'ssertion' not in res.err:
                other = core.run([binary] + [
                    '--regex=llvm' if a == '--regex=ecmascript' else a
                    for a in args], cwd=d, timeout=LIMIT, env=env(d))
                if other.rc >= 0:
                    key = 'invalid-ecmascript-regex'
        if name and key.startswith('signal_11'):
            key = name
        check.violation(key, '%s (%s, %s): %s' % (
            'tool did not end normally', kind, tag, what), tree=d,
            cmd=cmd)
    finally:
        core.rmtree(d)


def fixed(r):
    """Inputs chosen by hand."""
    for n in (200, 1000, 3000):
        yield ({'main.cc': b'int f(int a) { return ' + b'a+' * n + b'a; }\n'},
               ['main.cc'], 'deep')
        yield ({'main.cc': b'int f(int a) { return ' + b'(' * (n // 13) +
                b'a' + b')' * (n // 13) + b'; }\n'},
               ['-fbracket-depth=9999', 'main.cc'], 'deep')
        yield ({'h.h': b'#include "h.h"\n', 'main.cc': b'#include "h.h"\n' * n},
               ['main.cc'], 'deep')
        yield ({'main.cc': b'#define M0 int\n' + b''.join(
            b'#define M%d M%d\n' % (i + 1, i) for i in range(n)) +
            b'M%d x;\n' % n}, ['main.cc'], 'deep')
        yield ({'main.cc': b'struct S { ' * (n // 13) + b'};' * (n // 13) +
                b'\n'}, ['main.cc'], 'deep')
        yield ({'main.cc': b'template <int N> struct F { F<N-1> f; };\n'
                b'template <> struct F<0> {};\nF<%d> f;\n' % (n // 4)},
               ['main.cc'], 'deep')
        yield ({'main.cc': b''.join(
            b'struct S%d; S%d* p%d;\n' % (i, i, i) for i in range(n))},
            ['main.cc'], 'deep')
        yield (dict([('main.cc', b'#include "h0.h"\nint x = v%d;\n' % 150)] +
                    [('h%d.h' % i, b'#pragma once\n#include "h%d.h"\n' % (
                        i + 1) + b'// IWYU pragma: begin_exports\n')
                     for i in range(150)] +
                    [('h150.h', b'const int v150 = 1;\n')]),
               ['main.cc'], 'deep')


def known(check, binary):
    """The inputs behind the recorded findings."""
    judge(check, binary, {
        'main.cc': b'int f(int a) { return ' + b'a+' * 50000 + b'a; }\n'},
        ['main.cc'], 'deep', 'rel', 'deep-expression')
    judge(check, binary, {
        'main.cc': b'#include "h.h"\nA a;\n',
        'h.h': b'struct A {};\n',
        'map.imp': b'[{ include: ["@\\"(\\"", private, "<x>", public] }]\n'},
        ['-Xiwyu', '--mapping_file=map.imp', '-Xiwyu', '--regex=ecmascript',
         'main.cc'], 'deep', 'rel')


def body():
    check = core.Check('C18', 'one run on a hostile input that ended '
                       'normally (odd constructs, damaged text, directives, '
                       'pragmas, mappings, options, arguments)')
    rel, san = build.iwyu('rel'), build.iwyu('san')
    jobs = []
    for i, c in enumerate(fixed(None)):
        jobs.append(('rel', rel, lambda c=c: c))
        if i < 8:
            jobs.append(('sanitizers', san, lambda c=c: c))
    plan = [('rel', rel, core.n_cases(9000, 300000)),
            ('sanitizers', san, core.n_cases(3000, 120000))]
    for tag, b, n in plan:
        for i in range(n):
            jobs.append((tag, b, lambda tag=tag, i=i: hostile.case(
                core.rng('c18', tag, i), rel)))
    order = core.rng('c18 order')
    head, rest = jobs[:40], jobs[40:]
    order.shuffle(rest)
    hostile.warm(rel)
    known(check, rel)

    def one(j):
        tag, b, make = j
        files, args, kind = make()
        judge(check, b, files, args, kind, tag)
    core.pmap(one, head + rest)
    check.finish()


if __name__ == '__main__':
    core.main(body)
