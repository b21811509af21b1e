#!/usr/bin/env python3
"""C26: converted diagnostics carry the same advice."""
import json
import os
import re
import shutil
import sys

import _path  # noqa: F401
from vf import build, core, corpus, gen, report, standin, world

TOOL = os.path.join(core.REPO, 'iwyu_tool.py')
FILES = ['foo.cc', 'src/foo.h', '/abs/p.h', 'a b/c d.h', './x.cc', 'x\u00fc.h',
         '../up/foo.hpp', "it's.cc", 'a(b).h', 'f:1.h', 'foo has.h', '-x.h',
         '(p).cc', 'for.h', 'should.h', '%s.h', 'x%d.cc', '\\n.h', '{0}.h']
SYM = ['Foo', 'ns::Bar', 'operator<<', 'vector', 'std::map<int, A (*)(B)>',
       'FOO_M', 'x', '~A', "operator\"\" _s", 'T::U', 'a (ptr only)', '...']
NAMES = ['"foo.h"', '<vector>', '<stdio.h>', '"a/b c.h"', '"../x.h"',
         '"x\u00fc.h"', '<a-b/c++.h>', '"a\'b.h"', '"x//y.h"', '"%d.h"',
         '"(q).h"']
DECLS = ['class A;', 'struct B;', 'namespace n { class C; }',
         'template <typename T> class D;', 'enum class E : char;',
         'namespace a { namespace b { template <class T, int N> struct F; } }',
         'namespace { class G; }', "struct [[x('a')]] H;", 'union U;',
         'template <typename T = void (*)(int)> class I;']
OTHER = ['In file included from foo.cc:3:',
         "foo.cc:3:10: fatal error: 'x.h' file not found",
         '    3 | #include "x.h"', '      |          ^~~~~', '1 error generated.',
         'foo.cc:1:2: warning: A is defined in "b.h", which isn\'t directly '
         '#included.', '\tint x;   ', '- not a removal  // lines 1-2',
         '#include "stray.h"  // for X', "it's 100% {0} %s done", '(see here)',
         'caf\u00e9 \u4f60', 'a\x0cb', 'p\u2028q', 'r\x85s', 'v\x0bw', 'x\x1cy',
         'the full include-list for x:', 'should add these lines', '--', '----',
         '(foo.cc has correct #includes/fwd-decls) really',
         '  (foo.cc has correct #includes/fwd-decls)', '- ', '//', '}',
         'foo.cc should remove these lines', "add '#include <x>' (for y)",
         'int a; // note', '  ^', '0 warnings and 1 error generated.',
         '"IWYU_X" : /usr/bin/clang', '# comment', "x.h:1:1: error: add 'q'",
         '--- ', ' ---', '- class Z;  // lines 3-4 ', '\\', 'a\\']


def make(r):
    """A report with interleaved messages: (text, expected lines)."""
    text, want = [], []
    style = r.choice(['error', 'warning'])

    def other():
        for _ in range(r.choice([0, 0, 1, 1, 2, 5])):
            l = r.choice(OTHER)
            text.append(l)
            want.append(l)
        if r.random() < .4:
            text.append('')

    def include():
        return '#include ' + r.choice(NAMES)

    def why():
        if r.random() < .3:
            return ''
        return 'for ' + ', '.join(r.choice(SYM)
                                  for _ in range(r.choice([1, 1, 2, 6])))

    stats = [0, 0, 0]
    other()
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        f = r.choice(FILES)
        if r.random() < .3:
            text.append('(%s has correct #includes/fwd-decls)' % f)
            want.append(f + ':1:1: note: #includes/fwd-decls are correct')
            stats[2] += 1
        else:
            text.append('%s should add these lines:' % f)
            for _ in range(r.choice([0, 1, 2, 7])):
                d = include() if r.random() < .6 else r.choice(DECLS)
                w = why() if d[0] == '#' else ''
                text.append(d + (' ' * r.choice([2, 2, 3, 9]) + '// ' + w
                                 if w else ''))
                want.append("%s:1:1: %s: add '%s'%s" % (
                    f, style, d, ' (%s)' % w if w else ''))
                stats[0] += 1
            if r.random() < .9:
                text.append('')
            text.append('%s should remove these lines:' % f)
            for _ in range(r.choice([0, 1, 2, 7])):
                d = include() if r.random() < .6 else r.choice(DECLS)
                a = r.choice([1, 2, 9, 10, 123, 99999])
                rng = '  // lines %d-%d' % (a, a + r.choice([0, 0, 1, 12]))
                if r.random() < .1:
                    rng, a = '', 1       # as with --no_comments
                text.append('- ' + d + rng)
                want.append("%s:%d:1: %s: superfluous '%s'" % (f, a, style, d))
                stats[1] += 1
            if r.random() < .9:
                text.append('')
            text.append('The full include-list for %s:' % f)
            for _ in range(r.choice([0, 1, 3])):
                w = why()
                text.append(include() + ('  // ' + w if w else ''))
            if r.random() < .3:
                text.append(r.choice(DECLS) + '  // lines 4-5')
            text.append('---')
            if r.random() < .8:
                text.append('')
        other()
    return '\n'.join(text) + r.choice(['\n', '\n', '']), want, style, stats


def convert(rows, style, jobs=1):
    """Runs the driver over stand-ins that print the rows' texts."""
    d = core.newdir('t')
    pl = os.path.join(d, 'plan')
    db = []
    for k, row in enumerate(rows):
        standin.plan(pl, 't%d' % k, row[0].encode('utf-8'))
        db.append({'directory': d, 'file': 'f%d.cc' % k,
                   'arguments': ['cc', '-DTAG=t%d' % k, 'f%d.cc' % k]})
    json.dump(db, open(os.path.join(d, 'compile_commands.json'), 'w'))
    res = core.run([sys.executable, TOOL, '-p', '.', '-j%d' % jobs, '-o',
                    'clang' if style == 'error' else 'clang-warning'], cwd=d,
                   env={'IWYU_BINARY': STANDIN, 'STANDIN_PLAN': pl,
                        'PYTHONDONTWRITEBYTECODE': '1'})
    shutil.rmtree(d)
    return res


def check(label, rows, style):
    res = convert([(r[0],) for r in rows], style)
    if res.timeout:
        CHK.maybe(label + ': time-out')
        return
    got = [l for l in res.out.split('\n') if l.strip()]
    want = [l for r in rows for l in r[1] if l.strip()]
    bad = None
    if res.rc != 0 or 'Traceback' in res.err:
        bad = 'status %s: %s' % (res.rc, res.err[-600:])
    elif got != want:
        for i, (a, b) in enumerate(zip(want + ['(end)'], got + ['(end)'])):
            if a != b:
                bad = 'line %d: expected %r but got %r' % (i + 1, a, b)
                break
        else:
            bad = '%d lines instead of %d' % (len(got), len(want))
    if bad:
        # Find the report at fault, if one alone shows it.
        for k, r in enumerate(rows):
            one = convert([(r[0],)], style)
            lines = [l for l in one.out.split('\n') if l.strip()]
            if one.rc or lines != [l for l in r[1] if l.strip()]:
                diff = next((x for x in zip(r[1] + ['(end)'], lines +
                                            ['(end)']) if x[0] != x[1]),
                            one.err[-300:])
                bad = 'expected, got: %s' % (diff,)
                rows = [r]
                break
        CHK.violation(label, bad, files={
            'output.txt': '\n====\n'.join(r[0] for r in rows[:3]),
            'expected.txt': '\n====\n'.join('\n'.join(r[1])
                                            for r in rows[:3])})


def generated(b):
    r = core.rng('c26', b)
    style = r.choice(['error', 'warning'])
    rows = []
    while len(rows) < 25:
        x = make(r)
        if x[2] == style:
            rows.append(x)
    check('gen:%d' % b, rows, style)
    for t, want, _, st in rows:
        CHK.case(t if sum(st) else None, {'report': t[:400],
                                          'expected': want[:4]})
        CHK.count('additions', st[0])
        CHK.count('removals', st[1])
        CHK.count('correct_files', st[2])
        CHK.count('reports')
        CHK.count('lines_passed_through', len(want) - sum(st))


def expect(text, style):
    """Expected diagnostics for a real output, by another reading of it."""
    want, sect, name = [], None, None
    for l in text.split('\n'):
        for pat, s in ((report.ADD, 'a'), (report.REM, 'r'),
                       (report.FULL, 'f')):
            m = pat.match(l)
            if m:
                sect, name = s, m.group(1)
                break
        else:
            m = report.OK.match(l)
            if m:
                want.append(m.group(1) +
                            ':1:1: note: #includes/fwd-decls are correct')
            elif l == '---':
                sect = None
            elif not l.strip() or sect == 'f':
                pass
            elif sect == 'a':
                d, _, w = l.partition('  // ')
                want.append("%s:1:1: %s: add '%s'%s" % (
                    name, style, d.rstrip(), ' (%s)' % w if w else ''))
            elif sect == 'r':
                d, _, w = l[2:].partition('  // lines ')
                want.append("%s:%s:1: %s: superfluous '%s'" % (
                    name, w.split('-')[0] if w else '1', style, d))
            else:
                want.append(l)
    return want


def real():
    """Outputs of the real tool on generated and annotated programs."""
    binary = build.iwyu('rel')
    rows = []

    def gen_one(i):
        r = core.rng('c26w', i)
        w = world.World(r)
        opts = [[], [], ['--verbose=3'], ['--no_comments'], ['--verbose=0'],
                ['--comment_style=none'], ['--comment_style=long'],
                ['--verbose=1']][i % 8]
        d = core.newdir('w')
        w.write(d)
        o = world.analyse(binary, w, [x for a in opts for x in ('-Xiwyu', a)],
                          d)
        core.rmtree(d)
        return o.res.text

    def prog(f):
        res = core.run([binary, '-I.', '-Xiwyu', '--verbose=3', '-c', f,
                        '-std=c++17'] if not f.endswith('.c') else
                       [binary, '-I.', '-c', f], cwd=core.REPO)
        return res.text

    texts = core.pmap(gen_one, range(core.n_cases(160, 2000)))
    progs = sorted(os.path.relpath(f, core.REPO) for f in corpus.programs())
    texts += core.pmap(prog, progs)
    k = 0
    for t in texts:
        if t.strip():
            style = ['error', 'warning'][k // 25 % 2]
            rows.append((t, expect(t, style), style))
            k += 1
            CHK.case(t, None)
            CHK.count('real_outputs')
            CHK.count('real_diagnostics', len(rows[-1][1]))
    groups = [rows[i:i + 25] for i in range(0, len(rows), 25)]
    core.pmap(lambda g: check('real:%d' % rows.index(g[0]), g, g[0][2]),
              groups)


def main():
    global CHK, STANDIN
    CHK = core.Check('C26', 'generated reports with interleaved messages, '
                     'and outputs of the real tool, converted by the real '
                     'driver: a report with at least one diagnostic')
    STANDIN = standin.build()
    core.pmap(generated, range(core.n_cases(160, 4000)))
    real()
    CHK.finish()


core.main(main)
