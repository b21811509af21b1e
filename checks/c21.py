#!/usr/bin/env python3
"""C21: applying advice edits exactly the lines it names."""
import os
import re
import subprocess
import sys

import _path  # noqa: F401
from vf import core, fixgen, pyrun

FIXER = os.path.join(core.REPO, 'fix_includes.py')
NO = '--nosafe_headers'
FLAGS = [[NO], [NO, '--reorder'], ['--safe_headers'], [NO, '--comments'],
         [NO, '--noblank_lines'], [NO, '--keep_iwyu_namespace_format'],
         [NO, '--quoted_includes_first', '--reorder'],
         [NO, '--separate_project_includes=proj'], [NO, '--update_comments'],
         [NO, '--blank_lines', '--reorder', '--comments'], []]
NAMES = ['foo.cc', 'foo.h', 'foo.cc', 'bar.hpp', 'foo.c', 'baz-inl.h',
         'foo_test.cc', 'q.cxx', 'dir/foo.cpp', 'dir/sub/foo.hh']


def make(i):
    r = core.rng('c21', i)
    n = 1 if r.random() < .85 else r.randint(2, 4)
    files = []
    for k in range(n):
        name = r.choice(NAMES)
        if n > 1:
            name = 'd%d/%s' % (k, name)
        f = fixgen.File(r, name)
        f.decide(r.choice([.2, .35, .7, 1]), .05)
        files.append(f)
    return r, files, ''.join(f.report() for f in files)


def check(f, before, after, opts, rep):
    if before == '':         # the repository's tests say: left alone
        return ['an empty file was edited'] if after else []
    if 'has correct' in rep:
        for l in f.ls:
            l.dead = False
        maybe, gone = set(), []
    else:
        maybe, gone = f.expectation(NO not in opts)
    return fixgen.judge(f, before, after, opts, maybe, gone)


def one(i):
    r, files, rep = make(i)
    opts = FLAGS[i % len(FLAGS)]
    d = pyrun.workdir('fix')
    core.write_tree(d, {f.name: f.text for f in files})
    if i % 701 == 0:         # the real command line now and then
        p = subprocess.run([sys.executable, '-B', FIXER] + opts, cwd=d,
                           input=rep.encode(), timeout=100,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode('utf-8', 'replace')
        error = 'exit %d' % p.returncode if p.returncode else None
    else:
        res = pyrun.call(FIXER, opts, rep, d)
        out, error = res.text, res.error
    bad, dump = [], {}
    for f in files:
        p = os.path.join(d, f.name)
        after = open(p, newline='', encoding='utf-8').read()
        one_rep = rep if len(files) == 1 else 'x'
        if len(files) > 1 and not any(u.remove for u in f.units) and \
                not f.adds_inc and not f.adds_fwd:
            one_rep = 'has correct'
        dump['before/' + f.name], dump['after/' + f.name] = f.text, after
        os.unlink(p)
        if not error and 'ERROR' not in out:
            bad += check(f, f.text, after, opts, one_rep)
    if error:
        bad = ['the fixer failed: ' + error[-400:]]
    elif 'ERROR' in out:
        bad = ['the fixer refused the report: ' + out[-300:]]
    dump['report.txt'], dump['output.txt'] = rep, out
    acts = (sum(u.remove for f in files for u in f.units),
            sum(len(f.adds_inc) + len(f.adds_fwd) for f in files),
            sum(len(f.ls) for f in files))
    return i, opts, bad, dump if bad else None, acts, hash(rep)


# -- fixed layouts that deserve to be tried in every run ----------------------
PROBES = [
    # name, text, adds, removals (text, first, last), must contain in order,
    # must not contain
    ('alias', 'foo.cc', '#include "a.h"\n\nnamespace fs = std::filesystem;\n'
     'int x;\n', ['#include "b.h"'], [],
     ['#include "a.h"', '#include "b.h"', 'namespace fs', 'int x;'], []),
    ('extern-c', 'foo.cc', 'extern "C" {\n#include "c.h"\n}\nint x;\n',
     ['#include "b.h"'], [], ['#include "b.h"', 'extern "C" {',
                              '#include "c.h"', '}', 'int x;'], []),
    ('module-doc', 'foo.cc', '// Copyright\n// All rights\n\n// Doc of Foo\n'
     'int Foo();\n', ['#include "b.h"'], [],
     ['// Copyright', '// All rights', '#include "b.h"', 'int Foo();'], []),
    ('only-comment', 'foo.cc', '// Copyright\n', ['#include "b.h"'], [],
     ['// Copyright', '#include "b.h"'], []),
    ('one-line-removed', 'foo.cc', '#include "a.h"\n', [],
     [('#include "a.h"', 1, 1)], [], ['#include']),
    ('remove-last-add-first', 'foo.cc', '#include "a.h"\nint x;\n',
     ['#include "b.h"'], [('#include "a.h"', 1, 1)],
     ['#include "b.h"', 'int x;'], ['a.h']),
    ('continued-comment', 'foo.cc', '// a comment \\\n#include "n.h"\n'
     '#include "a.h"\nint x;\n', ['#include "b.h"'], [],
     ['// a comment \\', '#include "n.h"', '#include "b.h"', 'int x;'], []),
    ('macro-block', 'foo.cc', '#define M(x) \\\n  class x; \\\n  int y\n'
     '#include "a.h"\nM(q);\n', ['#include "b.h"'], [],
     ['#define M(x) \\', '  class x; \\', '  int y', '#include "b.h"',
      'M(q);'], []),
    ('attached', 'foo.cc', '#include "z.h"\n\n// about a\n#include "a.h"\n'
     '// about b\n#include "b.h"\nint x;\n', [], [('#include "a.h"', 3 + 1,
                                                    4)],
     ['#include "z.h"', '// about b', '#include "b.h"', 'int x;'],
     ['about a', '"a.h"']),
    ('ns-empty', 'foo.cc', '#include "z.h"\n\nnamespace a {\nnamespace b {\n'
     'class C;\n}\n}\n\nint x;\n', [],
     [('namespace a { namespace b { class C; } }', 5, 5)],
     ['#include "z.h"', 'int x;'], ['namespace', 'class C', '}']),
    ('ns-kept', 'foo.cc', '#include "z.h"\n\nnamespace a {\nnamespace b {\n'
     'class C;\n}\nclass D;\n}\n\nint x;\n', [],
     [('namespace a { namespace b { class C; } }', 5, 5)],
     ['#include "z.h"', 'namespace a {', 'class D;', '}', 'int x;'],
     ['namespace b', 'class C']),
    ('if-empty', 'foo.cc', '#include "z.h"\n#ifdef A\n#include "a.h"\n'
     '#endif\nint x;\n', [], [('#include "a.h"', 3, 3)],
     ['#include "z.h"', 'int x;'], ['#ifdef', '#endif', 'a.h']),
    ('if-kept', 'foo.cc', '#include "z.h"\n#ifdef A\n#include "a.h"\n'
     '#define Q\n#endif\nint x;\n', [], [('#include "a.h"', 3, 3)],
     ['#include "z.h"', '#ifdef A', '#define Q', '#endif', 'int x;'],
     ['a.h']),
    ('if-else-kept', 'foo.cc', '#include "z.h"\n#ifdef A\n#include "a.h"\n'
     '#else\nint q;\n#endif\nint x;\n', [], [('#include "a.h"', 3, 3)],
     ['#include "z.h"', '#ifdef A', '#else', 'int q;', '#endif', 'int x;'],
     ['a.h']),
    ('existing-ns', 'foo.cc', '#include "z.h"\n\nnamespace a {\nclass C;\n'
     '}\n\nint x;\n', ['namespace a { class B; }'], [],
     ['#include "z.h"', 'class C;', 'int x;'], []),
    ('import', 'foo.cc', '#import <a.h>\n#include "z.h"\nint x;\n',
     ['#include "b.h"'], [('#include "z.h"', 2, 2)],
     ['#include "b.h"', '#import <a.h>', 'int x;'], ['z.h']),
    ('crowded', 'foo.cc', '#include "a.h"\n#include "a.h"\nint x;\n', [],
     [('#include "a.h"', 2, 2)], ['#include "a.h"', 'int x;'], []),
    ('raw', 'foo.cc', '#include "a.h"\nconst char* s = R"(\n\nkeep\n\n\n\n'
     ')";\nint x;\n', ['#include "b.h"'], [],
     ['#include "a.h"', '#include "b.h"', 'R"(', '', 'keep', '', '', '',
      ')";', 'int x;'], []),
    ('body-blank-lines', 'foo.cc', '#include "a.h"\n\nint f() {\n\n\n'
     '  return 1;\n\n\n\n}\n', ['#include "b.h"'], [],
     ['int f() {', '', '', '  return 1;', '', '', '', '}'], []),
    ('pragma-block', 'foo.cc', '#include "a.h"\n// IWYU pragma: begin_keep\n'
     '#include "k.h"\n// IWYU pragma: end_keep\nint x;\n',
     ['#include "b.h"'], [('#include "a.h"', 1, 1)],
     ['// IWYU pragma: begin_keep', '#include "k.h"',
      '// IWYU pragma: end_keep', 'int x;'], ['a.h']),
    ('class-body', 'foo.h', '#pragma once\n#include "a.h"\nclass A {\n'
     '  class B;\n  friend class C;\n};\n', [],
     [('class A::B', 4, 4)], ['class A {', '  friend class C;', '};'],
     ['class B;']),
    ('tabs', 'foo.cc', '\t#include "a.h"\n\t#\tinclude\t"b.h"\t// c\nint x;'
     '\n', [], [('#include "a.h"', 1, 1)], ['include\t"b.h"', 'int x;'],
     ['a.h']),
]


def probes(c):
    for name, fn, text, adds, rems, order, absent in PROBES:
        d = core.newdir('probe')
        core.write_tree(d, {fn: text})
        rep = '\n%s should add these lines:\n%s\n%s should remove these ' \
            'lines:\n%s\nThe full include-list for %s:\n---\n' % (
                fn, ''.join(a + '\n' for a in adds), fn,
                ''.join('- %s  // lines %d-%d\n' % r for r in rems), fn)
        p = subprocess.run([sys.executable, '-B', FIXER, NO], cwd=d,
                           input=rep.encode(), timeout=100,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        after = open(os.path.join(d, fn)).read()
        out = after.split('\n')
        bad = []
        if p.returncode or b'ERROR' in p.stdout:
            bad.append(p.stdout.decode()[-300:])
        i = 0
        for want in order:
            if want == '':
                ok = i < len(out) and out[i] == ''
                i += 1
            else:
                while i < len(out) and want not in out[i]:
                    i += 1
                ok = i < len(out)
                i += 1
            if not ok:
                bad.append('%r is missing or out of place' % want)
                break
        bad += ['%r is still there' % a for a in absent if a in after]
        for a in adds:
            body = re.sub(r'.*\{ | \}', '', a)
            if after.count(body) != 1:
                bad.append('%r occurs %d times' % (body, after.count(body)))
        c.count('layout_probes')
        c.case(key='probe ' + name)
        if bad:
            c.violation('probe:' + name, '\n'.join(bad), files={
                'before.txt': text, 'report.txt': rep, 'after.txt': after})
        core.rmtree(d)


def main():
    c = core.Check('C21', 'distinct by report and options; a case is '
                   'non-trivial when the report removes or adds something')
    c.assumptions = ['reports have the form the analyser prints and describe '
                     'the file as it is']
    n = core.n_cases(30000, 900000)
    step = 30000
    for lo in range(0, n, step):
        for i, opts, bad, dump, acts, h in pyrun.pmap(
                one, range(lo, min(n, lo + step)), 32):
            c.count('files_edited')
            c.count('removals', acts[0])
            c.count('additions', acts[1])
            c.count('lines_tracked', acts[2])
            c.case(key=(h, tuple(opts)) if acts[0] + acts[1] else None,
                   sample='case %d: %s' % (i, ' '.join(opts)))
            if bad:
                c.violation('gen:%d' % i, '\n'.join(bad), files=dump,
                            cmd='fix_includes.py ' + ' '.join(opts))
    probes(c)
    c.finish()


if __name__ == '__main__':
    core.main(main)
