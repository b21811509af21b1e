#!/usr/bin/env python3
"""C06: the exit status states the verdict."""
import os

import _path  # noqa: F401
from vf import build, core, corpus, report, world, worldcheck

BREAK = {
    'undeclared': '\nint broken_ = no_such_name_;\n',
    'missing-header': '\n#include "no/such/header.h"\n',
    'missing-system-header': '\n#include <no_such_header.h>\n',
    'hash-error': '\n#error broken on purpose\n',
    'open-comment': '\n/* never closed\n',
    'open-if': '\n#if 1\n',
    'bad-endif': '\n#endif\n',
    'syntax': '\nint broken_( = ;\n',
    'type': '\nchar* broken_ = 3.5;\n',
    'redefinition': '\nstruct Broken_ {}; struct Broken_ {};\n',
    'missing-brace': '\nvoid broken_() {\n',
    'static-assert': '\n_Static_assert(0, "x");\n',
    'incomplete': '\nstruct Broken_; struct Broken_ b_;\n',
    'bad-macro': '\n#define M_(a) a\nint broken_ = M_(;\n',
    'bad-directive': '\n#nonsense\n',
    'bad-if-expression': '\n#if 1 +\n#endif\n',
}
BREAK_CXX = {
    'template-body': '\ntemplate <class T> int t_(T t) { return t.zip; }\n'
                     'int broken_ = t_(1);\n',
    'late-template': '\ntemplate <class T> struct T_ { typename T::q m; };\n'
                     'T_<int> broken_;\n',
    'access': '\nclass A_ { int x; }; int broken_ = A_().x;\n',
    'no-overload': '\nvoid o_(int*); void broken_() { o_("x", 1); }\n',
    'ambiguous': '\nvoid o_(long); void o_(char); void b_() { o_(1.5f); }\n',
    'unused-function': '\nstatic inline void b_() { nope_(); }\n',
    'member-body': '\nstruct M_ { void m() { nope_; } };\n',
    'abstract': '\nstruct V_ { virtual void v() = 0; }; V_ broken_;\n',
    'deleted': '\nstruct D_ { D_() = delete; }; D_ broken_;\n',
}


def status(rc):
    return rc & 255


def verdicts(c, b):
    profs = ['plain', 'lean', 'assoc', 'forward', 'direct', 'c']
    formats = [[], ['--verbose=0'], ['--verbose=1'], ['--verbose=2'],
               ['--verbose=3'], ['--update_comments'], ['--no_comments'],
               ['--check_also=*.h'], ['--no_fwd_decls'],
               ['--max_line_length=40'], ['--comment_style=long'],
               ['--transitive_includes_only'], ['--cxx17ns'],
               ['--quoted_includes_first', '--verbose=0']]

    def x(opts):
        return [y for o in opts for y in ('-Xiwyu', o)]

    def one(i):
        r = core.rng('c06', i)
        prof = profs[i % len(profs)]
        w = world.World(r, world.Opts(**worldcheck.PROFILES[prof]))
        fmt = formats[(i // len(profs)) % len(formats)]
        res = []
        shown = [f for f in fmt if not f.startswith('--verbose')]
        base = world.analyse(b, w, x(shown))
        if base.error:
            return i, prof, fmt, w, base, None
        n = r.choice([1, 2, 3, 7, 42, 100, 200, 255])
        m = r.choice([4, 5, 9, 77])
        for err in ([], ['--error'], ['--error=%d' % n], ['--error_always'],
                    ['--error_always=%d' % m],
                    ['--error=%d' % n, '--error_always=%d' % m],
                    ['--error_always=%d' % m, '--error=%d' % n]):
            o = core.run([b] + x(fmt + err) + w.args + [w.main],
                         cwd=base.dir)
            res.append((err, o, n, m))
        if i % 3 == 0:
            # The corrected program: the same options, nothing to report.
            from c04 import rewrite
            if base.reports and rewrite(base.dir, base.reports):
                again = world.analyse(b, w, x(shown), d=base.dir)
                for err in (['--error=%d' % n], ['--error_always=%d' % m]):
                    o = core.run([b] + x(fmt + err) + w.args + [w.main],
                                 cwd=base.dir)
                    res.append((err, o, n, m, again))
        return i, prof, fmt, w, base, res
    for i, prof, fmt, w, base, res in core.pmap(
            one, range(core.n_cases(170, 2400))):
        key = 'world:%s:%d:%s' % (prof, i, ','.join(fmt))
        if base.error == 'timeout':
            c.maybe('timeout ' + key)
            continue
        if base.error:
            c.violation(key, base.error, tree=base.dir, cmd=base.cmd,
                        files={'output.txt': base.res.text})
            continue
        for t in res:
            err, o, n, m = t[:4]
            rep = t[4] if len(t) > 4 else base
            if o.timeout or rep.error:
                c.maybe('timeout ' + key)
                continue
            edits = any(p.adds or p.removes for p in rep.reports)
            if any(e.startswith('--error_always') for e in err):
                want = m if any('=' in e for e in err
                                if e.startswith('--error_always')) else 1
            elif err and edits:
                want = n if '=' in err[0] else 1
            else:
                want = 0
            c.count('runs_with_edits' if edits else 'runs_without_edits')
            c.case(key=(key, tuple(err), len(t)),
                   sample='%s %s: exit %s' % (key, err, o.rc))
            if o.rc != want:
                c.violation('%s:%s' % (key, ','.join(err)),
                            'exit %s instead of %s; the report %s edits' % (
                                o.rc, want,
                                'has' if edits else 'has no'),
                            tree=base.dir, cmd=o.cmd,
                            files={'output.txt': o.text})
        core.rmtree(base.dir)


def broken(c, b):
    jobs = []
    for lang in ('c++', 'c'):
        br = dict(BREAK)
        if lang == 'c++':
            br.update(BREAK_CXX)
        for k in sorted(br):
            for where in ('main', 'header'):
                for opts in ([], ['--error'], ['--error_always=3'],
                             ['--verbose=0'], ['--error=0'],
                             ['--update_comments']):
                    jobs.append((lang, k, br[k], where, opts))
    if core.TIER == 'quick':
        jobs = core.rng('c06b').sample(jobs, 200)

    def one(j):
        lang, name, text, where, opts = j
        r = core.rng('c06b', name, where, tuple(opts))
        prof = 'c' if lang == 'c' else r.choice(['plain', 'assoc', 'lean'])
        w = world.World(r, world.Opts(**worldcheck.PROFILES[prof]))
        d = core.newdir('b')
        if where == 'main':
            w.files[w.main] += text
        else:
            w.files[w.main] = '#include "zz_broken.h"\n' + w.files[w.main]
            w.files['zz_broken.h'] = '#pragma once\n' + text
        w.write(d)
        cmd = [b] + [y for o in opts for y in ('-Xiwyu', o)] + w.args + \
            [w.main]
        ref = core.run([core.CLANG, '-fsyntax-only'] + [
            a for k, a in enumerate(w.args) if a != '-Xiwyu' and
            (k == 0 or w.args[k - 1] != '-Xiwyu')] + [w.main], cwd=d)
        return j, d, ref, core.run(cmd, cwd=d)
    for j, d, ref, o in core.pmap(one, jobs):
        key = 'broken:%s:%s:%s:%s' % (j[0], j[1], j[3], ','.join(j[4]))
        if ref.timeout or o.timeout:
            c.maybe('timeout ' + key)
        elif ref.rc == 0:
            c.count('accepted_by_compiler')
        else:
            c.count('uncompilable_programs')
            c.case(key=key)
            if o.rc == 0 or (not j[4] and o.rc != 1):
                c.violation(key, 'exit %s for a program clang rejects with '
                            '%s' % (o.rc, ref.text[:300]), tree=d, cmd=o.cmd,
                            files={'output.txt': o.text})
        core.rmtree(d)


GOOD = {'a.h': '#pragma once\nstruct A { int x; };\n',
        'm.cc': '#include "a.h"\nA a;\n',
        'w.cc': '#include "a.h"\nA a;\nint f() { int unused; return 0; }\n',
        'ok.imp': '[]\n'}
# (arguments, must fail)
OPTIONS = [
    (['-Xiwyu', '--no_such_option', 'm.cc'], True),
    (['-Xiwyu', '--no', 'm.cc'], True),
    (['-Xiwyu', '-z', 'm.cc'], True),
    (['m.cc', '-Xiwyu', '--check_also'], True),
    (['m.cc', '-Xiwyu', '--mapping_file'], True),
    (['-Xiwyu', '--error=abc', 'm.cc'], True),
    (['-Xiwyu', '--error=', 'm.cc'], True),
    (['-Xiwyu', '--error=1x', 'm.cc'], True),
    (['-Xiwyu', '--error=99999999999999', 'm.cc'], True),
    (['-Xiwyu', '--error_always=abc', 'm.cc'], True),
    (['-Xiwyu', '--error_always=2.5', 'm.cc'], True),
    (['-Xiwyu', '--error_always=-99999999999999', 'm.cc'], True),
    (['-Xiwyu', '--comment_style=loud', 'm.cc'], True),
    (['-Xiwyu', '--comment_style=', 'm.cc'], True),
    (['-Xiwyu', '--prefix_header_includes=maybe', 'm.cc'], True),
    (['-Xiwyu', '--regex=perl', 'm.cc'], True),
    (['-Xiwyu', '--no_comments=1', 'm.cc'], True),
    (['missing.cc'], True), ([], True), (['-c'], True),
    (['-include', 'missing.h', 'm.cc'], True),
    (['--', '-Xiwyu'], True),
    (['-Wall', 'w.cc'], False),
    (['-Werror', '-Wall', '-Wno-unused-variable', 'w.cc'], False),
    (['-Xiwyu', '--error=-1', 'm.cc'], False),
    (['-Xiwyu', '--mapping_file=ok.imp', 'm.cc'], False),
    (['--help'], False), (['--version'], False),
    (['-Xiwyu', '--verbose=3', '--', 'm.cc'], False),
]

# Refused by the compiler driver.
CLANG = [(['-fno-such-flag', 'm.cc'], True, True),
         (['-std=c++1999', 'm.cc'], True, True),
         (['m.cc', '-Xiwyu'], True, True),
         (['-fsanitize=bogus', 'm.cc'], True, True),
         (['-target', 'm.cc'], True, True),
         (['-I'], True, True)]


def options(c, b):
    d = core.newdir('opt')
    core.write_tree(d, GOOD)
    jobs = []
    for args, fail, clang in [o + (False,) for o in OPTIONS] + CLANG:
        jobs.append((args, fail))
        if fail and not clang:
            for e in ('--error', '--verbose=0', '--error_always=0'):
                if not any(a.startswith(e.split('=')[0]) for a in args):
                    jobs.append((['-Xiwyu', e] + args, fail))

    def one(j):
        return j, core.run([b] + j[0], cwd=d)
    for (args, fail), o in core.pmap(one, jobs):
        key = 'options:' + '_'.join(args)
        if o.timeout:
            c.maybe('timeout ' + key)
            continue
        c.count('option_lists')
        c.case(key=key)
        if fail and o.rc == 0:
            c.violation(key, 'exit 0 despite an unusable command line',
                        tree=d, cmd=o.cmd, files={'output.txt': o.text})
        if not fail and o.rc != 0:
            c.violation(key, 'exit %s for a usable command line' % o.rc,
                        tree=d, cmd=o.cmd, files={'output.txt': o.text})
    core.rmtree(d)


def main():
    c = core.Check('C06', 'distinct by program and option list; every run '
                   'compares the exit status with one derived from the '
                   'report printed for the same program')
    c.assumptions = ['the installed clang 20 decides whether a program '
                     'compiles']
    b = build.iwyu('rel')
    verdicts(c, b)
    broken(c, b)
    options(c, b)
    corpus.monitor(c, b, 'C06', ['exit', 'crash'])
    c.finish()


if __name__ == '__main__':
    core.main(main)
