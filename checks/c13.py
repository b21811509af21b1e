#!/usr/bin/env python3
"""C13: suggested forward declarations are valid and name the entity."""
import _path  # noqa: F401
from vf import build, core, fwdworld, report

# Inputs known to fail: (key, header, body, what the file has before).
PROBES = [
    ('underlying-type', {'support.h': '#pragma once\ntypedef short Under0;\n',
                         't0.h': '#pragma once\n#include "support.h"\n'
                         'enum class Ty0 : Under0 { k };\n'},
     'void f(Ty0 e);\n'),
    ('concept', {'support.h': '#pragma once\ntemplate <class T> '
                 'concept Any0 = sizeof(T) > 0;\n',
                 't0.h': '#pragma once\n#include "support.h"\n'
                 'template <Any0 T> struct Ty0 {};\n'}, 'Ty0<int>* p;\n'),
    ('dependent-head', {'support.h': '#pragma once\nstruct Has0 { '
                        'using type = int; };\n',
                        't0.h': '#pragma once\n#include "support.h"\ntemplate '
                        '<class T, typename T::type V> struct Ty0 {};\n'},
     'Ty0<Has0, 1>* p;\n'),
    ('undefined-by-value', {'t0.h': '#pragma once\n'},
     'template <class T> struct Loc0;\nvoid (*f)(Loc0<int>);\n')]


def probe(c, binary, key, hdrs, body):
    """One fixed program whose suggested lines should let it compile."""
    d = core.newdir('p')
    files = dict(hdrs)
    pre = ''.join('#include "%s"\n' % h for h in hdrs)
    files['main.cc'] = pre + body
    core.write_tree(d, files)
    cmd = [binary, '-std=c++20', '-I.', 'main.cc']
    res = core.run(cmd, cwd=d)
    reps = report.parse(res.text) if not res.timeout else []
    c.case('probe ' + key)
    if not reps or reps[0].correct:
        core.rmtree(d)
        return
    lines = [l.code for l in reps[0].full]
    rest = '\n'.join(l for l in body.split('\n')
                     if not l.startswith('template <class T> struct Loc0;'))
    core.write_tree(d, {'after.cc': '\n'.join(lines) + '\n' + rest})
    res = core.run([core.CLANG, '-fsyntax-only', '-std=c++20', '-I.',
                    'after.cc'], cwd=d)
    if res.rc and not res.timeout:
        c.violation(key, 'the file does not compile with the suggested lines '
                    '%s\n%s' % (lines, res.err[:600]), tree=d, cmd=cmd)
    core.rmtree(d)


def body():
    c = core.Check('C13', 'one program that needs declarations of types, with '
                   'each suggested declaration compiled in four settings')
    binary = build.iwyu()

    def one(i):
        w = fwdworld.World(core.rng('c13', i))
        d = core.newdir('f')
        try:
            cmd, res, reps = fwdworld.outcome(binary, w, d)
            if res.timeout:
                c.maybe('timeout')
                return
            if ' error: ' in res.text or res.rc != 0:
                c.count('programs that do not compile')
                return
            rep = [r for r in reps if r.filename == w.target]
            bad = []
            for r in rep:
                bad += fwdworld.judge(
                    w, d, r, c.count, lambda what: c.count(
                        'lines naming an undeclared ' + what))
            if not rep:
                bad = ['no report on ' + w.target]
            c.case('\n'.join(sorted(w.files.values())),
                   {'lines': [l.code for r in rep for l in r.full]})
            if bad:
                c.violation('fwd-%d' % i, '\n'.join(bad[:10]), tree=d, cmd=cmd)
        finally:
            core.rmtree(d)
    core.pmap(lambda p: probe(c, binary, *p), PROBES)
    core.pmap(one, range(core.n_cases(1500, 60000)))
    if not c.counters.get('declarations judged', 0) and not c.violations:
        c.nontrivial.clear()
    c.finish()


if __name__ == '__main__':
    core.main(body)
