#!/usr/bin/env python3
"""C14: macro uses and the symbols in macro bodies are attributed right."""
import _path  # noqa: F401
from vf import build, core, macworld, report

# Inputs known to fail: (key, files, main, judged file, header it needs).
PROBES = [
    ('function-like-alias',
     {'f.h': '#pragma once\n#define FN(x) x\n',
      'a.h': '#pragma once\n#include "f.h"\n#define ALIAS FN\n',
      'a.cc': '#include "a.h"\nint v;\n'}, 'a.cc', 'a.h', 'f.h')]


def probe(c, binary, key, files, main, judged, needed):
    d = core.newdir('p')
    core.write_tree(d, files)
    cmd = [binary, '-I.', main]
    res = core.run(cmd, cwd=d)
    reps = report.parse(res.text) if not res.timeout else []
    c.case('probe ' + key)
    for rep in reps:
        if rep.filename == judged and not rep.correct and \
                not any(l.include == '"%s"' % needed for l in rep.full):
            c.violation(key, '%s loses %s' % (judged, needed), tree=d, cmd=cmd)
    core.rmtree(d)


def body():
    c = core.Check('C14', 'one program of statements about macros, judged by '
                   'exact set of headers, compilation and preprocessed text')
    binary = build.iwyu()

    def one(i):
        w = macworld.World(core.rng('c14', i))
        d = core.newdir('f')
        try:
            cmd, res, reps = macworld.outcome(binary, w, d)
            if res.timeout:
                c.maybe('timeout')
                return
            if ' error: ' in res.text:
                c.count('programs that do not compile')
                return
            rep = [r for r in reps if r.filename == w.target]
            bad = [] if rep and res.rc == 0 else \
                ['no report on %s, exit %s' % (w.target, res.rc)]
            for r in rep:
                bad += macworld.judge(w, d, r, c.count)
            c.case('\n'.join(sorted(w.files.values())),
                   {'needs': sorted(w.needs), 'body': w.body[:300]})
            if bad:
                c.violation('mac-%d' % i, '\n'.join(bad[:10]), tree=d, cmd=cmd)
        finally:
            core.rmtree(d)
    core.pmap(lambda p: probe(c, binary, *p), PROBES)
    core.pmap(one, range(core.n_cases(2500, 100000)))
    if not c.counters.get('rewritten files that preprocess the same') and \
            not c.violations:
        c.nontrivial.clear()
    c.finish()


if __name__ == '__main__':
    core.main(body)
