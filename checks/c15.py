#!/usr/bin/env python3
"""C15: authors who provide a class relieve the users of their interface."""
import _path  # noqa: F401
from vf import build, core, intworld


def body():
    c = core.Check('C15', 'one program that uses classes through interfaces, '
                   'judged by exact set of headers and compilation')
    binary = build.iwyu()

    def one(i):
        w = intworld.World(core.rng('c15', i))
        d = core.newdir('f')
        try:
            cmd, res, reps = intworld.outcome(binary, w, d)
            if res.timeout:
                c.maybe('timeout')
                return
            if ' error: ' in res.text:
                c.count('programs that do not compile')
                return
            rep = [r for r in reps if r.filename == w.target]
            bad = [] if rep and res.rc == 0 else \
                ['no report on %s, exit %s' % (w.target, res.rc)]
            for r in rep:
                bad += intworld.judge(w, d, r, c.count)
            c.case('\n'.join(sorted(w.files.values())),
                   {'interfaces': [m for _, m, _ in w.ifaces],
                    'needs': sorted(w.full), 'body': w.body[:300]})
            if bad:
                c.violation('int-%d' % i, '\n'.join(bad[:10]), tree=d, cmd=cmd)
        finally:
            core.rmtree(d)
    core.pmap(one, range(core.n_cases(2500, 100000)))
    if not c.counters.get('rewritten files that compile') and \
            not c.violations:
        c.nontrivial.clear()
    c.finish()


if __name__ == '__main__':
    core.main(body)
