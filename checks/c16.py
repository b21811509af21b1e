#!/usr/bin/env python3
"""C16: the files that are reported on, and associated headers."""
import _path  # noqa: F401
from vf import build, core, assocworld, report


def main():
    ck = core.Check('C16', 'a generated component was analysed; distinct by '
                    'the names of its files, their includes and the patterns')
    binary = build.iwyu('rel')
    ck.assumptions = ['Components are formed by the naming rules of '
                      'GetCanonicalName in iwyu_path_util.cc']

    def one(i):
        w = assocworld.World(core.rng('C16', i))
        d = core.newdir('w')
        core.write_tree(d, w.tree())
        cmd = w.command(binary)
        res = core.run(cmd, cwd=d)
        bad = []
        try:
            if res.timeout:
                ck.maybe('timeout')
                return
            try:
                reps = report.parse(res.text)
            except report.ParseError as e:
                bad.append(('report', str(e)))
                return
            if res.rc:
                bad.append(('status', 'exit status %s' % res.rc))
                return
            assocworld.judge(w, reps,
                            lambda k, s: bad.append((k, s)), ck.count)
        finally:
            ck.case((w.main, tuple(w.heads), tuple(w.direct), tuple(w.globs)),
                    '%s %s %s' % (w.main, w.direct, w.globs))
            if bad:
                ck.violation('%s-%d' % (bad[0][0].replace(' ', '_'), i),
                             '\n'.join('%s: %s' % b for b in bad) + '\n' +
                             res.text, tree=d, cmd=cmd)
            core.rmtree(d)
    core.pmap(one, range(core.n_cases(1500, 40000)))
    ck.finish()


core.main(main)
