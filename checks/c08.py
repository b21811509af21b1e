#!/usr/bin/env python3
"""C08: pragmas and options that pin or inhibit are obeyed."""
import _path  # noqa: F401
from vf import build, core, pragworld, report


def main():
    ck = core.Check('C08', 'a generated set of files with pragmas that was '
                    'reported on; distinct by the pragmas and their targets')
    binary = build.iwyu('rel')
    ck.assumptions = ['Pragmas act as docs/IWYUPragmas.md says; a comment that '
                      'only resembles one is a comment']

    def one(i):
        w = pragworld.World(core.rng('C08', i))
        d = core.newdir('w')
        core.write_tree(d, w.tree())
        cmd = w.command(binary)
        res = core.run(cmd, cwd=d)
        bad = []
        try:
            if res.timeout:
                ck.maybe('timeout')
                return
            try:
                reps = report.parse(res.text)
            except report.ParseError as e:
                bad.append(('report', str(e)))
                return
            if res.rc:
                bad.append(('status', 'exit status %s' % res.rc))
                return
            pragworld.judge(w, reps, res.text,
                            lambda k, s: bad.append((k, s)), ck.count)
        finally:
            ck.case(tuple(sorted((k, v) for t in w.targets
                                 for k, v in t.what.items())),
                    sorted(t.stats for t in w.targets))
            if bad:
                ck.violation('%s-%d' % (bad[0][0].replace(' ', '_'), i),
                             '\n'.join('%s: %s' % b for b in bad) + '\n' +
                             res.text, tree=d, cmd=cmd)
            core.rmtree(d)
    core.pmap(one, range(core.n_cases(1500, 40000)))
    ck.finish()


core.main(main)
