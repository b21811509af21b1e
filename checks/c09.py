#!/usr/bin/env python3
"""C09: re-exported symbols, private headers and their friends."""
import _path  # noqa: F401
from vf import build, core, expworld, fwdexport, mapworld, report


def main():
    ck = core.Check('C09', 'a random header tree with export, private and '
                    'friend pragmas was analysed and each use compared with a '
                    'reference resolver')
    binary = build.iwyu('rel')

    def one(i):
        r = core.rng('C09', i)
        w = expworld.World(r)
        d = core.newdir('m')
        fs = w.files()
        core.write_tree(d, fs)
        cmd = mapworld.command(binary, w, [])
        for h in sorted(w.keep):
            cmd[-1:-1] = ['-Xiwyu', '--keep=' + mapworld.path(h)]
        res = core.run(cmd, cwd=d)
        bad = []
        try:
            if res.timeout:
                ck.maybe('timeout in world %d' % i)
                return
            if res.rc != 0:
                bad.append(('status', 'exit status %s' % res.rc))
                return
            try:
                reports = report.parse(res.text)
            except report.ParseError as e:
                bad.append(('report', str(e)))
                return
            seen = expworld.judge(w, reports,
                                  lambda k, t: bad.append((k, t)))
            for k, n in seen.items():
                ck.count(k, n)
            ck.case((i, tuple(sorted(seen.items()))) if seen else None,
                    'world %d: %d headers, %s, %s' % (
                        i, len(w.headers), w.pragma, dict(seen)))
        finally:
            if bad:
                ck.violation('%s-%d' % (bad[0][0].replace(' ', '-'), i),
                             '\n'.join('%s: %s' % b for b in bad) + '\n\n' +
                             '\n'.join('%s -> %s' % (k, v) for k, v in sorted(
                                 w.model.edges.items())) + '\n' +
                             '%s %s\n' % (w.pragma, w.friends) + res.text,
                             tree=d, cmd=cmd)
            core.rmtree(d)

    def declared(i):
        r = core.rng('C09d', i)
        w = fwdexport.World(r)
        d = core.newdir('m')
        core.write_tree(d, w.tree())
        cmd = w.command(binary)
        res = core.run(cmd, cwd=d)
        bad = []
        try:
            if res.timeout:
                ck.maybe('timeout in declarations %d' % i)
                return
            if res.rc != 0:
                bad.append(('status', 'exit status %s' % res.rc))
                return
            try:
                reports = report.parse(res.text)
            except report.ParseError as e:
                bad.append(('report', str(e)))
                return
            fwdexport.judge(w, reports, lambda k, t: bad.append((k, t)),
                            ck.count)
            ck.case(('d', i), 'declarations %d' % i)
        finally:
            if bad:
                ck.violation('%s-d%d' % (bad[0][0].replace(' ', '-'), i),
                             '\n'.join('%s: %s' % b for b in bad) + '\n\n' +
                             res.text, tree=d, cmd=cmd)
            core.rmtree(d)
    core.pmap(one, range(core.n_cases(1600, 40000)))
    core.pmap(declared, range(core.n_cases(700, 15000)))
    ck.finish()


core.main(main)
