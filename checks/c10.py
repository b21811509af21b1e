#!/usr/bin/env python3
"""C10: mappings lead to a public header that maps the used one."""
import _path  # noqa: F401
from vf import build, core, mapworld, report


def main():
    ck = core.Check('C10', 'a random header tree with random include, wildcard '
                    'and symbol mappings was analysed and each use of a mapped '
                    'symbol was compared with a reference resolver')
    binary = build.iwyu('rel')

    def one(i):
        r = core.rng('C10', i)
        w = mapworld.World(r)
        d = core.newdir('m')
        fs = w.files()
        fs['map.imp'] = mapworld.dump(w.entries)
        core.write_tree(d, fs)
        cmd = mapworld.command(binary, w, ['map.imp'])
        res = core.run(cmd, cwd=d)
        bad = []
        if res.timeout:
            ck.maybe('timeout in world %d' % i)
            core.rmtree(d)
            return
        if res.rc != 0:
            ck.violation('status-%d' % i, 'exit status %s\n%s' % (
                res.rc, res.text[-2000:]), tree=d, cmd=cmd)
            core.rmtree(d)
            return
        if 'error:' in res.text:
            ck.violation('loading-%d' % i, res.text[:2000], tree=d, cmd=cmd)
        try:
            reports = report.parse(res.text)
        except report.ParseError as e:
            ck.violation('report-%d' % i, '%s\n%s' % (e, res.text), tree=d,
                         cmd=cmd)
            core.rmtree(d)
            return
        seen = mapworld.judge(w, reports, lambda k, t: bad.append((k, t)))
        for k, n in seen.items():
            ck.count(k, n)
        shape = (sorted(seen.items()), w.dialect, len(w.entries))
        ck.case((i, shape) if seen else None,
                'world %d: %d headers, %d entries, %s' % (
                    i, len(w.headers), len(w.entries), dict(seen)))
        if bad:
            ck.violation('%s-%d' % (bad[0][0].replace(' ', '-'), i),
                         '\n'.join('%s: %s' % b for b in bad) + '\n\n' +
                         fs['map.imp'] + '\n' + res.text, tree=d, cmd=cmd)
        core.rmtree(d)
    core.pmap(one, range(core.n_cases(1600, 40000)))
    ck.finish()


core.main(main)
