"""Batches of generated worlds, judged, with violations routed by category."""
from . import core, corpus, gen, world

PROFILES = {
    'plain': dict(),
    'assoc': dict(assoc=1.0),
    'forward': dict(d_bias='D', fwd_rate=.7),
    'direct': dict(style='direct', superfluous=(1, 6)),
    'bulky': dict(n_headers=(12, 22), n_uses=(15, 40)),
    'lean': dict(n_uses=(0, 3), superfluous=(2, 6), dups=.6),
    'ns17': dict(cxx17ns=True, fwd_rate=.5, d_bias='D'),
    'cxx11': dict(std='-std=c++14', kinds=[
        k for k in world.CXX_KINDS if k != 'concept'], fwd_rate=.4),
    'c': dict(lang='c', pair_rate=0, kinds=gen.C_KINDS, std='-std=c11'),
}


def key_of(w, label, i, bad):
    return 'world:%s:%s' % (label, i)


def batch(c, binary, label, n, profiles, cats, extra=(), after=None):
    """Generate, analyse and judge n worlds spread over profiles."""
    names = list(profiles)

    def one(i):
        prof = names[i % len(names)]
        r = core.rng('world', label, prof, i)
        w = world.World(r, world.Opts(**PROFILES[prof]))
        o = world.analyse(binary, w, extra)
        return prof, i, w, o
    for prof, i, w, o in core.pmap(one, range(n)):
        if o.error == 'timeout':
            c.maybe('timeout %s %d' % (prof, i))
            continue
        bad = world.judge(w, o)
        c.count('worlds')
        c.count('uses', len(w.uses))
        c.count('definition_uses', sum(1 for u in w.uses if u[2] == 'F'))
        c.count('reports', len(o.reports or ()))
        c.count('suggested_forward_declarations', len(w.fwd_truth))
        c.case(key=w.signature(),
               sample='%s world %d: %d headers, uses %s' % (
                   prof, i, len(w.headers),
                   ['%s/%s' % (e.kind, u) for e, u, _ in w.uses][:8]))
        hit = [(k, t) for k, t in bad if k in cats]
        if hit:
            c.violation('world:%s:%s:%d' % (label, prof, i), '\n'.join(
                '%s: %s' % b for b in hit), tree=o.dir, cmd=o.cmd,
                files={'output.txt': o.res.text})
        elif after and not bad:
            after(c, w, o, 'world:%s:%s:%d' % (label, prof, i))
        core.rmtree(o.dir)


def snippets(c, binary, label, cats, needs='FD', per=1):
    """Every use snippet on its own, in random context, via an umbrella."""
    jobs = []
    for kind in sorted(gen.USES):
        for use in gen.USES[kind]:
            if use[3] in needs:
                for k in range(per):
                    jobs.append((kind, use, k))

    def one(j):
        kind, use, k = j
        r = core.rng('snip', label, kind, use[0], k)
        isc = kind.startswith('c_')
        w = world.World(r, world.Opts(
            lang='c' if isc else 'c++', kinds=[kind], n_headers=(1, 3),
            n_uses=(1, 1), pair_rate=0, style='umbrella', only=use[0],
            fwd_rate=0 if use[3] == 'F' else .3, assoc=0 if isc else .15,
            std='-std=c11' if isc else '-std=c++20'))
        return j, w, world.analyse(binary, w)
    for (kind, use, k), w, o in core.pmap(one, jobs):
        if o.error == 'timeout':
            c.maybe('timeout snippet %s/%s' % (kind, use[0]))
            continue
        bad = world.judge(w, o)
        c.count('single_snippets')
        c.case(key=('snippet', kind, use[0]))
        hit = [(a, t) for a, t in bad if a in cats]
        if hit:
            c.violation('snippet:%s/%s' % (kind, use[0]), '\n'.join(
                '%s: %s' % b for b in hit), tree=o.dir, cmd=o.cmd,
                files={'output.txt': o.res.text})
        core.rmtree(o.dir)
