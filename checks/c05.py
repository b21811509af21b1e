#!/usr/bin/env python3
"""C05: every report is consistent with itself and with its source file."""
import os

import _path  # noqa: F401
from vf import build, consistency, core, corpus, report, world, worldcheck


def inspect(c, reports, root, key, tree, cmd, out, **kw):
    bad = consistency.one_report_each(reports)
    for rep in reports:
        p = os.path.join(root, rep.filename)
        try:
            text = open(p, encoding='utf-8', errors='surrogateescape').read()
        except OSError:
            bad.append('report about a file that is not there: ' +
                       rep.filename)
            continue
        c.count('reports_checked')
        c.count('lines_checked', len(rep.adds) + len(rep.removes) +
                len(rep.full))
        c.count('line_ranges_checked', sum(1 for l in rep.removes + rep.full
                                           if l.span))
        bad += ['%s: %s' % (rep.filename, b) for b in consistency.check(
            rep, text, **kw.get(rep.filename, kw.get('default', {})))]
    if bad:
        c.violation(key, '\n'.join(bad), tree=tree, cmd=cmd,
                    files={'output.txt': out})
    return not bad


def main():
    c = core.Check('C05', 'a run is non-trivial when it printed a parsable '
                   'report; distinct by program, options')
    b = build.iwyu('rel')
    variants = [
        [], ['--verbose=2'], ['--check_also=*'], ['--no_comments'],
        ['--comment_style=long'], ['--quoted_includes_first'],
        ['--verbose=3'], ['--max_line_length=40'], ['--update_comments'],
        ['--check_also=*/*.h', '--verbose=1'], ['--no_fwd_decls'],
        ['--cxx17ns'], ['--transitive_includes_only']]
    profs = ['plain', 'direct', 'lean', 'assoc', 'forward', 'bulky', 'c']

    def one(i):
        prof = profs[i % len(profs)]
        w = world.World(core.rng('c05', prof, i),
                        world.Opts(fwd_rate=.7, **{
                            k: v for k, v in worldcheck.PROFILES[prof].items()
                            if k != 'fwd_rate'}))
        v = variants[(i // len(profs)) % len(variants)]
        extra = [x for o in v for x in ('-Xiwyu', o)]
        return i, prof, v, w, world.analyse(b, w, extra)
    for i, prof, v, w, o in core.pmap(one, range(core.n_cases(1400, 16000))):
        if o.error == 'timeout':
            c.maybe('timeout %s' % i)
            continue
        key = 'world:%s:%d:%s' % (prof, i, ','.join(v))
        if o.error:
            c.violation(key, o.error, tree=o.dir, cmd=o.cmd,
                        files={'output.txt': o.res.text})
            continue
        c.case(key=(w.signature(), tuple(v)),
               sample='%s: %d reports' % (key, len(o.reports)))
        main_kw = dict(active=w.present_incs,
                       quoted_first='--quoted_includes_first' in v)
        plain = '--no_comments' not in v and '--update_comments' not in v \
            and '--no_fwd_decls' not in v
        if plain:
            main_kw['known_fwds'] = [e.fwd('--cxx17ns' in v or w.o.cxx17ns)
                                     for e in w.present_fwds]
        kw = {w.target: main_kw,
              'default': dict(quoted_first='--quoted_includes_first' in v)}
        if w.assoc:
            inc = '"%s"' % w.target
            kw[w.main] = dict(active=[inc], front=[inc],
                              quoted_first='--quoted_includes_first' in v)
        if '--update_comments' in v or '--no_comments' in v:
            # These formats drop or add comment text; the arithmetic stays.
            for k in kw.values():
                k['loose'] = True
        inspect(c, o.reports, o.dir, key, o.dir, o.cmd, o.res.text, **kw)
        core.rmtree(o.dir)

    # The repository's own programs: arbitrary layouts, all verbosity levels.
    corpus.util(b)
    progs = [p for p in corpus.programs() if '/driver/' not in p]

    def prog(f):
        return f, corpus.run_one(b, f)
    cats = {'order', 'spans', 'adds', 'scope', 'text', 'crash'}
    for f, r in core.pmap(prog, progs):
        if r.skipped or 'timeout' in r.cats:
            continue
        c.count('corpus_programs')
        hit = {k: v for k, v in r.cats.items() if k in cats}
        if hit:
            c.violation('corpus:' + f, '%s' % hit, cmd=r.cmd,
                        files={'output.txt': r.text})
        try:
            reps = report.parse(r.text)
        except report.ParseError as e:
            c.violation('corpus:' + f, 'unparsable: %s' % e, cmd=r.cmd,
                        files={'output.txt': r.text})
            continue
        c.case(key=('corpus', f))
        front = {i for rep in reps for s in ('full', 'adds', 'removes')
                 for i in rep.includes(s)[:3]}
        inspect(c, reps, core.REPO, 'corpus:' + f, None, r.cmd, r.text,
                default=dict(front=front, quoted_first='quoted_first' in
                             ' '.join(r.cmd), conserve=False,
                             loose='_comments' in ' '.join(r.cmd)))
    c.finish()


if __name__ == "__main__":
    core.main(main)
