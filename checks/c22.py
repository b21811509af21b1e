#!/usr/bin/env python3
"""C22: fixing reaches the reported full list, once; reports combine."""
import os
import re
import sys

import _path  # noqa: F401
from vf import build, core, fixgen, pyrun, report, world, worldcheck

FIXER = os.path.join(core.REPO, 'fix_includes.py')
NO = '--nosafe_headers'
FIX = [[], ['--reorder'], ['--comments'], ['--noblank_lines'],
       ['--keep_iwyu_namespace_format'], ['--update_comments'],
       ['--quoted_includes_first', '--reorder'], ['--comments', '--reorder']]
ANALYSE = [[], [], ['--max_line_length=40'], ['--quoted_includes_first'],
           ['--comment_style=long'], ['--verbose=2'], ['--verbose=3'],
           ['--no_fwd_decls'], ['--update_comments'], ['--no_default_mappings']]
INC = re.compile(r'(?m)^[ \t]*#[ \t]*include[ \t]*([<"][^">\n]+[>"])')


def includes(text):
    return INC.findall(re.sub(r'(?s)/\*.*?\*/', '', text))


def read(d, n):
    with open(os.path.join(d, n), newline='', encoding='utf-8') as f:
        return f.read()


def fix(d, opts, text):
    return core.run([sys.executable, '-B', FIXER, NO] + opts, cwd=d,
                    stdin=text.encode(), timeout=120)


def squeeze(s):
    return re.sub(r'\s+', '', s)


def step(b, d, w, cmd, fopts, first, stats):
    """One analyse/fix/compile/analyse/fix round: a problem or None."""
    want = {}
    for rep in first.reports:
        if not rep.correct:
            want[rep.filename] = rep
    names = [r.filename for r in first.reports]
    before = {n: read(d, n) for n in w.files}
    f = fix(d, fopts, first.res.text)
    if f.timeout:
        return 'timeout'
    if f.rc or 'ERROR' in f.text or 'Traceback' in f.text:
        return 'the fixer failed (exit %s):\n%s' % (f.rc, f.text[-900:])
    after = {n: read(d, n) for n in w.files}
    for n in w.files:
        if n not in want and before[n] != after[n] and not (
                '--update_comments' in fopts and n in names):
            return '%s changed although nothing was asked of it' % n
    for n, rep in want.items():
        stats['edited'] += 1
        stats['adds'] += len(rep.adds)
        stats['removes'] += len(rep.removes)
        got, exp = sorted(includes(after[n])), sorted(rep.includes())
        if got != exp:
            return '%s holds %s instead of the full list %s' % (n, got, exp)
        flat = squeeze(re.sub(r'//[^\n]*|(?s:/\*.*?\*/)', '', after[n]))
        for l in rep.fwds():
            core_decl = re.sub(r'^.*\{|\}[ }]*$', '', l).strip()
            if flat.count(squeeze(core_decl)) < 1:
                return '%s lacks the declaration %s' % (n, l)
    c = core.run([core.CLANG, '-fsyntax-only', '-w'] + plain(w.args) +
                 [w.main], cwd=d)
    if c.timeout:
        return 'timeout'
    if c.rc:
        return 'the fixed program does not compile:\n' + c.text[:1200]
    r2 = core.run(cmd, cwd=d)
    if r2.timeout:
        return 'timeout'
    try:
        reps = report.parse(r2.text)
    except report.ParseError as e:
        return 'second report: %s' % e
    if r2.rc or any(x.adds or x.removes for x in reps) or not reps:
        return 'analysed again it is not correct:\n' + r2.text[:1500]
    f2 = fix(d, [o for o in fopts if o != '--update_comments'], r2.text)
    if f2.timeout:
        return 'timeout'
    for n in w.files:
        if read(d, n) != after[n]:
            return 'fixing again changes ' + n
    return None


def plain(args):
    out, skip = [], False
    for a in args:
        if skip:
            skip = False
        elif a == '-Xiwyu':
            skip = True
        else:
            out.append(a)
    return out


def disturb(r, d, w):
    """A user's next edits: superfluous and repeated includes and
    declarations, dropped includes."""
    p = os.path.join(d, w.target)
    lines = read(d, w.target).split('\n')
    at = [i for i, l in enumerate(lines) if INC.match(l)]
    did = 0
    for _ in range(r.randint(1, 3)):
        k = r.random()
        pos = r.choice(at) if at else None
        if pos is None:
            return 0
        if k < .5:
            h = r.choice(w.headers)
            lines.insert(pos, '#include %s' % h.spelling)
        elif k < .7:
            lines.insert(pos, lines[r.choice(at)])
        else:
            lines.insert(pos, 'class Zz%d;' % r.randint(1, 9)
                         if w.o.lang != 'c' else 'struct Zz%d;' %
                         r.randint(1, 9))
        at = [i for i, l in enumerate(lines) if INC.match(l)]
        did += 1
    open(p, 'w', encoding='utf-8').write('\n'.join(lines))
    return did


def closed_loop(c, b):
    profs = ['plain', 'forward', 'assoc', 'direct', 'bulky', 'ns17', 'cxx11',
             'c', 'lean']

    def one(i):
        prof = profs[i % len(profs)]
        r = core.rng('c22', prof, i)
        w = world.World(r, world.Opts(fixable=True,
                                      **worldcheck.PROFILES[prof]))
        v, fo = r.choice(ANALYSE), r.choice(FIX)
        d = core.newdir('l')
        w.write(d)
        stats = {'edited': 0, 'adds': 0, 'removes': 0, 'rounds': 0}
        why = None
        for k in range(r.choice([1, 1, 2, 3])):
            if k and not disturb(r, d, w):
                break
            o = world.analyse(b, w, [x for y in v for x in ('-Xiwyu', y)], d)
            if o.error:
                why = o.error
                break
            stats['rounds'] += 1
            why = step(b, d, w, o.cmd, fo, o, stats)
            if why:
                break
        return i, prof, v, fo, w, d, why, stats
    for i, prof, v, fo, w, d, why, stats in core.pmap(
            one, range(core.n_cases(450, 9000))):
        key = 'world:%s:%d' % (prof, i)
        if why == 'timeout':
            c.maybe('timeout ' + key)
        else:
            c.count('histories')
            for k, n in stats.items():
                c.count(k, n)
            c.case(key=(w.signature(), tuple(v), tuple(fo))
                   if stats['edited'] else None,
                   sample='%s: iwyu %s, fixer %s, %d rounds' % (
                       key, v, fo, stats['rounds']))
            if why:
                c.violation(key, '%s\niwyu %s, fixer %s' % (why, v, fo),
                            tree=d)
        core.rmtree(d)


def merge_one(i):
    """Several reports about one file."""
    r = core.rng('c22m', i)
    f = fixgen.File(r, r.choice(['foo.h', 'foo.cc', 'x/foo.hpp']))
    other = fixgen.File(r, 'other.h')
    n = r.choice([2, 2, 2, 3, 4])
    views, pool_i, pool_f = [], [], []
    for _ in range(n):
        f.decide(r.choice([.3, .6, .9]), 0)
        ai = f.adds_inc + [k for k in pool_i if r.random() < .4]
        af = f.adds_fwd + [k for k in pool_f if r.random() < .4]
        pool_i += f.adds_inc
        pool_f += f.adds_fwd
        f.adds_inc, f.adds_fwd = ai, af
        rem = {id(u) for u in f.units if u.remove}
        if r.random() < .15:         # a run that finds the file correct
            f.adds_inc, f.adds_fwd, rem = [], [], set()
            for u in f.units:
                u.remove = False
        views.append((rem, list(f.adds_inc), list(f.adds_fwd), f.report()))
    all_i, all_f = [], []
    for _, ai, af, _ in views:
        all_i += [k for k in ai if k not in all_i]
        all_f += [k for k in af if k not in all_f]
    common = set.intersection(*[v[0] for v in views])
    for u in f.units:
        u.remove = id(u) in common
    f.adds_inc, f.adds_fwd = all_i, all_f
    f.full_of = {}
    other.decide(.5, 0)
    orep = other.report()
    parts = [v[3] for v in views]
    parts.insert(r.randint(0, len(parts)), orep)
    opts = [NO] + r.choice([[], ['--reorder'], ['--noblank_lines'],
                            ['--keep_iwyu_namespace_format']])
    d = pyrun.workdir('merge')
    core.write_tree(d, {f.name: f.text, other.name: other.text})
    res = pyrun.call(FIXER, opts, ''.join(parts), d)
    after, oafter = read(d, f.name), read(d, other.name)
    bad = []
    if res.error or 'ERROR' in res.out:
        bad.append('the fixer failed: ' + (res.error or res.out)[-500:])
    elif f.text:
        if not common and not all_i and not all_f:
            maybe, gone = set(), []
            for l in f.ls:
                l.dead = False
        else:
            maybe, gone = f.expectation(False)
        bad += fixgen.judge(f, f.text, after, opts, maybe, gone)
    # Applying a report without content changes nothing.
    t = [read(d, f.name), read(d, other.name)]
    res = pyrun.call(FIXER, opts, '\n(%s has correct #includes/fwd-decls)\n'
                     '\n%s should add these lines:\n\n%s should remove these '
                     'lines:\n\nThe full include-list for %s:\n---\n' % (
                         f.name, other.name, other.name, other.name), d)
    if t != [read(d, f.name), read(d, other.name)] or res.error:
        bad.append('a report without content changes the file')
    dump = {'before.txt': f.text, 'report.txt': ''.join(parts),
            'after.txt': after} if bad else None
    return i, opts, bad, dump, len(common), len(all_i) + len(all_f), n


def merging(c):
    n = core.n_cases(12000, 300000)
    for i, opts, bad, dump, k, a, reports in pyrun.pmap(
            merge_one, range(n), 32):
        c.count('merges')
        c.count('reports_merged', reports)
        c.count('common_removals', k)
        c.count('united_additions', a)
        c.case(key=('merge', i) if k or a else None)
        if bad:
            c.violation('merge:%d' % i, '\n'.join(bad), files=dump,
                        cmd='fix_includes.py ' + ' '.join(opts))


def main():
    c = core.Check('C22', 'distinct by program and options of both tools; '
                   'non-trivial when the fixer edited a file')
    c.assumptions = ['include layouts the fixer documents; the installed '
                     'clang 20 decides what compiles']
    b = build.iwyu('rel')
    closed_loop(c, b)
    merging(c)
    c.finish()


if __name__ == '__main__':
    core.main(main)
