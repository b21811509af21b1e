#!/usr/bin/env python3
"""C17: why-comments are true and fit the requested format."""
import re

import _path  # noqa: F401
from vf import build, core, report, world, worldcheck

X = '-Xiwyu'
PTR = ' (ptr only)'


def opts(*names):
    return [w for n in names for w in (X, n)]


def text_of(w, rep):
    return w.files[rep.filename].split('\n')


def code(rep):
    return ([l.code for l in rep.adds], [l.code for l in rep.removes],
            [l.code for l in rep.full])


def names_entity(s, e):
    """Whether the printed symbol is the entity or a part of it."""
    return re.search(r'(?<![A-Za-z0-9])(?:k|hidden|kInner|_)?%s[AB]?(?!\w)' %
                     re.escape(e.name), s) is not None


def truth(w, rep, styled):
    """Complaints about the untruncated comments of one report."""
    bad = []
    by = {}
    for e, i, n in w.uses:
        by.setdefault(e, []).append(n)
    for l in rep.full:
        if not l.include:
            if l.symbols:
                bad.append('declaration with a list of symbols: ' + l.raw)
            continue
        es = [e for e in by if e.header.spelling == l.include]
        syms = l.symbols
        if syms is None:
            if es:
                bad.append('no comment on %s, which provides %s' % (
                    l.code, [e.qn for e in es]))
            continue
        if len(set(syms)) != len(syms) or len({
                s.replace(PTR, '') for s in syms}) != len(syms):
            bad.append('symbol named twice: ' + l.raw)
        for s in syms:
            ptr, t = s.endswith(PTR), s.replace(PTR, '')
            m = [e for e in es if names_entity(t, e)]
            if not m:
                bad.append('%s is not used from %s' % (s, l.include))
                continue
            e = m[0]
            # A friend found by argument lookup needs the definition and is
            # named itself.
            if ptr and 'F' in by[e] and not any(
                    u.endswith('hidden' + e.name) for u in syms):
                bad.append('%s but its definition is used' % s)
            if not ptr and 'F' not in by[e]:
                bad.append('%s but only a declaration is used' % s)
            if styled == 'short' and '::' in t:
                bad.append('qualified name in a short comment: ' + l.raw)
            if styled == 'long' and e.ns and e.kind not in (
                    'macro', 'fmacro') and \
                    not t.startswith('::'.join(e.ns) + '::'):
                bad.append('unqualified name %s of %s in a long comment' % (
                    t, e.qn))
        for e in es:
            if not any(names_entity(s, e) for s in syms):
                bad.append('%s is used (%s) but not named in %s' % (
                    e.qn, by[e], l.raw))
    lines = text_of(w, rep)
    for l in rep.removes:
        if not l.span:
            bad.append('no line numbers: ' + l.raw)
            continue
        a, b = l.span
        got = '\n'.join(lines[a - 1:b])
        want = l.include[1:-1] if l.include else re.findall(
            r'\w+', re.sub(r' : .*', '', l.code))[-1]
        if not 1 <= a <= b <= len(lines) or want not in got:
            bad.append('%s is not on these lines: %r' % (l.raw, got[:200]))
    for l in rep.adds:
        if l.span:
            bad.append('line numbers on an addition: ' + l.raw)
    return bad


def width(plain, cut, limit, col):
    """Complaints about comments cut to a width; plain: the uncut ones."""
    bad = []
    for a, b in zip(plain, cut):
        if not a.symbols:
            continue
        full = ', '.join(a.symbols)
        if not b.symbols:
            # Nothing of the first symbol fits behind the longest line.
            if col + len('  // for ') + min(6, len(a.symbols[0])) < limit:
                bad.append('comment left out though there is room: %r' % b.raw)
            if b.comment:
                bad.append('strange comment: %r' % b.raw)
            continue
        m = re.match(r'(.*?\S)(  +)// for (.*)$', b.raw)
        if not m:
            bad.append('strange comment: %r' % b.raw)
            continue
        head = len(m.group(1) + m.group(2)) + len('// for ')
        shown = m.group(3)
        if len(b.raw) > limit:
            bad.append('%d columns, limit %d: %r' % (len(b.raw), limit, b.raw))
        if shown == full:
            continue
        if head + len(full) < limit:
            bad.append('cut though all of it fits: %r (%s)' % (b.raw, full))
        core_ = shown[:-3] if shown.endswith('...') else shown
        if not full.startswith(core_):
            bad.append('not a beginning of %r: %r' % (full, b.raw))
        elif not shown.endswith('...') and (
                full[len(shown):len(shown) + 2] != ', ' or
                limit - 1 - len(b.raw) - 2 > 5):
            bad.append('cut too early: %r of %r' % (b.raw, full))
    return bad


def judge_world(c, binary, w, o, key):
    r = core.rng('c17', key)
    runs = {}
    limit = r.choice([10, 20, 25, 30, 36, 40, 44, 50, 60, 70, 100, 120])
    variants = {
        'short': ['--verbose=3', '--update_comments'],
        'long': ['--verbose=3', '--update_comments', '--comment_style=long'],
        'default': [],
        'none': r.choice([['--comment_style=none'], ['--no_comments'],
                          ['--no_comments', '--update_comments'],
                          ['--no_comments', '--verbose=3'],
                          ['--comment_style=none', '--comment_style=none']]),
        'cut': ['--update_comments', '--max_line_length=%d' % limit] + r.choice(
            [[], ['--verbose=2'], ['--comment_style=short']]),
        'cutlong': ['--update_comments', '--comment_style=long',
                    '--max_line_length=%d' % limit],
        'wide': ['--update_comments', '--max_line_length=100000'],
    }
    bad = []
    for name, extra in variants.items():
        x = world.analyse(binary, w, opts(*extra), d=o.dir)
        if x.error:
            if x.error == 'timeout':
                c.maybe(key)
                return
            bad.append('%s: %s' % (name, x.error))
            continue
        runs[name] = {rep.filename: rep for rep in x.reports}
    base = runs.get('short')
    if base and not bad:
        for name, reps in runs.items():
            if sorted(reps) != sorted(base):
                bad.append('%s: reports on other files' % name)
                continue
            for f, rep in reps.items():
                ref = base[f]
                upd = '--update_comments' in variants[name]
                if rep.correct and (upd or ref.adds or ref.removes):
                    bad.append('%s: %s reported correct' % (name, f))
                elif not rep.correct and not upd and not (
                        ref.adds or ref.removes):
                    bad.append('%s: %s not reported correct' % (name, f))
                elif not rep.correct and code(rep) != code(ref):
                    bad.append('%s changes more than comments of %s' % (
                        name, f))
                elif name == 'none':
                    bad += ['comment without being asked: ' + l.raw
                            for l in rep.adds + rep.removes + rep.full
                            if l.comment]
        for f, rep in base.items():
            main = w.assoc and f == w.main
            for style in ('short', 'long'):
                if style not in runs or f not in runs[style]:
                    continue
                x = runs[style][f]
                if main:
                    if any(l.symbols for l in x.full):
                        bad.append('comment on the associated include: %s' %
                                   [l.raw for l in x.full])
                    continue
                bad += truth(w, x, style)
                c.count('%s comments judged' % style,
                        sum(1 for l in x.full if l.symbols))
                c.count('symbols judged',
                        sum(len(l.symbols or ()) for l in x.full))
            if main:
                continue
            for name, ref, lim in (('cut', 'short', limit),
                                   ('cutlong', 'long', limit),
                                   ('wide', 'short', 100000)):
                a, b = runs[ref][f], runs[name][f]
                col = max([len(l.code) for l in a.full if l.symbols] or [0])
                for s in ('adds', 'full'):
                    one, two = getattr(a, s), getattr(b, s)
                    if len(one) == len(two):
                        bad += width(one, two, lim, col)
                c.count('cut comments judged',
                        sum(1 for l in b.full if l.symbols))
            for l in runs['long'][f].full:
                for m in runs['short'][f].full:
                    if l.code == m.code and l.symbols and m.symbols and \
                            {re.sub(r'^.*::', '', s) for s in l.symbols} != \
                            set(m.symbols):
                        bad.append('styles name different symbols: %s / %s' % (
                            l.raw, m.raw))
    if bad:
        c.violation(key, '\n'.join(bad[:20]), tree=o.dir, cmd=o.cmd)


def body():
    c = core.Check('C17', 'one program analysed with seven comment settings '
                   'whose comments name at least one symbol')
    binary = build.iwyu()

    def after(c, w, o, key):
        judge_world(c, binary, w, o, key)
    n = core.n_cases(500, 30000)
    prof = dict(worldcheck.PROFILES)
    worldcheck.batch(c, binary, 'c17', n, prof, (), after=after)
    c.finish()


if __name__ == '__main__':
    core.main(body)
