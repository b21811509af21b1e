"""Random header trees with random mappings, and what a run must say about them."""
import os
import re

from . import core, mapping, report

KINDS = ('var', 'func', 'class', 'macro', 'typedef', 'nsfunc', 'tmpl')


class Sym(object):
    def __init__(self, n, kind, home):
        self.n, self.kind, self.homes = n, kind, [home]
        self.name = {'var': 'v%d', 'func': 'f%d', 'class': 'K%d',
                     'macro': 'M%d', 'typedef': 'T%d', 'nsfunc': 'n%d::g%d',
                     'tmpl': 't%d'}[kind] % ((n, n) if kind == 'nsfunc' else n)

    def decl(self):
        n = self.n
        return {'var': 'extern int v%d;', 'func': 'int f%d();',
                'class': 'class K%d { int x; };', 'macro': '#define M%d 1',
                'typedef': 'typedef int T%d;',
                'nsfunc': 'namespace n%d { int g%d(); }',
                'tmpl': 'template <class T> T t%d(T t) { return t; }'
                }[self.kind] % ((n, n) if self.kind == 'nsfunc' else n)

    def use(self, tag):
        n = self.n
        return {'var': 'inline int u%s() { return v%d; }',
                'func': 'inline int u%s() { return f%d(); }',
                'class': 'inline int u%s() { K%d k; return sizeof(k); }',
                'macro': 'inline int u%s() { return M%d; }',
                'typedef': 'inline int u%s() { T%d t = 1; return t; }',
                'nsfunc': 'inline int u%s() { return n%d::g%d(); }',
                'tmpl': 'inline int u%s() { return t%d(1); }'
                }[self.kind] % (('%s_%d' % (tag, n),) +
                                ((n, n) if self.kind == 'nsfunc' else (n,)))


def path(q):
    return ('sys/' if q[0] == '<' else 'usr/') + q[1:-1]


class World(object):
    def __init__(self, r):
        self.r = r
        self.dialect = r.choice(('llvm', 'llvm', 'ecmascript'))
        self.defaults = r.random() < .3
        n = r.randint(3, 12)
        self.headers = []
        stems = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'api', 'all', 'x.y']
        r.shuffle(stems)
        for i in range(n):
            d = r.choice(('lib/', 'lib/detail/', 'lib/impl/', 'prj/',
                          'prj/detail/', 'dep/', ''))
            s = r.choice(stems) + r.choice(('', '_impl', '_fwd')) + \
                r.choice(('.h', '.h', '.hpp', ''))
            if not d:
                s = 'z' + s
            q = ('<%s>' if d.startswith('lib') or r.random() < .3
                 else '"%s"') % (d + s)
            if path(q) not in map(path, self.headers) and \
                    q[1:-1] not in [h[1:-1] for h in self.headers]:
                self.headers.append(q)
        # Includes go from earlier to later headers.
        self.inc = {h: [] for h in self.headers}
        hs = self.headers
        for i, h in enumerate(hs):
            for t in hs[i + 1:]:
                if r.random() < min(.5, 2.0 / len(hs)):
                    self.inc[h].append(t)
        self.syms = []
        for h in hs:
            for _ in range(r.choice((1, 1, 1, 2))):
                self.syms.append(Sym(len(self.syms), r.choice(KINDS), h))
        for s in self.syms:
            if s.kind in ('func', 'nsfunc', 'var') and r.random() < .1:
                h = r.choice(hs)
                if h not in s.homes:
                    s.homes.append(h)
        self.mh = r.random() < .35
        self.entries = self.make_entries()
        self.seen = hs + ['"vf_all.h"'] + (['"m.h"'] if self.mh else [])
        self.model = mapping.Model(self.entries, self.seen)
        self.direct = {'m.cc': r.sample(hs, r.randint(0, min(5, len(hs))))}
        self.uses = {'m.cc': r.sample(self.syms, r.randint(
            1, min(len(self.syms), r.choice((2, 4, 20)))))}
        if self.mh:
            self.direct['m.h'] = r.sample(hs, r.randint(0, min(4, len(hs))))
            self.uses['m.h'] = r.sample(self.syms, r.randint(
                0, min(len(self.syms), 4)))

    def make_entries(self):
        r, hs = self.r, self.headers
        extra = ['<fac/%s.h>' % c for c in 'pqrs'] + ['"fac/t.h"', '<facade>']
        nodes = hs + r.sample(extra, r.randint(1, len(extra)))
        if self.mh:
            nodes = nodes + ['"m.h"']
        vis = {}
        for h in nodes:
            vis[h] = r.choice(('private', 'public')) if h not in extra or \
                r.random() < .2 else 'public'
        vis['"m.h"'] = 'public'
        res = []
        shape = r.choice(('random', 'chain', 'star', 'cycle', 'dense', 'few',
                          'choices', 'choices'))
        if shape == 'choices':
            # Details with several facades, some of which are real headers.
            fac = r.sample(nodes, max(2, len(nodes) // 2))
            for h in fac:
                vis[h] = 'public'
            for h in nodes:
                if h not in fac:
                    vis[h] = 'private' if r.random() < .8 else 'public'
                    for t in r.sample(fac, min(len(fac), r.randint(1, 4))):
                        res.append((h, t))
        if shape == 'chain':
            c = r.sample(nodes, r.randint(2, len(nodes)))
            res += [(a, b) for a, b in zip(c, c[1:])]
        elif shape == 'cycle':
            c = r.sample(nodes, r.randint(2, min(6, len(nodes))))
            res += [(a, b) for a, b in zip(c, c[1:] + c[:1])]
            res.append((r.choice(c), r.choice(nodes)))
        elif shape == 'star':
            t = r.choice(nodes)
            res += [(a, t) for a in nodes if a != t and r.random() < .7]
        k = {'dense': 3 * len(nodes), 'few': 2, 'random': len(nodes)}.get(
            shape, 0 if shape == 'choices' else r.randint(0, 4))
        for _ in range(k):
            a, b = r.choice(nodes), r.choice(nodes)
            if a != b:
                res.append((a, b))
        ent = [('include', [a, vis[a], b, vis[b]]) for a, b in res]
        for _ in range(r.choice((0, 0, 1, 2, 3))):
            p = self.pattern(nodes, vis)
            ent.append(p)
        for s in self.syms:
            if r.random() < .15:
                for _ in range(r.choice((1, 1, 2))):
                    t = r.choice(nodes)
                    ent.append(('symbol', [s.name, 'private', t, vis[t]]))
        r.shuffle(ent)
        return ent

    def pattern(self, nodes, vis):
        """A wildcard entry; what it matches is private through it alone."""
        r = self.r
        d = r.choice(('lib/detail', 'lib/impl', 'prj/detail', 'lib', 'dep'))
        ref = '\\1' if self.dialect == 'llvm' else '$1'
        fac = r.choice(('<fac/z.h>', '"fac/z.h"'))
        forms = [('<%s/.*>' % d, fac),
                 ('"%s/.*"' % d, fac),
                 ('["<]%s/.*[">]' % d, fac),
                 ('^<%s/.*>$' % d, fac),
                 ('<%s/([a-z]+)_impl\\.h>' % d, '<fac/%s.h>' % ref),
                 ('"%s/(.*)"' % d, '<fac/%s>' % ref),
                 ('<%s/[^/]*\\.hpp>' % d, fac),
                 ('<%s/(a|b|c|api)\\.h>' % d, '<fac/%s.h>' % ref),
                 ('<%s/(a|b|c|api)(\\.h|_impl\\.h)>' % d, '<fac/%s>' % ref),
                 ('<%s/.*\\.h>|"%s/.*\\.h"' % (d, d), fac),
                 ('<%s/[a-d]' % d, fac),
                 ('%s/.*' % d, fac)]
        if self.dialect == 'ecmascript':
            forms.append(('<%s/(?!a).*>' % d, fac))
        rx, t = r.choice(forms)
        if r.random() < .2:
            # A facade that the pattern matches, too.
            rx = r.choice(('<%s/.*>' % d, '"%s/.*"' % d, '<lib/.*>', '.*'))
            m = [h for h in nodes if re.fullmatch(rx, h) and
                 vis[h] == 'public']
            t = r.choice(m) if m else fac
        v = r.choice(('private', 'private', 'private', 'public'))
        # One visibility for all patterns, so that it is clear which counts.
        self.pattern_vis = getattr(self, 'pattern_vis', v)
        if r.random() < .5 and getattr(self, 'last', None):
            rx, t = self.last, r.choice(nodes + [fac])
            if vis.get(t, 'public') != 'public':
                t = fac
        self.last, v = rx, self.pattern_vis
        return ('include', ['@' + rx, v, t, 'public'])

    def files(self):
        fs = {}
        for h in self.headers:
            g = 'G%d' % self.headers.index(h)
            fs[path(h)] = '#ifndef %s\n#define %s\n' % (g, g) + \
                ''.join('#include %s\n' % t for t in self.inc[h]) + \
                ''.join(s.decl() + '\n' for s in self.syms if h in s.homes) + \
                '#endif\n'
        fs['usr/vf_all.h'] = ''.join('#include %s\n' % h
                                     for h in self.headers)
        if self.mh:
            fs['m.h'] = '#include "vf_all.h"\n' + ''.join(
                '#include %s\n' % h for h in self.direct['m.h']) + '\n' + \
                ''.join(s.use('h') + '\n' for s in self.uses['m.h'])
        fs['m.cc'] = ('#include "m.h"\n' if self.mh else '') + \
            '#include "vf_all.h"\n' + ''.join(
                '#include %s\n' % h for h in self.direct['m.cc']) + '\n' + \
            ''.join(s.use('c') + '\n' for s in self.uses['m.cc'])
        return fs

    def cands(self, s):
        """Acceptable headers for a use of s, best first, and whether the
        order is meaningful."""
        res = self.model.symbol(s.name)
        if res:
            return res, len(self.model.symbols[s.name]) == 1
        for h in s.homes:
            res += [x for x in self.model.headers(h) if x not in res]
        return res, len(s.homes) == 1


def judge(w, reports, say):
    """Compare the reports with the model; say(kind, text) for each deviation.
    Returns the number of uses judged by what decided them."""
    seen = {}
    kept_h = []
    for f in (('m.h', 'm.cc') if w.mh else ('m.cc',)):
        rep = [x for x in reports if x.filename == f]
        if len(rep) != 1:
            say('report', '%d reports for %s' % (len(rep), f))
            return seen
        rep = rep[0]
        direct = w.direct[f] + ['"vf_all.h"'] + (
            ['"m.h"'] if w.mh and f == 'm.cc' else [])
        where = {}
        full = rep.includes() if not rep.correct else direct
        if rep.correct:
            where = None
        else:
            for l in rep.full:
                for s in l.symbols or []:
                    where.setdefault(s, []).append(l.include)
        adds = rep.includes('adds')
        cands = {s: w.cands(s)[0] for s in w.uses[f]}
        att = {}
        for s in w.uses[f]:
            c = cands[s]
            self_ok = '"%s"' % f in c
            ok = set(c)
            if self_ok:
                ok |= {h for h in s.homes if h in direct}
            if f == 'm.cc':
                via = (set(kept_h) | {'"m.h"'}) & set(c)
            else:
                via = set()
            if where is None:
                if not ok & set(full) and not via and not self_ok:
                    say('uncovered', '%s: %s is called correct although '
                        'nothing covers %s; acceptable: %s' % (
                            f, f, s.name, sorted(ok)))
                seen['correct'] = seen.get('correct', 0) + 1
                continue
            got = where.get(s.name, [])
            if not got:
                if not self_ok and not via:
                    say('uncovered', '%s: nothing is included for %s; '
                        'acceptable: %s' % (f, s.name, sorted(ok)))
                seen['self or associated'] = \
                    seen.get('self or associated', 0) + 1
                continue
            for g in got:
                if g not in ok:
                    say('unacceptable', '%s: %s is included for %s; '
                        'acceptable: %s' % (f, g, s.name, sorted(ok)))
            if w.model.symbol(s.name):
                k = 'symbol mapping'
            elif c[0] in s.homes:
                k = 'home header' if len(c) == 1 else 'home or mapped'
            else:
                k = 'mapped'
            seen[k] = seen.get(k, 0) + 1
            if len(got) == 1 and not self_ok:
                att[s] = got[0]
        # Preferences.
        plain = {s for s in att if len(s.homes) == 1}
        only = {cands[s][0] for s in plain if len(cands[s]) == 1}
        only |= set(getattr(w, 'keep', ())) & set(direct)
        have = set(direct) | set(kept_h if f == 'm.cc' else [])
        selfs = {s for s in w.uses[f] if s not in plain}
        for x in adds:
            mine = [s for s in plain if att[s] == x]
            others = [s for s in selfs if x in cands[s] or x in s.homes]
            if mine and not others and all(
                    set(cands[s]) & have for s in mine):
                say('present ignored', '%s: %s is added for %s only, all of '
                    'which have an acceptable header present: %s' % (
                        f, x, [s.name for s in mine],
                        {s.name: sorted(set(cands[s]) & have)
                         for s in mine}))
            seen['added'] = seen.get('added', 0) + 1
        for s in plain:
            if len(cands[s]) > 1 and set(cands[s]) & only:
                seen['choice'] = seen.get('choice', 0) + 1
            if len(cands[s]) > 1 and set(cands[s]) & only and \
                    att[s] not in only and not (
                        f == 'm.cc' and att[s] in kept_h):
                back = [t for t in plain if t is not s and
                        att[t] == att[s] and not set(cands[t]) & only] + \
                    [t for t in selfs
                     if att[s] in cands[t] or att[s] in t.homes]
                if not back:
                    say('needed ignored', '%s: %s is included for %s '
                        'although %s are needed anyway' % (
                            f, att[s], s.name,
                            sorted(set(cands[s]) & only)))
        if not selfs:
            loose = [s for s in plain if len(cands[s]) > 1 and
                     not set(cands[s]) & (have | only)]
            for x in sorted({att[s] for s in loose}):
                mine = [s for s in plain if att[s] == x]
                for y in sorted({att[s] for s in loose} - {x}):
                    seen['pairs'] = seen.get('pairs', 0) + 1
                    if all(y in cands[s] for s in mine):
                        say('redundant', '%s: %s is included for %s only, but '
                            '%s is included, too, and acceptable for all' % (
                                f, x, [s.name for s in mine], y))
            if len(loose) == 1:
                s = loose[0]
                c, order = w.cands(s)
                if c[0] in s.homes and att[s] != c[0] and order and \
                        not w.model.symbol(s.name):
                    others = [t for t in plain if t is not s and
                              att[t] == att[s]]
                    if not others:
                        say('order', '%s: %s is included for %s rather than '
                            'its own public header %s' % (
                                f, att[s], s.name, c[0]))
                seen['free choice'] = seen.get('free choice', 0) + 1
        if f == 'm.h':
            kept_h = full
    return seen


def command(binary, w, maps, extra=()):
    cmd = [binary, '-nostdinc', '-isystem', 'sys', '-I', 'usr', '-I', '.']
    args = ['--mapping_file=' + m for m in maps]
    if not w.defaults:
        args.append('--no_default_mappings')
    if w.dialect != 'llvm':
        args.append('--regex=' + w.dialect)
    for a in args + list(extra) + ['--verbose=3', '--comment_style=long',
                                   '--max_line_length=100000']:
        cmd += ['-Xiwyu', a]
    return cmd + ['m.cc']


def dump(entries):
    import json
    res = '[\n'
    for k, v in entries:
        res += '  { %s: %s },\n' % (json.dumps(k), json.dumps(v))
    return res + ']\n'
