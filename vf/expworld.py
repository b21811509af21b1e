"""Random header trees with export, private and friend pragmas."""
import os

from . import mapping, mapworld

BEG = ('// IWYU pragma: begin_exports', '/* IWYU pragma: begin_exports */')
END = ('// IWYU pragma: end_exports', '/* IWYU pragma: end_exports */')
LINE = ('  // IWYU pragma: export', ' /* IWYU pragma: export */',
        '  // IWYU pragma: export // as promised')
FRIEND = ('%s', '.*%s', '"%s"', 'x|%s', '[a-z]\\.%s', '(a|%s)')
NOFRIEND = ('x%s', '%s.', '"x/%s"', '<%s>', '', '[a-z]')


class World(mapworld.World):
    def make_entries(self):
        r = self.r
        hs = self.headers
        self.dialect = 'llvm'
        self.pragma = {}                 # header -> private pragma
        self.friends = {}                # header -> (regexes, files)
        self.exports = {h: set() for h in hs}
        self.keep = set()
        vis = {h: 'public' for h in hs}
        dense = r.choice((.2, .5, .9))
        for i, h in enumerate(hs):
            for t in self.inc[h]:
                if r.random() < dense:
                    self.exports[h].add(t)
            # Includes of earlier headers make cycles.
            if i and r.random() < .12:
                t = r.choice(hs[:i])
                if t not in self.inc[h]:
                    self.inc[h].append(t)
                    if r.random() < .6:
                        self.exports[h].add(t)
        for h in hs:
            k = r.random()
            if k < .18:
                self.pragma[h] = 'private'
                vis[h] = 'private'
            elif k < .36:
                t = r.choice(hs + ['<fac/a.h>', '"fac/b.h"'])
                if t != h:
                    self.pragma[h] = 'private, include ' + t
                    vis[h] = 'private'
        for h in hs:
            if r.random() < (.25 if h in self.pragma else .05):
                f = r.choice(('m.cc', 'm.cc', 'm.h'))
                e = f.replace('.', '\\.')
                yes = r.random() < .5
                form = r.choice(FRIEND[:4] + FRIEND[5:] if yes else NOFRIEND)
                rx = form % e if '%s' in form else form
                if form == '%s.' and rx == 'm\\.h.':
                    rx = 'm\\.h..'
                self.friends[h] = (rx, {f} if yes else set())
                if yes and form == '[a-z]\\.%s':
                    self.friends[h][1].clear()
        ent = []
        for h in hs:
            for t in self.exports[h]:
                ent.append(('include', [t, vis[t], h, vis[h]]))
            p = self.pragma.get(h)
            if p and 'include' in p:
                t = p.split('include ')[1]
                ent.append(('include', [h, 'private', t, vis.get(t,
                                                                 'public')]))
        self.vis = vis
        # m.h may export, too.
        self.mexp = {}
        if r.random() < .15:
            self.keep = set(r.sample(hs, r.randint(1, 2)))
        return ent

    def __init__(self, r):
        super(World, self).__init__(r)
        for h, v in self.vis.items():
            self.model.mark(h, v)
        self.defaults = False
        if self.mh:
            # The header of the source file may export what it includes.
            self.hexp = {h for h in self.direct['m.h']
                         if self.r.random() < .2}
            for h in self.hexp:
                self.model.edge(h, '"m.h"')

    def cands(self, s):
        return super(World, self).cands(s)

    def line(self, frm, t):
        """The name by which a header includes another."""
        r = self.r
        if frm[0] == t[0] == '"' and r.random() < .25:
            rel = os.path.relpath(t[1:-1], os.path.dirname(frm[1:-1]) or '.')
            return '"%s"' % rel
        return t

    def block(self, frm, targets, exports):
        """Include lines, of which some are exported."""
        r = self.r
        rest = list(targets)
        r.shuffle(rest)
        out = []
        while rest:
            t = rest.pop(0)
            if t in exports:
                if r.random() < .5:
                    out.append('#include %s%s' % (self.line(frm, t),
                                                  r.choice(LINE)))
                else:
                    out.append(r.choice(BEG))
                    out.append('#include ' + self.line(frm, t))
                    for u in [x for x in rest if x in exports]:
                        if r.random() < .6:
                            rest.remove(u)
                            out.append('#include ' + self.line(frm, u))
                    out.append(r.choice(END))
            else:
                out.append('#include %s%s' % (self.line(frm, t), r.choice(
                    ('', '', '  // exported', ' // iwyu pragma: export'))))
        return out

    def files(self):
        r = self.r
        fs = super(World, self).files()
        for i, h in enumerate(self.headers):
            g = 'G%d' % i
            text = ['#ifndef ' + g, '#define ' + g]
            text += self.block(h, self.inc[h], self.exports[h])
            text += [s.decl() for s in self.syms if h in s.homes] + ['#endif']
            p = []
            if h in self.pragma:
                p.append(r.choice(('// IWYU pragma: %s',
                                   '/* IWYU pragma: %s */',
                                   '// IWYU pragma: %s // note')) %
                         self.pragma[h])
            if h in self.friends:
                p.append(r.choice(('// IWYU pragma: friend %s',
                                   '/* IWYU pragma: friend %s */')) %
                         self.friends[h][0])
            for x in p:
                text.insert(r.choice((0, 2, len(text))), x)
            fs[mapworld.path(h)] = '\n'.join(text) + '\n'
        if self.mh:
            fs['m.h'] = '#include "vf_all.h"\n' + '\n'.join(
                self.block('"m.h"', self.direct['m.h'], self.hexp)) + '\n' + \
                ''.join(s.use('h') + '\n' for s in self.uses['m.h'])
        return fs


def judge(w, reports, say):
    """As for mappings; friends may include what they use directly."""
    own = {}
    for f in ('m.h', 'm.cc'):
        own[f] = {h for h, (_, fs) in w.friends.items() if f in fs}
    if not any(own.values()):
        return mapworld.judge(w, reports, say)
    seen = {}
    for rep in reports:
        f = rep.filename
        if f not in w.uses or rep.correct:
            continue
        where = {}
        for l in rep.full:
            for s in l.symbols or []:
                where.setdefault(s, []).append(l.include)
        for s in w.uses[f]:
            ok = set(w.cands(s)[0])
            mine = set(s.homes) & own[f]
            for g in where.get(s.name, []):
                if g not in ok | mine | (set(s.homes) & set(w.direct[f])):
                    say('unacceptable', '%s: %s is included for %s; '
                        'acceptable: %s' % (f, g, s.name, sorted(ok | mine)))
                if g in mine and g in w.pragma:
                    seen['friend of private'] = \
                        seen.get('friend of private', 0) + 1
            # A friend that includes the private header keeps it.
            if len(s.homes) == 1 and mine and s.homes[0] in w.direct[f] and \
                    s.homes[0] not in rep.includes():
                say('friend', '%s: %s is not kept for %s although %s is a '
                    'friend' % (f, s.homes[0], s.name, f))
            seen['with friends'] = seen.get('with friends', 0) + 1
    return seen
