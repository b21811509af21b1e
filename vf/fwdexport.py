"""Headers that export forward declarations, and what their users need."""
from . import pragworld


class World(object):
    def __init__(self, r):
        self.r = r
        self.ents = []
        for i in range(r.randint(2, 6)):
            e = pragworld.Ent(i, r)
            while e.kind == 'enum':
                e.kind = r.choice(('class', 'struct', 'union', 'tpl'))
            self.ents.append(e)
        self.fac = {}                  # facade -> [(entity, pin)]
        for k in range(r.randint(1, 5)):
            name = r.choice(('"f%d.h"', '"k/f%d.h"', '<f%d.h>')) % k
            es = r.sample(self.ents, r.randint(1, min(4, len(self.ents))))
            self.fac[name] = [(e, r.choice(('line', 'range', 'range', None)))
                              for e in es]
        self.top = {}                  # facade of facades -> exported ones
        for k in range(r.choice((0, 0, 1, 2))):
            below = list(self.fac) + list(self.top)
            self.top['"t%d.h"' % k] = r.sample(
                below, r.randint(1, min(3, len(below))))
        self.private = set()
        for f in self.fac:
            if any(f in v for v in self.top.values()) and r.random() < .4:
                self.private.add(f)
        self.uses = {}
        for e in self.ents:
            u = r.choice(('ptr', 'ptr', 'ptr', 'full', 'both', 'no'))
            if u != 'no':
                self.uses[e] = u
        every = list(self.fac) + list(self.top) + \
            [e.spelling for e in self.ents]
        self.direct = r.sample(every, r.randint(0, min(5, len(every))))
        self.define = r.random() < .7   # whether definitions are seen at all

    def up(self, f):
        """f and what re-exports it."""
        res = {f}
        grew = True
        while grew:
            grew = False
            for t, below in self.top.items():
                if t not in res and res & set(below):
                    res.add(t)
                    grew = True
        return res

    def exporters(self, e):
        res = set()
        for f, es in self.fac.items():
            if any(x is e and p for x, p in es):
                res |= self.up(f)
        return res - self.private

    @staticmethod
    def path(q):
        return ('sys/' if q[0] == '<' else '') + q[1:-1]

    def tree(self):
        r = self.r
        fs = {}
        for e in self.ents:
            fs[e.file] = '#pragma once\n' + e.defn() + '\n'
        for f, es in self.fac.items():
            out = ['#pragma once']
            if f in self.private:
                out.append('// IWYU pragma: private')
            todo = es[:]
            r.shuffle(todo)
            while todo:
                e, pin = todo.pop(0)
                group = [e]
                if pin == 'range':
                    for x in [x for x in todo if x[1] == 'range']:
                        if r.random() < .6:
                            todo.remove(x)
                            group.append(x[0])
                    out.append('// IWYU pragma: begin_exports')
                for g in group:
                    c = g.core
                    if g.kind == 'tpl' and r.random() < .4:
                        c = c.replace('> class', '>\nclass')
                    if pin == 'line':
                        c += '  // IWYU pragma: export'
                    if g.ns and pin != 'line' and r.random() < .5:
                        out.append(g.fwd.replace(g.core, c))
                    else:
                        out += ['namespace %s {' % n for n in g.ns]
                        out += c.split('\n')
                        out += ['}'] * len(g.ns)
                if pin == 'range':
                    out.append('// IWYU pragma: end_exports')
            fs[self.path(f)] = '\n'.join(out) + '\n'
        for t, below in self.top.items():
            fs[self.path(t)] = '#pragma once\n' + ''.join(
                '#include %s  // IWYU pragma: export\n' % b for b in below)
        every = list(self.fac) + list(self.top) + \
            [e.spelling for e in self.ents]
        r.shuffle(every)
        fs['um.h'] = '#pragma once\n' + ''.join('#include %s\n' % h
                                                for h in every)
        first, last = ['#include "um.h"'], []
        lines = first + ['#include ' + h for h in self.direct]
        if r.random() < .4:
            lines = lines[1:] + first
        for e, u in self.uses.items():
            if u in ('ptr', 'both'):
                last.append(e.ptr('p%d' % e.i))
            if u in ('full', 'both'):
                last.append(e.full('d%d' % e.i))
        r.shuffle(last)
        fs['main.cc'] = '\n'.join(lines + last) + '\n'
        return fs

    def command(self, binary):
        return [binary, '-nostdinc', '-std=c++17', '-I.', '-isystem', 'sys',
                '-Xiwyu', '--no_default_mappings', 'main.cc']


def judge(w, reports, say, count):
    rep = next((x for x in reports if x.filename == 'main.cc'), None)
    if rep is None:
        say('report', 'no report')
        return
    final = set(w.direct) | {'"um.h"'}
    fwds, adds = set(), set()
    if not rep.correct:
        final = set(rep.includes())
        fwds = {' '.join(c.split()) for c in rep.fwds()}
        adds = set(rep.includes('adds'))
    just = set()
    for e, u in w.uses.items():
        ex = w.exporters(e)
        if u != 'ptr':
            just |= ex              # The tool may add these, too.
            if e.spelling not in final:
                say('exported full', '%s is not included for %s' % (
                    e.spelling, e.qn))
            continue
        if not ex:
            if any(f in w.private and p for f, es in w.fac.items()
                   for x, p in es if x is e):
                continue
            count('not exported')
            if e.fwd not in fwds:
                say('not exported', '%s is not declared; nothing exports it'
                    % e.qn)
            continue
        count('exported')
        if not final & ex:
            say('exported', 'none of %s is included for %s' % (
                sorted(ex), e.qn))
        if e.fwd in fwds:
            say('exported declared', '%s is declared although exported by %s'
                % (e.qn, sorted(ex)))
        if ex & set(w.direct):
            count('exported present')
        else:
            just |= ex
    for f in sorted(final & (set(w.fac) | set(w.top))):
        if f in adds and f not in just:
            say('exported present', '%s is added although what it exports is '
                'present' % f)
        if f in w.private and f not in w.direct:
            say('private', '%s is added although private' % f)
    for f in w.direct:
        if f in w.fac or f in w.top:
            if f in final and not any(f in w.exporters(e) for e in w.uses):
                say('unneeded', '%s is kept' % f)
