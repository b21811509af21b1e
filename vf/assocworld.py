"""Which files are reported on, and what associated headers are worth."""
import fnmatch
import os

HEXT = ('.h', '.H', '.hpp', '.hxx', '.hh', '.inl')
SEXT = ('.c', '.C', '.cc', '.CC', '.cxx', '.CXX', '.cpp', '.CPP', '.c++',
        '.C++', '.cp')


def canonical(p):
    """The component a file belongs to, by its name."""
    p = os.path.normpath(p)
    for exts in (HEXT, SEXT):
        e = [x for x in exts if p.endswith(x)]
        if e:
            p = p[:-len(e[0])]
            break
    for s in ('_unittest', '_regtest', '_test'):
        if p.endswith(s):
            p = p[:-len(s)]
            break
    else:
        if p.startswith('test_headercompile_'):
            p = p[len('test_headercompile_'):]
    if p.endswith('-inl'):
        p = p[:-4]
    p = p.replace('/internal/', '/public/', 1)
    return p.replace('/include/', '/src/', 1)


def swap(r, d, stem):
    """Directories that may or may not make the same component."""
    c = [d, d, d, d, '', 'lib/', 'prj/']
    for a, b in (('/internal/', '/public/'), ('/src/', '/include/')):
        if a in '/' + d:
            c += [('/' + d).replace(a, b, 1)[1:]] * 3
            c.append(('/' + d).replace(a, b)[1:])
            c.append(b.join(('/' + d).rsplit(a, 1))[1:])
        if b in '/' + d:
            c += [('/' + d).replace(b, a, 1)[1:]]
    return r.choice(c)


class World(object):
    def __init__(self, r):
        self.r = r
        stem = r.choice(('foo', 'foo', 'bar_x', 'a.b', 'io', 'x-y'))
        odd = r.random()
        if odd < .05:
            stem = r.choice(('a[1]', 'x{y}', 'p q', 'q?', 'z*', 'c\\d', 'é'))
        d = r.choice(('', '', 'prj/', 'prj/src/', 'prj/internal/', 'src/',
                      'prj/src/k/', 'prj/src/k/src/',
                      'prj/internal/k/internal/', 'prj/include/k/src/', 'prj/include/k/include/', 'prj/internal/k/src/', 'v[2]/'
                      if odd > .97 else 'prj/'))
        self.main = d + r.choice(('',) * 6 + ('test_headercompile_',)) + \
            stem + r.choice(('',) * 4 + ('_test', '_unittest', '_regtest',
                                         '-inl', '_main', '-inl_test')) + \
            r.choice(SEXT[2:] + ('.cc', '.cpp', '.cc', '.h', '.hpp'))
        # Homes of the symbols.
        self.n = r.randint(2, 7)
        self.home = ['"d%d/x%d.h"' % (i % 2, i) for i in range(self.n)]
        # Headers that may be associated.
        names = []
        for _ in range(r.randint(0, 4)):
            s = r.choice((stem,) * 6 + (stem.upper(), stem + 'x', 'y' + stem,
                                        'other'))
            names.append(swap(r, d, stem) + s + r.choice(
                ('',) * 6 + ('-inl', '_test', '_unittest', '_impl')) +
                r.choice(HEXT + ('.h',) * 8 + ('', '.inc', '.h.in', '.cuh')))
        self.heads = []
        self.system = set()
        for n in dict.fromkeys(names):
            if n == self.main or any(n.lower() == x.lower()
                                     for x in self.heads):
                continue
            if n in (self.main,):
                continue
            self.heads.append(n)
            if r.random() < .12:
                self.system.add(n)
            # No name may be found relative to some includer.
            files = {self.main} | {self.file(h) for h in self.heads}
            if any(os.path.join(os.path.dirname(f), h) in files
                   for f in files if '/' in f for h in self.heads):
                self.heads.pop()
                self.system.discard(n)
        self.plain = ['p%d.h' % i for i in range(r.randint(0, 2))]
        every = self.heads + self.plain
        # Who includes whom: earlier ones later ones; the first may come
        # before the main file through a command line include.
        self.inc = {h: [] for h in every}
        order = every[:]
        r.shuffle(order)
        for i, h in enumerate(order):
            for t in order[i + 1:]:
                # What a system header includes is a system header.
                if r.random() < .2 and (h not in self.system or
                                        t in self.system):
                    self.inc[h].append(t)
        self.order = order
        self.direct = [h for h in every if r.random() < .65]
        r.shuffle(self.direct)
        self.pragma = {h for h in self.direct if r.random() < .15}
        if any(self.spell(h)[1:-1].endswith(SEXT) for h in every):
            self.pragma = set()
        self.prefix = r.choice(every) if every and r.random() < .08 else None
        if self.prefix in self.system:
            self.prefix = None
        self.umfirst = r.random() < .3
        # Symbols.
        self.hinc, self.huse = {}, {}
        for h in every:
            self.hinc[h] = r.sample(range(self.n), r.randint(0, self.n // 2))
            pool = self.hinc[h] if r.random() < .7 else list(range(self.n))
            self.huse[h] = [x for x in pool if r.random() < .6]
        self.minc = r.sample(range(self.n), r.randint(0, self.n // 2))
        self.muse = r.sample(range(self.n), r.randint(0, self.n))
        self.globs = []
        for _ in range(r.choice((0, 0, 1, 1, 2))):
            h = r.choice([self.file(x) for x in every] +
                         ['d0/x0.h', 'd1/x1.h', 'um.h'])
            self.globs.append(r.choice((
                h, './' + h, '*' + os.path.basename(h), 'd?/*', '*.hpp',
                os.path.dirname(h) + '/*' if '/' in h else 'p*', '*/internal/*',
                '*/x[01].h', h + 'x', 'x' + h, '*' + stem + '*',
                os.path.dirname(h) + '/../' + h if '/' not in
                os.path.dirname(h) and '/' in h else h)))

        self.globs = [g for g in self.globs if '\\' not in g]

    def file(self, h):
        return ('sys/' if h in self.system else '') + h

    def spell(self, h):
        return ('<%s>' if h in self.system else '"%s"') % h

    def visible(self):
        """Headers in the order they are entered, with how."""
        return

    def text(self, h):
        r = self.r
        i = (self.heads + self.plain).index(h)
        out = ['#ifndef H%d' % i, '#define H%d' % i] if r.random() < .5 else \
            ['#pragma once']
        body = ['#include %s' % self.spell(t) for t in self.inc[h]] + \
            ['#include %s' % self.home[x] for x in self.hinc[h]]
        r.shuffle(body)
        if set(self.huse[h]) - set(self.hinc[h]):
            body.insert(r.choice((0, len(body))), '#include "um.h"')
        out += body
        out += ['inline int h%d_%d(X%d& x) { return x.m; }' % (i, x, x)
                for x in self.huse[h]]
        if out[0] != '#pragma once':
            out.append('#endif')
        return '\n'.join(out) + '\n'

    def tree(self):
        r = self.r
        fs = {}
        for i, h in enumerate(self.home):
            fs[h[1:-1]] = '#pragma once\nclass X%d { public: int m; };\n' % i
        fs['um.h'] = '#pragma once\n' + ''.join('#include %s\n' % h
                                                for h in self.home)
        for h in self.heads + self.plain:
            fs[self.file(h)] = self.text(h)
        lines = []
        self.first = None
        rows = []
        for h in self.direct:
            p = ''
            if h in self.pragma:
                p = r.choice(('  // IWYU pragma: associated',
                              ' /* IWYU pragma: associated */',
                              ' // IWYU pragma: associated // x'))
            rows.append(('#include %s%s' % (self.spell(h), p), h))
        rest = [('#include %s' % self.home[x], None) for x in self.minc]
        if self.umfirst:
            rows = [('#include "um.h"', None)] + rows
        else:
            rest.append(('#include "um.h"', None))
        if r.random() < .5:
            r.shuffle(rest)
            rows += rest
        else:
            rows += rest
            r.shuffle(rows)
        self.first = rows[0][1]
        lines = [x for x, _ in rows]
        if os.path.splitext(self.main)[1] in HEXT:
            lines.insert(0, '#pragma once')
        lines += ['inline int m_%d(X%d& x) { return x.m; }' % (x, x)
                  for x in self.muse]
        fs[self.main] = '\n'.join(lines) + '\n'
        self.rows = rows
        return fs

    def command(self, binary):
        cmd = [binary, '-nostdinc', '-std=c++17', '-I', '.', '-isystem', 'sys',
               '-x', 'c++', '-Wno-pragma-once-outside-header',
               '-Xiwyu', '--no_default_mappings']
        for g in self.globs:
            cmd += ['-Xiwyu', '--check_also=' + g]
        if self.prefix:
            cmd += ['-include', self.file(self.prefix)]
        return cmd + [self.main]

    # ------------------------------------------------------------------
    def reached(self):
        todo = list(self.direct) + ([self.prefix] if self.prefix else [])
        res = set()
        while todo:
            h = todo.pop()
            if h not in res:
                res.add(h)
                todo += self.inc[h]
        return res

    def model(self):
        """(reported files, associated headers)"""
        can = canonical(self.main)
        base = canonical(os.path.basename(self.main))
        reached = self.reached()
        assoc = set()
        for h in self.direct:
            if h in self.pragma:
                assoc.add(h)
            elif h not in self.system:
                if canonical(h) == can:
                    assoc.add(h)
                elif h == self.first and \
                        canonical(os.path.basename(h)) == base:
                    assoc.add(h)
        rep = {self.main} | {self.file(h) for h in assoc}
        for h in reached - self.system:
            if canonical(h) == can:
                rep.add(h)
        files = {self.file(h) for h in reached} | {'um.h'} | {
            h[1:-1] for h in self.home}
        for f in files:
            for g in self.globs:
                if fnmatch.fnmatchcase(f, os.path.normpath(g)):
                    rep.add(f)
        return rep, assoc


def judge(w, reports, say, count):
    want, assoc = w.model()
    got = [os.path.normpath(x.filename) for x in reports]
    for f in sorted(set(got)):
        if got.count(f) > 1:
            say('twice', '%s is reported %d times' % (f, got.count(f)))
    for f in sorted(want - set(got)):
        say('missing', '%s is not reported' % f)
    for f in sorted(set(got) - want):
        say('extra', '%s is reported' % f)
    count('files reported', len(got))
    count('associated', len(assoc))
    count('associated by first include', len(
        [h for h in assoc if h not in w.pragma and
         canonical(h) != canonical(w.main)]))
    count('by pragma only', len(
        [h for h in assoc if h in w.pragma and
         canonical(h) != canonical(w.main)]))
    reps = {os.path.normpath(x.filename): x for x in reports}
    if not want <= set(got):
        return

    def final(f, now):
        x = reps[f]
        return set(now) if x.correct else set(x.includes())

    kept = set()
    for h in assoc:
        now = {w.spell(t) for t in w.inc[h]} | {w.home[x] for x in w.hinc[h]}
        if w.file(h) in reps:
            kept |= final(w.file(h), now)
    now = {w.home[x] for x in w.minc} | {w.spell(h) for h in w.direct}
    have = final(w.main, now)
    adds = set() if reps[w.main].correct else set(
        reps[w.main].includes('adds'))
    for h in sorted(assoc):
        if w.spell(h) not in have:
            say('associated', '%s: the associated %s is not kept' % (
                w.main, h))
    for x in range(w.n):
        q = w.home[x]
        if x in w.muse:
            if q in kept:
                count('provided by the associated header')
                if q in adds:
                    say('repeated', '%s: %s is added although an associated '
                        'header keeps it' % (w.main, q))
            else:
                count('needed')
                if q not in have:
                    say('needed', '%s: %s is not included' % (w.main, q))
        elif q in have:
            say('unneeded', '%s: %s is kept' % (w.main, q))
        else:
            count('unneeded')
    for h in w.direct:
        if h not in assoc and 'internal/' not in h and \
                w.spell(h) in have:
            say('unneeded', '%s: %s is kept' % (w.main, h))
