#!/usr/bin/env python3
"""C12: every suggested include line resolves to the intended file."""
import os
import re

import _path  # noqa: F401
from vf import build, core, report

DIRS = ['inc', 'inc/sub', 'inc/subx', 'inc/sub/deep', 'src', 'src/lib',
        'third/include', 'third/include/pkg', 'ext', '.', 'src/lib/in.c',
        'a b']
FLAGS = ['-I', '-I', '-I', '-isystem', '-isystem', '-iquote', '-idirafter']


class World(object):
    def __init__(self, r, d):
        self.r, self.d = r, d
        self.cwd = r.choice(('.', '.', '.', 'build', 'src'))
        self.links = r.random() < .15
        self.headers = []            # relative paths; header i declares v<i>
        dirs = [x for x in DIRS if x != 'a b' or r.random() < .2]
        for i in range(r.randint(3, 10)):
            base = 'h%d.h' % i
            if r.random() < .06 and self.headers:
                base = os.path.basename(r.choice(self.headers))
            sub = r.choice(('', '', '', 'k/', 'k/l/', 'v1.2/'))
            h = os.path.normpath(os.path.join(r.choice(dirs), sub + base))
            if h not in self.headers:
                self.headers.append(h)
        self.main = os.path.normpath(r.choice(
            ('m.cc', 'src/m.cc', 'src/lib/m.cc', 'inc/m.cc')))
        self.assoc = None
        if r.random() < .6:
            a = r.choice(('.', os.path.dirname(self.main) or '.', 'inc',
                          'third/include/pkg'))
            self.assoc = os.path.normpath(a + '/m.h')
        self.search = []             # (flag, relative directory, spelling)
        for x in r.sample(dirs, r.randint(0, 5)):
            self.search.append((r.choice(FLAGS), x))
            if r.random() < .1:
                self.search.append((r.choice(FLAGS), x))
        for h in self.headers:
            # Directories that hold headers are likely search paths.
            x = os.path.dirname(h) or '.'
            if r.random() < .2:
                self.search.append((r.choice(FLAGS), x))
        r.shuffle(self.search)
        self.search = self.search[:7]
        self.args = []
        for f, x in self.search:
            s = self.spell(x)
            if f == '-I' and r.random() < .5:
                self.args.append('-I' + s)
            else:
                self.args += [f, s]
        if r.random() < .2:
            self.args += ['-I', 'no/such/dir']

    def spell(self, rel, keep_dot=False):
        """A way to write a path from the working directory."""
        r = self.r
        p = os.path.relpath(rel, self.cwd)
        k = r.randrange(8)
        if k == 0:
            p = os.path.join(self.d, rel)
        elif k == 1:
            p = './' + p
        elif k == 2 and not rel.endswith(('.h', '.cc')):
            p += '/'
        elif k == 3 and self.cwd == '.':
            p = 'src/../' + p
        elif k == 4 and self.cwd == '.':
            p = p.replace('/', '//', 1)
        elif k == 5:
            p = os.path.join(self.d, 'inc', '..', rel)
        elif k == 6 and self.links:
            p = os.path.join(self.d, 'link', rel)
        return p

    def written(self, h, frm):
        """A way to include h from a file that surely finds it."""
        r = self.r
        here = os.path.dirname(frm) or '.'
        forms = ['"%s"' % os.path.join(self.d, h),
                 '"%s"' % os.path.relpath(h, here),
                 '"%s"' % os.path.join(self.d, 'inc', '..', h)]
        for f, x in self.search:
            if not os.path.relpath(h, x).startswith('..'):
                n = os.path.relpath(h, x)
                if self.lookup(n, None) == h:
                    forms += ['<%s>' % n] * 3 if f != '-iquote' else []
                    if self.lookup(n, here) == h:
                        forms.append('"%s"' % n)
        if self.links:
            forms.append('"%s"' % os.path.join(self.d, 'link', h))
        return r.choice(forms)

    def lookup(self, name, here):
        """Where the compiler finds a name (None here: angle brackets)."""
        order = [here] if here is not None else []
        order += [x for f, x in self.search if f == '-iquote'
                  and here is not None]
        system = {x for f, x in self.search if f in ('-isystem',
                                                     '-idirafter')}
        order += [x for f, x in self.search if f == '-I' and x not in system]
        order += [x for f, x in self.search if f == '-isystem']
        order += [x for f, x in self.search if f == '-idirafter']
        for x in order:
            p = os.path.normpath(os.path.join(x, name))
            if p in self.headers or p == self.assoc:
                return p
        return None

    def some(self, frm):
        """Headers that a file includes itself, with the words it uses."""
        return {h: self.written(h, frm) for h in self.r.sample(
            self.headers, self.r.choice((0, 0, 1, 2)))}

    def files(self):
        r = self.r
        fs = {'build/x': '', 'src/x': '', 'inc/x': '', 'a b/x': ''}
        for x in DIRS:
            fs[x + '/.keep'] = ''
        self.direct = {}
        for i, h in enumerate(self.headers):
            fs[h] = 'extern int v%d;\n' % i
        um = os.path.join(os.path.dirname(self.main), 'vf_um.h')
        fs[um] = '#ifndef UM\n#define UM\n' + ''.join(
            '#include %s\n' % self.written(h, um)
            for h in self.headers) + '#endif\n'
        n = len(self.headers)
        if self.assoc:
            use = r.sample(range(n), r.randint(0, n // 2))
            rel = os.path.relpath(um, os.path.dirname(self.assoc) or '.')
            self.direct[self.assoc] = self.some(self.assoc)
            fs[self.assoc] = '#include "%s"\n' % rel + ''.join(
                '#include %s\n' % l
                for l in self.direct[self.assoc].values()) + ''.join(
                    'inline int a%d() { return v%d; }\n' % (i, i)
                    for i in use)
        use = r.sample(range(n), r.randint(1, n))
        self.direct[self.main] = self.some(self.main)
        fs[self.main] = ('#include %s\n' % self.written(self.assoc, self.main)
                         if self.assoc else '') + '#include "vf_um.h"\n' + \
            ''.join('#include %s\n' % l
                    for l in self.direct[self.main].values()) + ''.join(
                        'inline int m%d() { return v%d; }\n' % (i, i)
                        for i in use)
        return fs

    def expected(self, h, frm):
        """The spelling the documented rules give."""
        best = None
        for f, x in self.search:
            rel = os.path.relpath(h, x)
            if not rel.startswith('..'):
                if best is None or len(rel) < len(best):
                    best = rel
        if best is not None:
            where = os.path.normpath(h[:len(h) - len(best)] or '.')
            system = any(f in ('-isystem', '-idirafter')
                         for f, x in self.search
                         if os.path.normpath(x) == where)
            return '<%s>' % best if system else '"%s"' % best
        rel = os.path.relpath(h, os.path.dirname(frm) or '.')
        if not rel.startswith('..'):
            return '"%s"' % rel
        return '"%s"' % os.path.join(self.d, h)


def resolve(w, d, frm, lines):
    """Real paths that the compiler finds for include lines in a file."""
    probe = os.path.join(os.path.dirname(frm), 'vf_probe.cc')
    with open(os.path.join(d, probe), 'w') as f:
        f.write(''.join('#include %s\n' % l for l in lines))
    r = core.run([core.CLANG, '-nostdinc', '-E'] + w.args +
                 [os.path.relpath(probe, w.cwd)],
                 cwd=os.path.join(d, w.cwd))
    os.unlink(os.path.join(d, probe))
    got = re.findall(r'^# 1 "([^"<\n]+)" 1(?: \d)*$', r.out, re.M)
    return [os.path.realpath(os.path.join(d, w.cwd, g)) for g in got], r


def shadowed(ck, binary):
    """The recorded finding: a name that another header takes."""
    d = os.path.realpath(core.newdir('s'))
    core.write_tree(d, {
        'a/x.h': 'extern int v0;\n', 'b/x.h': 'extern int v1;\n',
        'um.h': '#include "a/x.h"\n#include "b/x.h"\n',
        'm.cc': '#include "um.h"\nint f() { return v1; }\n'})
    cmd = [binary, '-nostdinc', '-Ia', '-Ib', 'm.cc']
    res = core.run(cmd, cwd=d)
    if '#include "x.h"' in res.text:
        ck.violation('shadowed', res.text, tree=d, cmd=cmd)
    core.rmtree(d)


def main():
    ck = core.Check('C12', 'a layout of directories and search paths in which '
                    'the report names an include for at least one symbol; '
                    'each such line was looked up by the compiler')
    binary = build.iwyu('rel')
    ck.assumptions = ['clang 20 -E decides which file an include line finds']

    def one(i):
        r = core.rng('C12', i)
        d = os.path.realpath(core.newdir('w'))
        w = World(r, d)
        core.write_tree(d, w.files())
        os.symlink('.', os.path.join(d, 'link'))
        cmd = [binary, '-nostdinc'] + w.args
        for a in ('--verbose=3', '--comment_style=long',
                  '--max_line_length=100000', '--no_default_mappings'):
            cmd += ['-Xiwyu', a]
        cmd.append(w.spell(w.main))
        res = core.run(cmd, cwd=os.path.join(d, w.cwd))
        bad = []
        known = []
        lines = 0
        try:
            if res.timeout:
                ck.maybe('timeout')
                return
            if res.rc != 0:
                bad.append(('status', 'exit status %s' % res.rc))
                return
            try:
                reps = report.parse(res.text)
            except report.ParseError as e:
                bad.append(('report', str(e)))
                return
            for rep in reps:
                f = os.path.relpath(os.path.realpath(os.path.join(
                    d, w.cwd, rep.filename)), d)
                if f not in w.direct:
                    bad.append(('file', 'report on ' + rep.filename))
                    continue
                if rep.correct:
                    ck.count('correct')
                    continue
                todo = [l for l in rep.full if l.include and l.symbols]
                if not todo:
                    continue
                got, pr = resolve(w, d, f, [l.include for l in todo])
                if len(got) != len(todo):
                    bad.append(('unresolvable', '%s: %s\n%s' % (
                        f, [l.include for l in todo], pr.err[:600])))
                    continue
                added = rep.includes('adds')
                for l, g in zip(todo, got):
                    lines += 1
                    for s in l.symbols:
                        own = w.direct[f].get(w.headers[int(s[1:])])
                        if own and l.include != own:
                            bad.append(('as-written', '%s includes %s but %s '
                                        'is suggested' % (f, own, l.include)))
                        elif own:
                            ck.count('as written')
                    for s in l.symbols:
                        h = w.headers[int(s[1:])]
                        if g != os.path.join(d, h):
                            n = os.path.relpath(g, d)
                            if w.links:
                                ck.maybe('links')
                                continue
                            # Recorded finding: the rule's spelling, which
                            # another header of that name takes.
                            if (n in w.headers or n == w.assoc) and \
                                    l.include == w.expected(h, f):
                                known.append('%s: %s for %s finds %s, not %s'
                                             % (f, l.include, s, n, h))
                                continue
                            bad.append(('elsewhere', '%s: %s for %s finds %s, '
                                        'not %s' % (f, l.include, s, n, h)))
                        elif l.include in added and not w.links:
                            e = w.expected(h, f)
                            if l.include != e:
                                bad.append(('spelling', '%s: %s is suggested '
                                            'for %s rather than %s' % (
                                                f, l.include, h, e)))
                            ck.count('angled' if e[0] == '<' else 'absolute'
                                     if e[1] == '/' else 'quoted')
            ck.count('lines', lines)
            if w.links:
                ck.count('with links')
        finally:
            ck.case((w.args, w.main, sorted(w.headers)) if lines else None,
                    'in %s: %s %s' % (w.cwd, w.args, w.main))
            if known and not bad:
                ck.count('shadowed')
                ck.violation('shadowed', '\n'.join(known) + '\n' + res.text,
                             tree=d, cmd=cmd)
            if bad:
                ck.violation('%s-%d' % (bad[0][0], i), '\n'.join(
                    '%s: %s' % b for b in bad) + '\n' + res.text, tree=d,
                    cmd='cd %s; %s' % (w.cwd, ' '.join(cmd)))
            core.rmtree(d)
    shadowed(ck, binary)
    core.pmap(one, range(core.n_cases(1500, 40000)))
    ck.finish()


core.main(main)
