#!/usr/bin/env python3
"""C07: the report is a function of the program, not of incidentals."""
import os
import re
import shutil

import _path  # noqa: F401
from vf import assocworld, build, core, corpus, expworld, mapworld, \
    pragworld, report, world, worldcheck

SRC = os.path.join(core.VERIF, 'vf/data/shufflemalloc.c')


def preload():
    d = core.newdir('so')
    so = os.path.join(d, 'shuffle.so')
    r = core.run(['gcc', '-O1', '-shared', '-fPIC', '-fno-builtin-malloc',
                  '-o', so, SRC])
    if r.rc:
        raise build.BuildError(r.text)
    return so


def conditions(r, so):
    """Environments that must not matter."""
    pad = {'PAD_%d' % i: 'x' * r.randint(1, 4000) for i in range(r.randint(
        1, 5))}
    return [
        ('memory order', {'LD_PRELOAD': so,
                          'SHUFFLE_SEED': str(r.randrange(1 << 30))}),
        ('memory order and environment', dict(pad, **{
            'LD_PRELOAD': so, 'SHUFFLE_SEED': str(r.randrange(1 << 30))})),
        ('environment', dict(pad, **{
            'MALLOC_PERTURB_': str(r.randint(1, 255)),
            'LC_ALL': r.choice(['C', 'POSIX', 'en_US.UTF-8', 'tr_TR.UTF-8']),
            'HOME': '/nonexistent', 'COLUMNS': str(r.randint(1, 300)),
            'TERM': r.choice(['dumb', 'xterm-256color', '']),
            'TZ': 'Asia/Kathmandu', 'COLORTERM': 'truecolor'})),
    ]


def merged(cmd, cwd, env=None):
    return core.run(['sh', '-c', 'exec "$@" 2>&1', 'sh'] + cmd, cwd=cwd,
                    env=env)


def repeat(ck, so, key, cmd, cwd, tree=None, times=3):
    r = core.rng('C07', 'repeat', key)
    first = merged(cmd, cwd)
    if first.timeout:
        ck.maybe('timeout ' + key)
        return None
    for name, env in conditions(r, so)[:times]:
        again = merged(cmd, cwd, env)
        if again.timeout:
            ck.maybe('timeout ' + key)
            continue
        ck.count('repeated runs')
        if (again.rc, again.out) != (first.rc, first.out):
            a, b = first.out.splitlines(), again.out.splitlines()
            diff = ['- ' + x for x in a if x not in b] + \
                ['+ ' + x for x in b if x not in a]
            ck.violation('repeat:' + key, 'same program, other %s: exit %s '
                         'and %s\n%s' % (name, first.rc, again.rc, '\n'.join(
                             diff[:40] or ['(order of lines differs)'])),
                         tree=tree, cmd=cmd, files={
                             'first.txt': first.out, 'again.txt': again.out})
            break
    return first


# -- edits ------------------------------------------------------------------
def lines_ok(text):
    """Indices at which a line may be inserted."""
    ls, ok, incomment = text.split('\n'), [], False
    for i, l in enumerate(ls):
        if not incomment and (i == 0 or not ls[i - 1].rstrip().endswith('\\')):
            ok.append(i)
        k = l
        if incomment:
            if '*/' not in k:
                continue
            k, incomment = k.split('*/', 1)[1], False
        k = re.sub(r'//.*', '', re.sub(r'/\*.*?\*/', '', k))
        if '/*' in k:
            incomment = True
    return ls, ok


NOTES = ['', '', '', '// note', '/* note */', '/* a\n   b */', '   ', '\t',
         '// #include "nothing.h"', '/* #include <nothing> */', '// class X;',
         '// see IWYU docs', '//', '/**/', '/// @file', '// TODO: #if 0']


def comment(r, text, notes=NOTES):
    ls, ok = lines_ok(text)
    for i in sorted(r.sample(ok, min(len(ok), r.randint(1, 8))), reverse=True):
        ls.insert(i, r.choice(notes))
    return '\n'.join(ls)


def runs(ls):
    """Maximal runs of plain include lines."""
    res, cur = [], []
    for i, l in enumerate(ls + ['']):
        if re.match(r'#include [<"][^>"]*[>"]$', l):
            cur.append(i)
        elif cur:
            res.append(cur)
            cur = []
    return res


def reorder(r, text):
    ls = text.split('\n')
    for run in runs(ls):
        new = [ls[i] for i in run]
        r.shuffle(new)
        for i, l in zip(run, new):
            ls[i] = l
    return '\n'.join(ls)


def double(r, text):
    ls = text.split('\n')
    for run in reversed(runs(ls)):
        i = r.choice(run)
        ls.insert(r.choice(run), ls[i])
    return '\n'.join(ls)


def filler(r, tag):
    """Declarations enough to fill several of the allocator's slabs."""
    return ['extern int pad_%s_%d(int a, char* b, long c, int d[3]);' % (
        tag, i) for i in range(r.choice([1, 10, 40, 60]))]


def pad(r, w):
    files = dict(w.files)
    for n, p in enumerate(sorted(files)):
        if p == w.target or r.random() < .3:
            continue
        ls, at = files[p].split('\n'), 0
        if ls[0].startswith('#pragma once'):
            at = 1
        elif ls[0].startswith('#ifndef'):
            at = 2
        files[p] = '\n'.join(ls[:at] + filler(r, 'h%d' % n) + ls[at:])
    old = '\n'.join(w.body) + '\n'
    if old in files[w.target]:
        files[w.target] = files[w.target].replace(old, '\n'.join(
            '\n'.join(filler(r, 'b%d' % i) + [b]) if r.random() < .5 else b
            for i, b in enumerate(w.body)) + '\n')
    return files


def spell(r, p, d):
    base = os.path.basename(d)
    return r.choice([p, './' + p, p + '/', d + '/' + p, '../' + base + '/' + p,
                     p + '//', p + '/.', d + '//' + p])


def variants(r, w, d):
    """(name, files, command) of the same program written otherwise."""
    res = []
    files = dict(w.files)
    for p in files:
        if r.random() < .7 or p == w.target:
            files[p] = comment(r, files[p])
    res.append(('comments and blank lines', files, w.args, w.main))
    files = dict(w.files)
    for p in files:
        if p != w.main or p == w.target:
            files[p] = reorder(r, files[p])
    res.append(('order of includes', files, w.args, w.main))
    files = dict(w.files)
    for p in [w.target] + [u for u in w.umbrellas if r.random() < .3]:
        files[p] = double(r, files[p])
    res.append(('repeated includes', files, w.args, w.main))
    files = dict(w.files)
    body = w.body[:]
    r.shuffle(body)
    old = '\n'.join(w.body) + '\n'
    if old in files[w.target] and not any(l.lstrip().startswith('#')
                                          for b in body
                                          for l in b.split('\n')):
        files[w.target] = files[w.target].replace(
            old, '\n'.join(body) + '\n')
        res.append(('order of declarations', files, w.args, w.main))
    res.append(('unrelated declarations', pad(r, w), w.args, w.main))
    args, has = w.args[:], any(p.startswith('sys/') for p in w.files)
    paths = []
    while args:
        a = args.pop(0)
        if a == '-I.':
            s = r.choice(['.', './', d, d + '/', './.',
                          '../' + os.path.basename(d)] + ['sys/..'] * has)
            paths.append(r.choice([['-I' + s], ['-I', s]]))
        elif a == '-isystem':
            s = spell(r, args.pop(0), d)
            paths.append(r.choice([['-isystem', s], ['-isystem' + s]]))
        elif a == '-Xiwyu':
            paths.append([a, args.pop(0)])
        else:
            paths.append([a])
    if r.random() < .5:
        paths.append(['-I', 'no/such/dir'])
    if r.random() < .5:
        paths.append(['-DUNRELATED_%d=1' % r.randint(0, 9)])
    r.shuffle(paths)
    out = [x for p in paths for x in p]
    main = w.main
    if r.random() < .5:
        main = './' + main
    if r.random() < .3:
        out = [main] + out
        main = None
    res.append(('paths and order of options', dict(w.files), out, main))
    files = dict(w.files)
    for p in files:
        if r.random() < .6 or p == w.target:
            files[p] = files[p].replace('\n', '\r\n')
    res.append(('line endings', files, w.args, w.main))
    return res


def norm(text, top, doubled=False):
    out = {}
    for rep in report.parse(text):
        name = os.path.relpath(os.path.join(top, rep.filename), top)
        rem = [re.sub(r'\s*// lines [\d-]+$', '', l.raw) for l in rep.removes]
        full = [re.sub(r'\s+', ' ', re.sub(r'\s*// lines [\d-]+$', '', l.raw))
                for l in rep.full]
        rem.sort()
        if doubled:
            rem = None
            if rep.correct:
                full = None
        out[name] = (rep.correct and not doubled, sorted(
            re.sub(r'\s+', ' ', l.raw) for l in rep.adds), rem, full)
    return out


def world_case(ck, binary, so, i):
    r = core.rng('C07', 'world', i)
    prof = r.choice(sorted(worldcheck.PROFILES))
    w = world.World(r, world.Opts(**dict(
        worldcheck.PROFILES[prof], layout_noise=False)))
    d = os.path.realpath(core.newdir('w'))
    w.write(d)
    opts = r.choice([[], [], ['--verbose=3'], ['--verbose=2'],
                     ['--comment_style=long'], ['--update_comments'],
                     ['--max_line_length=1000']])
    pre = [binary] + [x for o in opts for x in ('-Xiwyu', o)]
    key = 'world-%d' % i
    first = repeat(ck, so, key, pre + w.args + [w.main], d, tree=d,
                   times=1 if r.random() < .7 else 3)
    if first is None:
        core.rmtree(d)
        return
    ck.case((prof, w.signature()), 'world %d (%s): %d uses' % (
        i, prof, len(w.uses)))
    try:
        want = {k: norm(first.out, d, k) for k in (False, True)}
    except report.ParseError as e:
        ck.violation('report:' + key, str(e), tree=d, cmd=first.cmd)
        core.rmtree(d)
        return
    for name, files, args, main in variants(r, w, d):
        e = d
        if files != w.files:
            e = os.path.realpath(core.newdir('v'))
            core.write_tree(e, files)
        cmd = pre + args + ([main] if main else [])
        if name.startswith('unrelated'):
            again = repeat(ck, so, key + '-padded', cmd, e, tree=e) or \
                merged(cmd, e)
        else:
            again = merged(cmd, e)
        if again.timeout:
            ck.maybe('timeout ' + key)
        else:
            ck.count('edited: ' + name)
            doubled = name == 'repeated includes'
            try:
                got = norm(again.out, e, doubled)
            except report.ParseError as x:
                got = str(x)
            if doubled and isinstance(got, dict):
                for f, x in want[True].items():
                    if x[3] is None and f in got:
                        got[f] = got[f][:3] + (None,)
            if got != want[doubled] or again.rc != first.rc:
                ck.violation('edit:%s:%s' % (name.replace(' ', '-'), key),
                             'after a change of the %s (exit %s, was %s):\n%s'
                             % (name, again.rc, first.rc, '\n'.join(
                                 diff(want[doubled], got))), tree=e, cmd=cmd,
                             files={'first.txt': first.out,
                                    'again.txt': again.out})
        if e != d:
            core.rmtree(e)
    core.rmtree(d)


def tangle(r):
    """A program in which most choices are between several declarations."""
    names = ['T%d' % i for i in range(r.randint(2, 6))]
    space = {n: r.choice(['', '', 'n', 'n::m']) for n in names}
    tpl = {n: r.random() < .3 for n in names}
    kind = {n: r.choice(['class', 'struct']) for n in names}

    def full(n):
        return ('::' + space[n] + '::' if space[n] else '::') + n

    def decl(n):
        d = ('template <class X> ' if tpl[n] else '') + kind[n] + ' ' + n + ';'
        return 'namespace %s { %s }' % (space[n], d) if space[n] else d

    def definition(n):
        d = ('template <class X> ' if tpl[n] else '') + \
            '%s %s { public: int a; void m(); };' % (kind[n], n)
        return 'namespace %s { %s }' % (space[n], d) if space[n] else d

    count = [0]

    def use(n):
        count[0] += 1
        k = count[0]
        t = full(n) + ('<int>' if tpl[n] else '')
        if space[n] == '' and not tpl[n] and r.random() < .3:
            return 'class F%d { friend class %s; };' % (k, n) \
                if kind[n] == 'class' else 'class F%d { friend struct %s; };' \
                % (k, n)
        return r.choice([
            'inline void u%d(%s* p) { (void)p; }' % (k, t),
            '%s%s* v%d;' % ('extern ', t, k),
            'class G%d { %s& r; };' % (k, t),
            '%s* w%d();' % (t, k)])

    def fill():
        count[0] += 1
        return '\n'.join(filler(r, 'x%d' % count[0]))

    heads = ['h%02d.h' % i for i in range(r.randint(2, 12) if r.random() < .8
                                          else r.randint(80, 200))]
    files, home = {}, {n: r.choice(heads) for n in names}
    for i, h in enumerate(heads):
        body = ['#pragma once'] + [
            '#include "%s"' % x for x in heads[:i] if len(heads) < 20 and
            r.random() < .15]
        for n in r.sample(names, r.randint(0, len(names))):
            body.append(decl(n))
            if r.random() < .3:
                body.append(use(n))
            if r.random() < .2:
                body.append(fill())
        body += [definition(n) for n in names if home[n] == h]
        if r.random() < .2:
            body.insert(1, '// IWYU pragma: private, include "%s"' %
                        r.choice(heads))
        files[h] = '\n'.join(body) + '\n'
    main = ['#include "%s"' % h for h in heads if r.random() < .9]
    files['main.h'] = '\n'.join(['#pragma once'] + [
        decl(n) for n in names
        if r.random() < .4]) + '\n'
    if r.random() < .6:
        main.insert(0, '#include "main.h"')
    for i in range(r.randint(4, 14)):
        n = r.choice(names)
        main.append(decl(n))
        if r.random() < .4:
            main.append(fill())
        main.append(decl(n))
        main.append(use(n))
        if r.random() < .2 and space[n]:
            main.append('using %s;' % full(n)[2:])
    files['main.cc'] = '\n'.join(main) + '\n'
    opts = []
    if r.random() < .5 or len(heads) > 20:
        opts += ['-Xiwyu', '--check_also=' + r.choice(['*', '*', '*h0*.h'])]
    if r.random() < .3:
        opts += ['-Xiwyu', '--verbose=3']
    if r.random() < .2:
        opts += ['-Xiwyu', '--cxx17ns']
    return files, opts


def tangle_case(ck, binary, so, i):
    r = core.rng('C07', 'tangle', i)
    files, opts = tangle(r)
    d = core.newdir('t')
    core.write_tree(d, files)
    key = 'tangle-%d' % i
    cmd = [binary] + opts + ['-std=c++17', 'main.cc']
    first = repeat(ck, so, key, cmd, d, tree=d)
    if first is not None:
        ck.case(('tangle', files['main.cc']), 'tangle %d: exit %s' % (
            i, first.rc))
    core.rmtree(d)


def special(kind, binary, r):
    """Programs of the other monitors: mappings, pragmas, associations."""
    if kind == 'mappings':
        w = mapworld.World(r)
        files = w.files()
        files['map.imp'] = mapworld.dump(w.entries)
        return files, mapworld.command(binary, w, ['map.imp'])
    if kind == 'exports':
        w = expworld.World(r)
        return w.files(), mapworld.command(binary, w, [])
    if kind == 'associations':
        w = assocworld.World(r)
        return w.tree(), w.command(binary)
    w = pragworld.World(r)
    return w.tree(), w.command(binary)


def special_case(ck, binary, so, i):
    kind = ('mappings', 'exports', 'associations', 'pragmas')[i % 4]
    r = core.rng('C07', kind, i)
    files, cmd = special(kind, binary, r)
    d = os.path.realpath(core.newdir('s'))
    core.write_tree(d, files)
    key = '%s-%d' % (kind, i)
    first = repeat(ck, so, key, cmd, d, tree=d, times=2)
    if first is None:
        core.rmtree(d)
        return
    ck.case((kind, i), '%s %d: exit %s' % (kind, i, first.rc))
    edited = {p: comment(r, t) if p.rsplit('.', 1)[-1] != 'imp' else t
              for p, t in sorted(files.items())}
    e = os.path.realpath(core.newdir('v'))
    core.write_tree(e, edited)
    again = merged(cmd, e)
    if again.timeout:
        ck.maybe('timeout ' + key)
    else:
        ck.count('edited: ' + kind)
        try:
            x, y = norm(first.out, d), norm(again.out, e)
        except report.ParseError as x:
            x, y = {}, str(x)
        if x != y or first.rc != again.rc:
            ck.violation('edit:' + key, 'with blank lines and comments added '
                         '(exit %s, was %s):\n%s' % (
                             again.rc, first.rc, '\n'.join(diff(x, y))),
                         tree=e, cmd=cmd, files={'first.txt': first.out,
                                                 'again.txt': again.out})
    core.rmtree(d)
    core.rmtree(e)


def diff(a, b):
    if isinstance(b, str):
        return [b]
    out = []
    for f in sorted(set(a) | set(b)):
        x, y = a.get(f), b.get(f)
        if x == y:
            continue
        out.append('%s:' % f)
        if x is None or y is None:
            out.append('  only in one of them')
            continue
        for n, p, q in zip(('correct', 'add', 'remove', 'full'), x, y):
            if p != q:
                out.append('  %s: %s' % (n, p))
                out.append('  %s: %s' % (' ' * len(n), q))
    return out


def corpus_case(ck, binary, so, f, tree):
    u = corpus.util(binary)
    try:
        u._CheckPrerequisites(f)
    except Exception:
        return
    args = u._GetLaunchArguments(f)
    r = core.rng('C07', 'corpus', f)
    level = r.choice([2, 3, 3])
    cmd = [binary, '-Xiwyu', '--verbose=%d' % level] + args + [f]
    first = repeat(ck, so, f, cmd, core.REPO, times=3)
    if first is None:
        return
    ck.case(('corpus', f))
    cmd = [binary] + args + [f]
    a, b = merged(cmd, core.REPO), merged(cmd, tree)
    if a.timeout or b.timeout:
        ck.maybe('timeout ' + f)
        return
    ck.count('edited: corpus')
    try:
        x, y = norm(a.out, core.REPO), norm(b.out, tree)
    except report.ParseError:
        return
    if x != y or a.rc != b.rc:
        ck.violation('edit:corpus:' + f, 'with blank lines and comments added '
                     '(exit %s, was %s):\n%s' % (b.rc, a.rc, '\n'.join(diff(
                         x, y))), cmd=cmd, files={'first.txt': a.out,
                                                  'again.txt': b.out})


def corpus_tree():
    """The bundled programs with harmless lines added."""
    d = core.newdir('corpus')
    shutil.copytree(os.path.join(core.REPO, 'tests'), os.path.join(d, 'tests'))
    r = core.rng('C07', 'tree')
    for p, _, fs in os.walk(d):
        for f in sorted(fs):
            if f.rsplit('.', 1)[-1] not in ('h', 'cc', 'c', 'hpp', 'inc'):
                continue
            q = os.path.join(p, f)
            text = open(q, encoding='utf-8', errors='surrogateescape',
                        newline='').read()
            if 'R"' in text or '\r' in text:
                continue
            with open(q, 'w', encoding='utf-8', errors='surrogateescape',
                      newline='') as o:
                o.write(comment(r, text, ['', '// note', '  ', '/* note */']))
    return d


def main():
    ck = core.Check('C07', 'a program was analysed again under other '
                    'conditions or after an edit without meaning')
    binary = build.iwyu('rel')
    so = preload()
    ck.assumptions = ['At verbosity 4 and above traces contain addresses and '
                      'are not compared']
    tree = corpus_tree()
    core.pmap(lambda f: corpus_case(ck, binary, so, f, tree),
              corpus.programs())
    core.pmap(lambda i: tangle_case(ck, binary, so, i),
              range(core.n_cases(250, 6000)))
    core.pmap(lambda i: special_case(ck, binary, so, i),
              range(core.n_cases(400, 8000)))
    core.pmap(lambda i: world_case(ck, binary, so, i),
              range(core.n_cases(350, 12000)))
    ck.finish()


core.main(main)
