#!/usr/bin/env python3
"""C28: mapping generators emit loadable mappings true to the header tree."""
import os
import re
import sys

import _path  # noqa: F401
from vf import build, core, mapping, mapprobe

GEN = os.path.join(core.REPO, 'mapgen')
SHUFFLE = os.path.join(core.VERIF, 'vf/data/shuffle.py')
EXPLICIT = {'bits/exception.h': 'exception', 'debug/vector': 'vector'}
IGNORED = {'backward/backward_warning.h', 'bits/c++0x_warning.h'}


def include_line(r, name, quote):
    q = '"%s"' % name if quote else '<%s>' % name
    line = r.choice(['#include %s', '#include %s', '# include %s',
                     '  #  include  %s', '\t#include %s', '#include%s']) % q
    return line + r.choice(['', '', '', ' // see <other.h>', ' /* "x" */',
                            '  // IWYU pragma: export', ' // a > b'])


def text(r, includes, extra=''):
    """A header with these include lines among other lines."""
    lines = []
    for l in includes:
        while r.random() < .4:
            lines.append(r.choice([
                '// a comment', '#if VF', '#endif', '', 'int x;',
                '#define VF 1', '/* block */', '#pragma once',
                '// caf\u00e9', '#include MACRO', '#warning include']))
        lines.append(l)
    if extra:
        lines.insert(r.randint(0, len(lines)), extra)
    s = r.choice(['\n', '\n', '\n', '\r\n']).join(lines)
    return s + ('\n' if r.random() < .9 else '')


def blob(r, s):
    return s.encode('latin-1' if r.random() < .08 else 'utf-8')


# ---- libstdc++ -------------------------------------------------------------
def stdcxx(r):
    public = r.sample(['vector', 'map', 'set', 'exception', 'ext/rope',
                       'ext/pb_ds/assoc.hpp', 'tr1/x', 'future', 'cxxabi.h',
                       'experimental/any', 'vector.h', 'a b.h', 'c++io',
                       'backward/hash_set', 'bits.h', 'mydebug/vector'],
                      r.randint(1, 9))
    private = r.sample(['bits/a.h', 'bits/b.h', 'bits/c.h', 'bits/exception.h',
                        'debug/vector', 'debug/map.h', 'ext/bits/x.h',
                        'tr1/impl.tcc', 'ext/pb_ds/detail/tree.hpp',
                        'ext/pb_ds/detail/x/y.hpp', 'bits/v.tcc', 'note.h',
                        'bits/std++.h', 'bits/c++0x_warning.h', 'bits/d.h',
                        'bits/e', 'experimental/bits/q.h', 'dn/z.tcc'],
                       r.randint(1, 12))
    noted = {h for h in private if h == 'note.h' or r.random() < .15}
    names = public + private
    dens = r.choice([.05, .12, .3])
    inc = {h: [p for p in names + ['stdio.h', 'nothere.h'] if p != h and
               r.random() < dens] for h in names}
    for h in inc:
        if inc[h] and r.random() < .2:
            inc[h].append(r.choice(inc[h]))        # twice
        r.shuffle(inc[h])
    two = r.random() < .4
    files = {}
    for h in names:
        root = 't2/' if two and r.random() < .4 else 't/'
        note = ''
        if h in noted:
            note = r.choice([' *  Do not use; @headername{vector}',
                             '// @headername{map, set}',
                             '/** @file x  @headername{y} */'])
        body = text(r, [include_line(r, x, r.random() < .3) for x in inc[h]],
                    note)
        files[root + h] = blob(r, body)
    roots = ['t', 't2'] if two else ['t']
    if two:
        files.setdefault('t2/zz', b'')
        files.setdefault('t/zz0', b'')
    ign = IGNORED
    must, may = {}, {}
    for p in private:
        if p in noted or p in ign:
            continue
        pubs = {h for h in public if p in inc[h] and h not in ign}
        privs = {h for h in private if p in inc[h] and h not in ign}
        if pubs and p in EXPLICIT:
            pubs = {EXPLICIT[p]}
        if len(pubs) == 1:
            must['<%s>' % p, 'private', '<%s>' % list(pubs)[0], 'public'] = 1
        for h in privs:
            e = ('<%s>' % p, 'private', '<%s>' % h, 'private')
            (may if len(pubs) == 1 else must)[e] = 1
    return files, roots, must, may, 'iwyu-mapgen-libstdcxx.py', [
        r.choice(['--lang', '--lang=imp'])]


# ---- CPython ---------------------------------------------------------------
def cpython(r):
    names = r.sample(['Python.h', 'object.h', 'abstract.h', 'cpython/object.h',
                      'internal/pycore_x.h', 'datetime.h', 'longobject.h',
                      'c++obj.h', 'a-b.h', 'x.y.h', 'cpython/deep/z.h',
                      'pyconfig.h', 'stub$.h', 'a(b).h', 'inc.def'],
                     r.randint(1, 10))
    targets = names + ['missing.h', 'pyconfig-64.h', 'x86_64/pyconfig.h']
    want, files = set(), {}
    dens = r.choice([.05, .2, .4])
    for h in names:
        lines = []
        for t in targets:
            if r.random() < dens:
                if r.random() < .8:
                    lines.append(include_line(r, t, True)
                                 .replace('include"', 'include "'))
                    if h.endswith('.h'):
                        want.add(t)
                else:
                    lines.append('#include <%s>' % t)
        files['t/' + h] = blob(r, text(r, lines))
    want.discard('Python.h')
    return files, ['t'], want, None, 'iwyu-mapgen-cpython.py', []


# ---- Qt --------------------------------------------------------------------
def qt(r):
    files, classes = {}, []
    mods = r.sample(['QtCore', 'QtGui', 'QtWidgets', 'Qt3DCore', 'ActiveQt',
                     'QtNetworkAuth', 'Qt5Graph'], r.randint(1, 4))
    pool = ['QString', 'QHash', 'QPainterPath', 'Qt', 'QInternal', 'QMap',
            'QListIterator', 'QtMath', 'QScopedPointer', 'QMultiHash',
            'QRegularExpressionMatch', 'QtGlobal', 'qplugin', 'Q_PID',
            'QGraph', 'QX11Info']
    for m in mods:
        cs = r.sample(pool, r.randint(0, 6))
        if r.random() < .7:
            cs.append(m)
        for cl in cs:
            incs = ['%s.h' % (cl.lower() if r.random() < .6 else
                              r.choice(['qshared', 'qhash', 'private/x_p',
                                        'q.dot']))
                    for _ in range(r.choice([1, 1, 1, 0, 2, 3]))]
            if cl == m:
                incs += [r.choice(['qstring.h', 'qhash.h', 'qtcoredepends.h'])
                         for _ in range(r.randint(0, 4))]
            style = r.choice(['', '', '', ' // one', ' /* a.h "b" */'])
            body = ''.join('#include "%s"%s\n' % (i, style) for i in incs)
            if r.random() < .2:
                body = '#ifndef X\n' + body + '#include <QtCore/q.h>\n#endif'
            files['t/%s/%s' % (m, cl)] = blob(r, body)
            if cl != 'QInternal':
                classes.append((m, cl, [i[:-2] for i in incs]))
        for h in r.sample(['qstring.h', 'qhash.h', 'qtmath.h'], 2):
            files['t/%s/%s' % (m, h)] = blob(r, text(r, [
                include_line(r, 'qglobal.h', True)]))
        if r.random() < .3:
            files['t/%s/private/qx_p.h' % m] = b'#include "qy_p.h"\n'
    files.setdefault('t/QtCore/qnamespace.h', b'')
    return files, ['t'], classes, None, 'iwyu-mapgen-qt.py', []


def judge_qt(entries, classes):
    bad = []
    syms = [v for k, v in entries if k == 'symbol']
    incs = [v for k, v in entries if k == 'include']
    have = {(v[0], v[2]) for v in syms}
    for m, cl, _ in classes:
        if (cl, '<%s>' % cl) not in have:
            bad.append('no symbol entry for class header %s/%s' % (m, cl))
    known = {cl for _, cl, _ in classes}
    for s, h in sorted(have):
        if s not in known and h not in ('<QObject>', '<QtGlobal>'):
            bad.append('symbol entry %s -> %s for no class header' % (s, h))
    for m, cl, hs in classes:
        for h in hs:
            for q in ('<%s/%s.h>' % (m, h), '"%s/%s.h"' % (m, h),
                      '<%s.h>' % h, '"%s.h"' % h):
                if not any(v[2] == '<%s>' % cl and re.fullmatch(v[0][1:], q)
                           for v in incs):
                    bad.append('%s is not mapped to %s' % (q, cl))
    for n, v in enumerate(incs):
        hit = [(m, h) for m, cl, hs in classes if '<%s>' % cl == v[2]
               for h in hs if re.fullmatch(v[0][1:], '<%s.h>' % h)]
        if not hit and (v[2] != '<Qt>' or 'qnamespace' not in v[0]):
            bad.append('entry %s is not in the tree' % v)
        if re.fullmatch(v[0][1:], '<qhashxh>'):
            bad.append('the pattern %s matches too much' % v[0])
        # A module's own header comes after the class headers.
        if v[2][1:-1] in {m for m, cl, _ in classes if m == cl}:
            for w in incs[n + 1:]:
                if w[2][1:-1] not in {m for m, cl, _ in classes if m == cl}:
                    bad.append('class header %s after module header %s' % (
                        w, v))
                    break
    return bad


# ---- Apple libc ------------------------------------------------------------
def apple(r):
    dirs = ['', 'xlocale/', 'machine/', 'arm/', 'arm64/', 'i386/', 'sys/',
            'sys/xlocale/', 'sys/machine/', 'sys/arm/', 'net/', 'arm/sub/']
    names = ['stdio.h', '_stdio.h', 'limits.h', '_limits.h', '__types.h',
             '_types.h', 'types.h', 'profile.h', '_profile.h', 'a-b.h']
    files = {}
    for d in dirs:
        for n in names:
            if r.random() < r.choice([.1, .3, .5]):
                files['t/' + d + n] = b'int x;\n'
    if r.random() < .3:
        files['t/_notaheader.c'] = b''
    files.setdefault('t/stdio.h', b'')
    have = {f[2:] for f in files if f.endswith('.h')}

    def step(p):
        d, n = os.path.split(p)
        up, last = os.path.split(d)
        cands = []
        if last == 'xlocale':
            cands.append(os.path.join(up, n))
        if n.startswith('_'):
            cands.append(os.path.join(d, n[1:]))
        if last in ('arm', 'arm64', 'i386'):
            cands.append(os.path.join(up, 'machine', n))
        if last == 'machine' and n != 'profile.h':
            cands.append(os.path.join(up, n))
        return [c for c in cands if c in have]
    ends, must = {}, set()
    for h in have:
        p = h                  # one pass over the documented rules
        d, n = os.path.split(p)
        if os.path.basename(d) == 'xlocale' and \
                os.path.join(os.path.dirname(d), n) in have:
            p = os.path.join(os.path.dirname(d), n)
        while os.path.basename(p).startswith('_'):
            q = os.path.join(os.path.dirname(p), os.path.basename(p)[1:])
            if q not in have:
                break
            p = q
        for froms, to in ((('arm', 'arm64', 'i386'), 'machine'),
                          (('machine',), '')):
            d, n = os.path.split(p)
            q = os.path.join(os.path.dirname(d), to, n)
            if os.path.basename(d) in froms and q in have and \
                    (to or n != 'profile.h'):
                p = q
        if p != h and not os.path.basename(p).startswith('_'):
            must.add(h)
        seen, work = set(), [h]
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += step(x)
        ends[h] = {x for x in seen if not step(x) and
                   not os.path.basename(x).startswith('_') and x != h}
    return files, ['t'], ends, must, 'iwyu-mapgen-apple-libc.py', []


def judge_apple(entries, ends, must):
    bad, got = [], {}
    for k, v in entries:
        if k != 'include' or v[1] != 'private' or v[3] != 'public':
            bad.append('entry %s' % v)
        got.setdefault(v[0][1:-1], []).append(v[2][1:-1])
    for h in sorted(set(got) | set(ends)):
        e = ends.get(h, set())
        if len(got.get(h, [])) > 1:
            bad.append('%s has several entries' % h)
        for t in got.get(h, []):
            if t not in e:
                bad.append('%s -> %s, but its public headers are %s' % (
                    h, t, sorted(e)))
        if h not in got and h in must:
            bad.append('no entry for %s -> %s' % (h, sorted(e)))
    return bad


MAKERS = [stdcxx, stdcxx, cpython, qt, qt, apple]
ENTRY_CXX = re.compile(r'\s*\{ "(.*?)", kPrivate, "(.*?)", k(\w+) \},')


def generate(d, script, args, seed):
    return core.run([sys.executable, '-B', SHUFFLE, str(seed),
                     os.path.join(GEN, script)] + args, cwd=d,
                    env={'PYTHONHASHSEED': str(seed % 1000)})


def one(i, b, c):
    r = core.rng('c28', i)
    maker = MAKERS[i % len(MAKERS)]
    files, roots, want, may, script, args = maker(r)
    d = core.newdir('g')
    core.write_tree(d, files)
    args = args + (['imp'] if args == ['--lang'] else []) + roots
    key = '%s:%d:%d' % (maker.__name__, core.SEED, i)
    c.case((maker.__name__, sorted(files.items())))
    c.count('trees for ' + maker.__name__)

    def bad(what, detail):
        c.violation('%s:%s' % (what, key), '%s: %s' % (script, detail), tree=d)
        return True
    r1 = generate(d, script, args, i)
    if r1.timeout:
        c.maybe('generator time-out')
        return
    if r1.rc:
        return bad('fail', 'exit %s\n%s' % (r1.rc, r1.text[-1500:]))
    r2 = generate(d, script, args, i + 1)
    if not r2.timeout and r2.out != r1.out:
        return bad('order', 'the output depends on the order of directory '
                   'entries\n%s\n----\n%s' % (r1.out[:1500], r2.out[:1500]))
    core.write_tree(d, {'out.imp': r1.out})
    try:
        entries = mapping.parse(r1.out)
    except mapping.Bad as e:
        return bad('parse', 'malformed output: %s\n%s' % (e, r1.out[:1500]))
    c.count('entries emitted', len(entries))
    m = mapping.Model(entries)
    if m.conflicts:
        return bad('conflict', 'contradictory visibilities %s' % m.conflicts)
    if maker is stdcxx:
        got = {tuple(v) for k, v in entries if k == 'include'}
        miss = sorted(set(want) - got)
        extra = sorted(got - set(want) - set(may))
        errs = ['missing %s' % (x,) for x in miss] + \
            ['not in the tree: %s' % (x,) for x in extra]
        r3 = generate(d, script, [
            '--lang=c++' if a.startswith('--lang') else a for a in args
            if a != 'imp'], i)
        cxx = {(x, 'private', y, z.lower())
               for x, y, z in ENTRY_CXX.findall(r3.out)}
        if not r3.timeout and (r3.rc or cxx != got):
            errs.append('the C++ form differs: %s' % sorted(cxx ^ got))
    elif maker is cpython:
        errs = []
        pats = [(v[0], v) for k, v in entries]
        for p, v in pats:
            hit = {t for t in want for q in ('<%s>', '"%s"')
                   if re.fullmatch(p[1:], q % t)}
            if p[0] != '@' or v[1:] != ['private', '<Python.h>', 'public'] or \
                    len(hit) != 1:
                errs.append('entry %s is for %s' % (v, sorted(hit)))
        for t in sorted(want):
            for q in ('<%s>', '"%s"'):
                if sum(bool(re.fullmatch(p[1:], q % t)) for p, _ in pats) != 1:
                    errs.append('%s is not mapped once' % (q % t))
        for p, v in pats:
            for t in want | {'Python.h'}:
                for s in (t.replace('.', 'x'), 'x' + t, t + 'x'):
                    if s not in want and re.fullmatch(p[1:], '"%s"' % s):
                        errs.append('%s matches "%s"' % (p, s))
            if re.fullmatch(p[1:], '<Python.h>'):
                errs.append('%s matches Python.h' % p)
    elif maker is qt:
        errs = judge_qt(entries, want)
    else:
        errs = judge_apple(entries, want, may)
    if errs:
        return bad('entries', '\n'.join(errs[:12]) + '\n----\n' +
                   r1.out[:1500])
    # The tool loads it and does what it says.
    names = []
    for k, v in entries:
        if k == 'symbol':
            names.append(('macro', v[0]))
        elif v[0][0] == '@':
            s = mapprobe.sample_regex(r, v[0][1:])
            names += [('header', s)] if s else []
        else:
            names.append(('header', v[0]))
    ps = [mapprobe.Probe(*x) for x in dict.fromkeys(names)]
    ps = [p for p in ps if p.usable()]
    for g in mapprobe.batches(ps or [mapprobe.Probe('macro', 'VF_NONE')], 400):
        pd, res = mapprobe.run(b, g, ['--no_default_mappings',
                                      '--mapping_file=' + d + '/out.imp'])
        if res.timeout:
            c.maybe('tool time-out')
            continue
        if res.rc == 1 and ': error: ' in res.text and 'm.cc' in res.text:
            c.maybe('probe does not compile: ' + res.text[:300])
            continue
        if res.rc or 'out.imp' in res.text:
            bad('load', 'the tool does not take the output: exit %s\n%s' % (
                res.rc, res.text[:800]))
            return
        model = mapping.Model(entries, [p.name for p in g
                                        if p.kind == 'header'])
        for p in g:
            want = model.headers(p.name) if p.kind == 'header' else \
                model.symbol(p.name)
            if p.got is None:
                c.maybe('no report')
                break
            c.count('entries probed')
            if want and (len(p.got) != 1 or p.got[0] not in want):
                bad('effect', 'using %r leads to %s; expected %s' % (
                    p, p.got, want))
                return
        core.rmtree(pd)
    core.rmtree(d)


def main():
    c = core.Check('C28', 'distinct generated header trees, each given to a '
                   'generator under two directory orders')
    b = build.iwyu('rel')
    core.pmap(lambda i: one(i, b, c), range(core.n_cases(420, 12000)))
    c.finish()


if __name__ == '__main__':
    core.main(main)
