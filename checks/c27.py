#!/usr/bin/env python3
"""C27: shipped mapping files load and lead from private to public.

With --baseline: record which (private, public) pairs the libraries installed
here do not support (other versions, conditional headers)."""
import functools
import glob
import json
import os
import re
import sys

import _path  # noqa: F401
from vf import build, core, mapping, mapprobe

BASE = os.path.join(core.VERIF, 'vf/data/mapping_baseline.json')
GCC = ['iwyu.gcc.imp']
DIRS = ['/usr/include/c++/13', '/usr/include/x86_64-linux-gnu/c++/13',
        '/usr/include/c++/13/backward', build.LLVM + '/lib/clang/20/include',
        '/usr/include/x86_64-linux-gnu', '/usr/include',
        '/usr/include/python3.12']
# Files that only complete another one.
PARTIAL = re.compile(r'-private\.imp$')


@functools.lru_cache(None)
def find(name, frm=None):
    if name.startswith('/'):
        return None
    for d in ([os.path.dirname(frm)] if frm else []) + DIRS:
        p = os.path.join(d, name)
        if os.path.isfile(p):
            return os.path.realpath(p)
    return None


class Library(object):
    """Which installed header leads to which, read off the text."""

    def __init__(self):
        self.inc = {}

    def includes(self, path):
        if path not in self.inc:
            res = set()
            try:
                text = open(path, encoding='latin-1').read()
            except OSError:
                text = ''
            for m in re.finditer(r'^[ \t]*#[ \t]*(?:include|include_next|'
                                 r'define[ \t]+\w+)[ \t]+(<[^>\n]+>|'
                                 r'"[^"\n]+")', text, re.M):
                q = m.group(1)
                p = find(q[1:-1], path if q[0] == '"' else None)
                if p and p != path and p.startswith('/usr/'):
                    res.add(p)
                if 'include_next' in m.group(0):
                    res |= {os.path.realpath(x) for x in (
                        os.path.join(d, q[1:-1]) for d in DIRS)
                        if os.path.isfile(x)} - {path}
            self.inc[path] = res
        return self.inc[path]

    def leads(self, start):
        seen, work = set(), [start]
        while work:
            p = work.pop()
            if p not in seen:
                seen.add(p)
                work += self.includes(p)
        return seen


LIB, CLOSURE = Library(), {}


def unsupported(entries):
    """Pairs the installed library contradicts, and pairs looked at."""
    lib, cache, bad, n = LIB, CLOSURE, [], 0
    for kind, v in entries:
        if kind != 'include' or v[0][0] == '@' or v[1] != 'private':
            continue
        a, b = find(v[0][1:-1]), find(v[2][1:-1])
        if not a:
            continue
        n += 1
        if not b:
            bad.append('%s %s' % (v[0], v[2]))
            continue
        if b not in cache:
            cache[b] = lib.leads(b)
        if a not in cache[b]:
            bad.append('%s %s' % (v[0], v[2]))
    return bad, n


def bad_symbols(entries):
    """Symbol entries whose header does not give the symbol here."""
    by = {}
    for kind, v in entries:
        if kind == 'symbol' and find(v[2][1:-1]) and v[2][0] == '<':
            by.setdefault(v[2], set()).add(v[0])
    jobs = [(h, s) for h in sorted(by) for s in sorted(by[h])]

    def fails(job):
        h, s = job
        text = '#include %s\n#ifndef %s\nusing ::%s;\n#endif\n' % (
            h, s if '::' not in s else 'VF_NONE', s)
        return core.run([core.CLANG, '-x', 'c++', '-std=c++20', '-w',
                         '-fsyntax-only', '-'], stdin=text).rc != 0
    return ['%s %s' % (s, h) for (h, s), f in
            zip(jobs, core.pmap(fails, jobs, keep=True)) if f], len(jobs)


def shipped():
    return sorted(glob.glob(os.path.join(core.REPO, '*.imp')))


def dead_ends(model):
    return sorted(k for k in model.edges if not model.public(k) and not any(
        model.public(h) for h in model.reach(model.edges[k])))


def baseline():
    res = {}
    for f in shipped():
        n = os.path.basename(f)
        es = mapping.load(f)
        if n in GCC:
            continue
        res[n] = {'pairs': sorted(set(unsupported(es)[0])),
                  'symbols': bad_symbols(es)[0]}
        if not PARTIAL.search(n):
            res[n]['dead'] = dead_ends(mapping.Model(es))
        print(n, {k: len(v) for k, v in res[n].items()})
    with open(BASE, 'w') as f:
        json.dump(res, f, indent=0, sort_keys=True)
        f.write('\n')


def loads(c, b, path):
    """The tool accepts the file without a word."""
    d = core.newdir('l')
    core.write_tree(d, {'e.cc': 'int x;\n', 'e.c': 'int x;\n'})
    for args, src in ((['--no_default_mappings'], 'e.cc'), ([], 'e.cc'),
                      ([], 'e.c'), (['--regex=ecmascript'], 'e.cc'),
                      (['--experimental=clang_mappings'], 'e.cc'),
                      (['-stdlib=libc++'], 'e.cc')):
        cmd = [b]
        for a in args + ['--mapping_file=' + path]:
            cmd += [a] if a.startswith('-std') else ['-Xiwyu', a]
        r = core.run(cmd + [src], cwd=d)
        n = os.path.basename(path)
        c.case(('load', n, tuple(args), src))
        c.count('loads')
        if r.timeout:
            c.maybe('time-out loading ' + n)
        elif r.rc or r.out.strip() or re.sub(
                r'^Experimental flag.*\n', '', r.err).strip() != \
                '(%s has correct #includes/fwd-decls)' % src:
            c.violation('load:' + n, 'loading %s with %s: exit %s\n%s' % (
                n, args, r.rc, r.text[-1500:]), cmd=cmd)


def static(c, path, base):
    n = os.path.basename(path)
    c.case(('static', n))
    try:
        es = mapping.load(path)
    except (mapping.Bad, OSError, UnicodeDecodeError) as e:
        c.violation('parse:' + n, '%s is not a well-formed mapping file: %s'
                    % (n, e))
        return None
    m = mapping.Model(es)
    for k, a, z in m.conflicts[:5]:
        c.violation('conflict:%s:%s' % (n, k), '%s calls %s both %s and %s'
                    % (n, k, a, z))
    rec = base.get(n, {})
    if not PARTIAL.search(n) and n not in GCC:
        for k in dead_ends(m):
            if k not in rec.get('dead', []):
                c.violation('dead:%s:%s' % (n, k), '%s: no public header is '
                            'reachable from private %s' % (n, k))
    if n in GCC:
        return es
    bad, seen = unsupported(es)
    c.count('pairs compared with the installed libraries', seen)
    for k in sorted(set(bad) - set(rec.get('pairs', []))):
        c.violation('pair:%s:%s' % (n, k), '%s maps %s, but the right header '
                    'does not lead to the left one' % (n, k))
    bad, seen = bad_symbols(es)
    c.count('symbols compared with the installed libraries', seen)
    for k in sorted(set(bad) - set(rec.get('symbols', []))):
        c.violation('symbol:%s:%s' % (n, k), '%s maps %s, but the header does '
                    'not declare it' % (n, k))
    return es


def probes(n, es, r):
    names = []
    for kind, v in es:
        if kind == 'symbol':
            names += [('var', v[0]), ('macro', v[0])]
        elif v[0][0] == '@':
            names += [('header', s) for s in (
                mapprobe.sample_regex(r, v[0][1:]) for _ in range(2)) if s]
        else:
            names.append(('header', v[0]))
    # Headers named on the right are judged too: a public one is itself.
    names += [('header', v[2]) for kind, v in es if r.random() < .2]
    return [mapprobe.Probe(*x) for x in dict.fromkeys(names)]


def judge(c, n, p, model, d, how):
    if p.got is None:
        c.maybe('%s: no report for %s in %s' % (n, p, d))
        return
    if p.kind == 'header':
        want = model.headers(p.name)
    else:
        want = model.symbol(p.name)
    c.case((n, how, repr(p)), '%s: %r -> %s' % (n, p, p.got))
    c.count('entries probed')
    if not want:
        return
    if len(p.got) != 1 or p.got[0] not in want:
        c.violation('entry:%s:%r' % (n, p), '%s (%s): using %r leads to %s; '
                    'its entries say %s' % (n, how, p, p.got, want[:8]),
                    tree=d)


def main():
    if '--baseline' in sys.argv:
        baseline()
        return
    c = core.Check('C27', 'distinct (mapping file, entry or load mode); an '
                   'entry is probed by a program that uses a thing from its '
                   'left side')
    b = build.iwyu('rel')
    base = json.load(open(BASE))
    files = shipped()
    core.pmap(lambda f: loads(c, b, f), files)
    work = []
    full = core.TIER != 'quick'
    for f in files:
        n = os.path.basename(f)
        es = static(c, f, base)
        if es is None:
            continue
        r = core.rng('c27', n)
        ps = probes(n, es, r)
        seen = [p for p in ps if p.usable()]
        c.count('entries not probeable', len(ps) - len(seen))
        nregex = sum(1 for k, v in es if v[0][0] == '@')
        if nregex > 300:         # every seen header is tried on each pattern
            hs = [p for p in seen if p.kind == 'header']
            r.shuffle(hs)
            seen = hs[:4000 if full else 300] + [
                p for p in seen if p.kind != 'header']
        dialects = [[]]
        if full and nregex or nregex and nregex < 200:
            dialects.append(['--regex=ecmascript'])
        for dia in dialects:
            for g in mapprobe.batches([mapprobe.Probe(p.kind, p.name)
                                       for p in seen],
                                      100 if nregex > 300 else 300):
                work.append((n, es, g, ['--no_default_mappings',
                                        '--mapping_file=' + f] + dia,
                             ['-nostdinc']))
        # The same tables are built in: without the file, same answers.
        if n in GCC:
            for g in mapprobe.batches([mapprobe.Probe(p.kind, p.name)
                                       for p in seen], 300):
                work.append((n, es, g, [], ['-nostdinc']))
        if n == 'libcxx.imp':
            es2 = es + [e for o in files if os.path.basename(o) in (
                'stl.c.headers.imp', 'stl.public.imp', 'gcc.libc.imp',
                'gcc.symbols.imp') for e in mapping.load(o)]
            for g in mapprobe.batches([mapprobe.Probe(p.kind, p.name)
                                       for p in seen], 300):
                work.append((n, es2, g, [], ['-stdlib=libc++']))

    def go(item):
        n, es, g, args, cc = item
        d, r = mapprobe.run(b, g, args, cc=cc)
        model = mapping.Model(es, [p.name for p in g if p.kind == 'header'])
        if r.rc == 1 and ': error: ' in r.text:
            c.maybe('probe program of %s does not compile' % n)
        elif r.rc and not r.timeout:
            c.violation('run:' + n, '%s %s: exit %s\n%s' % (
                n, args, r.rc, r.text[:1500]), tree=d)
        else:
            how = 'built in' if len(args) < 2 else ' '.join(args[2:]) or 'file'
            for p in g:
                judge(c, n, p, model, d, how)
        core.rmtree(d)
    core.pmap(go, work)
    c.finish(files=len(files), batches=len(work))


if __name__ == '__main__':
    core.main(main)
