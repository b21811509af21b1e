#!/usr/bin/env python3
"""C20: advice on the symbols of the standard libraries."""
import collections
import json
import os
import sys

import _path  # noqa: F401
from vf import build, core
from vf import stdprobe as S

PIN = collections.defaultdict(set)      # for tools/pinstd


def allowed(u, table, tables, extra, n, strict=False):
    ok = set()
    for lang in {'c': ('C',), 'cglobal': ('C', 'CXX')}.get(u.name, ('CXX',)):
        ok |= set(table[lang].get(n, ()))
        ok |= set(table[lang].get('std::' + n, ()))
    if not strict:
        ok |= set(extra.get(u.name, {}).get(n, ()))
        ok |= set(e[2] for e in tables['libc_symbol_map'] if e[0] == n)
        ok |= set(e[2] for e in tables['stdlib_cxx_symbol_map'] if e[0] == n)
    # What the standard says to include another.
    if '<stdint.h>' in ok:
        ok.add('<inttypes.h>')
    if '<cstdint>' in ok:
        ok.add('<cinttypes>')
    if u.name != 'c':
        # C headers and their C++ counterparts stand for each other.
        for a, _, b, _ in tables['stdlib_c_include_map']:
            if a in ok or b in ok:
                ok |= {a, b}
        # The stream headers stand for what each of them includes.
        if ok & IOS:
            ok |= STREAMS
    return ok


IOS = {'<%s>' % h for h in 'ios iosfwd istream ostream streambuf iostream'
       .split()}
STREAMS = {'<%s>' % h for h in 'fstream sstream iostream istream ostream '
           'iomanip ios syncstream spanstream strstream'.split()}
# Aliases declared in <iosfwd>: their templates' headers come separately.
ALIAS = {'std::' + w + n for w in ('', 'w') for n in (
    'istringstream ostringstream stringstream stringbuf ifstream ofstream '
    'fstream filebuf ispanstream ospanstream spanstream spanbuf osyncstream '
    'syncbuf').split()}


# libstdc++ 13 has these in <algorithm> (PR 108760).
LIBRARY_BUGS = {'std::ranges::iota', 'std::ranges::iota_result'}


def counterparts(headers, tables):
    """With the C++ headers that stand for C ones, and the reverse: each is as
    good."""
    return sorted(set(headers) | {
        x for a, _, b, _ in tables['stdlib_c_include_map']
        for x in (a, b) if (a in headers or b in headers) and
        '$' not in x and S.installed_std(x[1:-1]) and x not in ODD})


# What has the contents of other headers in C++.
ODD = {'<ccomplex>', '<ctgmath>', '<complex.h>', '<tgmath.h>'}


def judge_group(ck, binary, u, label, names, ctx, opts=(), strict=False):
    table, tables, extra = ctx
    res, got, d, cmd = S.analyse(binary, u, ['"all.h"'], names, opts)
    where = '%s-%s' % (u.name, label)
    pre = 'clang_mappings:' if strict else ''
    try:
        if res.timeout:
            ck.maybe('timeout ' + where)
            return
        if ' should add' not in res.err:
            ck.violation('nothing:' + where, 'no header is suggested for any '
                         'of\n%s\n%s' % (names[:50], res.err[:2000]), tree=d,
                         cmd=cmd)
            return
        attr = S.attribute(names, got)
        ck.count('symbols probed', len(names))
        ck.count('symbols attributed', len(attr))
        ck.count('headers suggested', len(got))
        for n in names:
            ck.case((u.name, n), '%s -> %s' % (n, sorted(attr.get(n, ()))))
        for h in sorted(got):
            if S.INTERNAL.search(h[1:-1]):
                ck.violation(pre + 'internal:' + h[1:-1], '%s: an implementation '
                             'header is suggested: %s for %s' % (
                                 where, h, got[h][:10]), tree=d, cmd=cmd)
        for n in sorted(attr):
            hs = set(h for h in attr[n] if not S.INTERNAL.search(h[1:-1]))
            odd = hs - allowed(u, table, tables, extra, n, strict)
            if odd:
                if not strict:
                    PIN[u.name, n] |= odd
                ck.violation(pre + '%s:%s' % (u.name, n) if strict else
                             'undocumented:' + n,
                             '%s: %s is not documented to be in %s' % (
                                 where, n, sorted(odd)), tree=d, cmd=cmd)
        cxx = u.name != 'c'
        got = [h for h in sorted(got) if not S.INTERNAL.search(h[1:-1])]
        here = [n for n in names if not any(
            S.INTERNAL.search(h[1:-1]) for h in attr.get(n, ()))]
        # All suggestions together, and those for each set of symbols.
        sets = collections.defaultdict(list)
        for n in here:
            if attr.get(n) and n not in ALIAS | LIBRARY_BUGS:
                sets[frozenset(attr[n])].append(n)
        bad = u.failing(counterparts(got, tables) if cxx else got, here)
        for n in sorted(map(str, bad or ())):
            ck.violation('clang_mappings:iosfwd' if strict and '<iosfwd>' in
                         table['CXX'].get(n, ()) else
                         (pre or 'missing:') + '%s:%s' % (u.name, n), '%s: with everything '
                         'that is suggested, %s does not compile' % (where, n),
                         tree=d, cmd=cmd)
        for hs, ns in sorted(sets.items(), key=str):
            bad = u.failing(counterparts(hs, tables) if cxx else sorted(hs),
                            ns)
            ck.count('compiled with their own headers only', len(ns))
            for n in sorted(map(str, bad or ())):
                ck.violation((pre or 'not-provided:') + '%s:%s' % (u.name, n),
                             '%s does not provide %s' % (sorted(hs), n),
                             tree=d, cmd=cmd)
    finally:
        core.rmtree(d)


def judge_present(ck, binary, u, header, names, ctx, opts=()):
    """With the header included, its symbols need no other."""
    table, tables, extra = ctx
    bad = u.failing([header], names)
    if bad is None or None in bad:
        ck.maybe('cannot compile ' + header)
        return
    names = [n for n in names if n not in bad]
    if not names:
        return
    res, got, d, cmd = S.analyse(binary, u, [header], names, opts)
    ck.case(('present', u.name, header, tuple(opts)))
    ck.count('headers present', 1)
    ck.count('symbols with a listed header present', len(names))
    if res.timeout:
        ck.maybe('timeout')
    else:
        attr = S.attribute(names, got)
        # Other names may come up with these, with headers of their own.
        bad = set()
        for n in sorted(attr):
            for h in sorted(attr[n]):
                if S.INTERNAL.search(h[1:-1]):
                    key = 'internal:' + h[1:-1]
                elif h not in allowed(u, table, tables, extra, n):
                    key = 'undocumented:' + n
                elif h in extra.get(u.name, {}).get(n, ()):
                    continue
                else:
                    bad.add(h)
                    continue
                ck.violation(key, '%s is there, but for %s this is suggested: '
                             '%s' % (header, n, h), tree=d, cmd=cmd)
        if bad or not attr and not got and 'has correct #includes' not in res.err:
            ck.violation('present:%s:%s' % (u.name, header[1:-1]),
                         '%s is there, but for %s this is said:\n%s' % (
                             header, names, res.err[:3000]), tree=d, cmd=cmd)
    core.rmtree(d)


def main():
    ck = core.Check('C20', 'a use of a library symbol was analysed; distinct '
                    'by language and symbol')
    binary = build.iwyu('rel')
    ck.assumptions = ['The installed glibc 2.39 and libstdc++ 13 stand for '
                      'the libraries the tables describe']
    table, tables = S.load()
    ctx = (table, tables, S.extra())
    us = {u.name: u for u in S.universes()}
    jobs = []
    for u in us.values():
        ck.count('symbols usable here', len(u.use))
        names = sorted(u.use)
        jobs.append((u, 'all', names, (), False))
        for i, g in enumerate(S.groups(names, 12 if core.TIER == 'quick'
                                       else 300)):
            jobs.append((u, 'group%d' % i, g, (), False))
    flag = ('--experimental=clang_mappings',)
    for n in ('std', 'c'):
        jobs.append((us[n], 'clang', [
            x for x in sorted(us[n].use)
            if table['C' if n == 'c' else 'CXX'].get(x)], flag, True))
    core.pmap(lambda j: judge_group(ck, binary, j[0], j[1], j[2], ctx, j[3],
                                    j[4]), jobs)
    present = []
    for u, key in (('c', 'C'), ('cglobal', 'CXX')):
        by = collections.defaultdict(set)
        for s, _, h, _ in tables['libc_symbol_map']:
            by[h].add(s)
            if u == 'cglobal':
                for a, _, b, _ in tables['stdlib_c_include_map']:
                    if a == h:
                        by[b].add(s)
        for h in by:
            ns = sorted(n for n in by[h] if n in us[u].use)
            if ns and S.installed(h[1:-1]) or not h.endswith('.h>'):
                present.append((us[u], h, ns))
    by = collections.defaultdict(set)
    for s, _, h, _ in tables['stdlib_cxx_symbol_map'] + \
            tables['libstdcpp_symbol_map']:
        by[h].add(s)
    # Public headers that stand in for others.
    over = collections.defaultdict(set)
    for a, _, b, _ in tables['stdlib_cpp_include_map']:
        over[a].add(b)
    for n, hs in table['CXX'].items():
        if not n.startswith('std::'):
            continue
        seen, todo = set(), hs[:1]
        while todo:
            h = todo.pop()
            if h not in seen:
                seen.add(h)
                todo += over[h]
        for h in seen:
            if h in over or any(h in x for x in over.values()):
                by[h].add(n)
    for h in by:
        for u in ('std', 'std17'):
            present.append((us[u], h, sorted(
                n for n in by[h] if n in us[u].use)))
    core.pmap(lambda j: judge_present(ck, binary, *(j + (ctx,))),
              [p for p in present if p[2]])
    if '--pin' in sys.argv:
        out = collections.defaultdict(dict)
        for (u, n), hs in sorted(PIN.items()):
            out[u][n] = sorted(hs)
        old = S.extra()
        for u in old:
            for n in old[u]:
                out[u][n] = sorted(set(out[u].get(n, ())) | set(old[u][n]))
        with open(os.path.join(S.DATA, 'std_extra.json'), 'w') as f:
            json.dump(out, f, indent=0, sort_keys=True)
    ck.finish()


core.main(main)
