#!/usr/bin/env python3
"""C03: definition demanded exactly when a declaration is not enough."""
import hashlib

import _path  # noqa: F401
from vf import build, core, corpus, oracle_snippets, report, worldcheck

CATS = {'broken', 'inc_fwdonly', 'inc_declonly', 'fwd_redundant'}

DEF = '''struct X {
  int field; int g; X(); X(int, int); ~X(); int m() const; static int sm();
  static int sf; operator int() const; int operator[](int) const;
  X operator+(const X&) const; struct N { int q; };
  template <class T> int tm(T) const; virtual int vm(); X* next; enum E { e1 };
};
'''
CDEF = 'struct X { int field; int g; struct X* next; };\n'

# Positions a type can be used in; %s is replaced by a declarator around X.
TYPES = ['X*', 'X&', 'const X*', 'X**', 'X* const*', 'const X&', 'X',
         'X*[2]', 'X*(*)(X*)', 'int X::*', 'X* X::*', 'X&&',
         'void(*)(X&)', 'const volatile X*']
WRAP = [
    ('param', 'template <class T> struct Id { typedef T type; };\n'
     'void f(Id<%s>::type);'),
    ('arg', 'template <class T> struct P;\nextern P<%s>* v;'),
    ('holdptr', 'template <class T> struct P { T* t; };\nP<%s>* v;'),
    ('sizeofptr', 'template <class T> struct P { static const int n = '
     'sizeof(T*); };\nint v = sizeof(P<%s>);'),
    ('fnarg', 'template <class T> void g() {}\nvoid f() { g<%s>(); }'),
    ('fnsize', 'template <class T> int g() { return sizeof(T); }\n'
     'void f() { g<%s>(); }'),
    ('member', 'template <class T> struct P { T t; };\n'
     'void f(P<%s>* p) { (void)&p->t; }'),
    ('nested', 'template <class T> struct Q { T* q; };\n'
     'template <class T> struct P { Q<T> q; };\nvoid f(P<%s>* p) '
     '{ (void)p->q; }'),
    ('virt', 'template <class T> struct P { virtual void m(T*); };\n'
     'struct D { P<%s>* p; };'),
]


def verdict(binary, lang, text):
    ext, std = ('cc', ['-std=c++20']) if lang == 'cxx' else ('c', [])
    d = core.newdir('o')
    m = 'm.' + ext
    core.write_tree(d, {
        'x.h': '#ifndef X_H\n#define X_H\n%s#endif\n' % (
            DEF if lang == 'cxx' else CDEF),
        'all.h': '#include "x.h"\n', m: '#include "all.h"\n' + text + '\n',
        'fwd.' + ext: 'struct X;\n' + text + '\n'})

    def compiles(f):
        return core.run([core.CLANG] + std + ['-fsyntax-only', '-w', f],
                        cwd=d).rc == 0
    if not compiles(m):
        return d, None, None, ''
    truth = 'D' if compiles('fwd.' + ext) else 'F'
    r = core.run([binary] + std + [m], cwd=d)
    if r.timeout:
        return d, truth, 'timeout', ''
    try:
        rep = report.parse(r.text)[0]
    except (report.ParseError, IndexError):
        return d, truth, 'broken', r.text
    if r.rc:
        return d, truth, 'broken', r.text
    return d, truth, 'F' if '"x.h"' in rep.includes() else 'D', r.text


def main():
    c = core.Check('C03', 'worlds: as in C01; oracle cases: distinct use '
                   'texts for which the compiler decided whether a '
                   'declaration is enough')
    c.assumptions = ['compiler oracle is the installed clang 20 driver']
    b = build.iwyu('rel')
    jobs = [(l, p, t) for l, p, t in oracle_snippets.SNIPPETS]
    r = core.rng('c03')
    generic = [('cxx', '', w % t) for t in TYPES for n, w in WRAP
               if n not in ('param', 'member', 'holdptr')]
    # Pointer/reference layers around ordinary declarations.
    jobs += generic if core.TIER != 'quick' else r.sample(generic, 60)

    def one(j):
        return j, verdict(b, j[0], j[2])
    for (lang, pol, text), (d, truth, got, out) in core.pmap(one, jobs):
        if truth is None:
            c.count('rejected_by_compiler')
        elif got == 'timeout':
            c.maybe('timeout: ' + text)
        else:
            c.count('oracle_%s' % truth)
            c.case(key=('oracle', lang, text))
            key = 'oracle:%s:%s' % (lang, hashlib.sha1(
                text.encode()).hexdigest()[:10])
            if got == 'broken':
                c.violation(key, 'no report for: %s' % text, tree=d)
            elif truth == 'F' and got == 'D':
                c.violation(key, 'declaration offered where the compiler '
                            'needs the definition: %s' % text, tree=d,
                            files={'output.txt': out})
            elif truth == 'D' and got == 'F' and pol != 'P':
                c.violation(key, 'definition demanded where a declaration '
                            'compiles: %s' % text, tree=d,
                            files={'output.txt': out})
        core.rmtree(d)
    worldcheck.snippets(c, b, 'c03', CATS, per=core.n_cases(2, 8))
    worldcheck.batch(c, b, 'c03', core.n_cases(1000, 16000),
                     ['forward', 'plain', 'ns17', 'assoc', 'c', 'cxx11'],
                     CATS)
    corpus.monitor(c, b, 'C03', ['kind', 'crash'])
    c.finish()


if __name__ == "__main__":
    core.main(main)
