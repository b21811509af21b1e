"""Programs that use classes only through interfaces of other headers.

k<j>.h defines class K<j>.  i<i>.h is an interface about one of the classes;
by its mode it provides the class ('inc', 'ind', 'incfwd', 'fwdinc') or leaves
it to its users ('fwd', 'indfwd').  Each statement of the judged file comes
with what it needs of the interface, and of the class:

  A  the definition, which an author who provides it relieves users of
  F  the definition in any case        N  nothing        D  a declaration
"""
from . import core, report

KLASS = """#pragma once
struct K@ {
  int m; K@(int = 0); K@(const K@&); ~K@(); int get() const;
  K@ operator+(int) const; typedef int inner; static int st;
  enum E { e }; K@* next(); operator bool() const;
  int operator()(int) const; int operator[](int) const;
  K@& operator=(const K@&); int* begin(); int* end();
};
"""
TPL = """#pragma once
template <class T> struct L@ {
  T m; L@(int = 0); L@(const L@&); ~L@(); int get() const; typedef int inner;
};
"""
# The interface declarations, each its own unit so that a header has a part
# of them: name -> text ('%' the class, '@' the interface).
DECLS = {
    'TD': 'typedef K% TD@;', 'US': 'using US@ = K%;',
    'TD2': 'typedef K% TX@; typedef TX@ TD2@;',
    'TDP': 'typedef K%* TDP@;', 'TDR': 'typedef const K%& TDR@;',
    'ATK': 'template <class T> using AT@ = T; using ATK@ = AT@<K%>;',
    'NTD': 'namespace n@ { typedef K% NTD; }',
    'ret': 'K% ret@();', 'cret': 'const K% cret@(int = 0);',
    'rref': 'K%& rref@();', 'rptr': 'K%* rptr@();',
    'take': 'void take@(K%);', 'takec': 'void takec@(const K%&);',
    'take2': 'void take2@(int, const K%& = 0);' ,
    'takep': 'void takep@(K%*);',
    'taker': 'void taker@(K%&);',
    'Meth': 'struct Meth@ { K% mret(); void mtake(K%); K%& mref(); '
            'void mtakec(int, const K%&) const; typedef K% MT; '
            'static K% sret(); static void stake(K%); K%* p; };',
    'Ctor': 'struct Ctor@ { Ctor@(const K%&, int); Ctor@(); };',
    'Box': 'template <class T> struct Box@ { T t; };',
    'PBox': 'template <class T> struct PBox@ { T* t; int f() { return t->m; }'
            ' int g(); static int h(T*); };\n'
            'template <class T> int PBox@<T>::g() { return t->get(); }\n'
            'template <class T> int PBox@<T>::h(T* p) { return p->st; }',
    'DBox': 'template <class T = K%> struct DBox@ { T t; };',
    'DPBox': 'template <class T = K%> struct DPBox@ { T* t; };',
    'useT': 'template <class T> int useT@(T* t) { return t->get(); }\n'
            'template <class T> int noT@(T* t) { return t == nullptr; }',
    'defT': 'template <class T = K%> int defT@(T* t = nullptr) '
            '{ return t ? t->get() : 0; }',
    'BoxK': 'template <class T> struct BoX@ { T t; };\n'
            'typedef BoX@<K%> BoxK@;',
    'rbox': 'template <class T> struct BoR@ { T t; };\nBoR@<K%> rbox@();\n'
            'void takebox@(BoR@<K%>*);',
    'FP': 'using FP@ = void (*)(K%*);',
    'TT': 'typedef L%<int> TT@;', 'TTK': 'typedef L%<K%> TTK@;',
    'UT': 'template <class T> using UT@ = L%<T>;',
    'Tret': 'L%<int> tret@();', 'Tcret': 'const L%<int> tcret@();',
    'Ttake': 'void ttake@(L%<int>); void ttakec@(const L%<int>&);',
    'Take3': 'void take3@(int, K%, const L%<int>&);',
    'Own': 'struct Own@; typedef Own@ OT0@; Own@ own0@();\nstruct Own@ { '
           'int m; Own@(int = 0); ~Own@(); };\ntypedef Own@ OT@; '
           'Own@ own@(); void takeown@(Own@);',
    'Base': 'struct B@ { virtual K% vret(); virtual void vtake(K%); '
            'virtual void vtakec(const K%&, int = 0) const; virtual ~B@(); };',
    'Multi': 'void multi@(const K%&);',
}
# What d<i>.h has more of, while it only declares the class.
MORE = {
    'Base': 'struct D@ : B@ { K% vret() override; void vtake(K%) override; '
            'void vtakec(const K%&, int) const override; void own(K%*); };\n'
            'struct DD@ : D@ { K% vret() override; void vtake(K%) override; };',
    'Multi': 'void multi@(const K%&);', 'TD': 'typedef TD@ TDD@; TD@ rtd@(); void taketd@(TD@);',
    'TT': 'typedef TT@ TTD@;'}
# Needs the class even to be declared: not in headers that only declare it.
COMPLETE = {'take2'}
# (declaration, text, need of the class); $ an unused number.
STMTS = [
    ('TD', 'TD@ v$;', 'A'), ('TD', 'extern TD@ v$;', None),
    ('TD', 'TD@* v$;', 'N'), ('TD', 'int f$() { TD@ x; return x.m; }', 'A'),
    ('TD', 'int f$(TD@* p) { return p->m; }', 'A'),
    ('TD', 'int f$(TD@* p) { return p->get(); }', 'A'),
    ('TD', 'int f$() { return sizeof(TD@); }', 'A'),
    ('TD', 'struct S$ : TD@ { };', 'A'), ('TD', 'TD@::inner v$;', 'A'),
    ('TD', 'int v$ = TD@::st;', 'A'), ('TD', 'int v$ = TD@::e;', 'A'),
    ('TD', 'TD@ f$();', 'N'), ('TD', 'void f$(TD@);', 'N'),
    ('TD', 'TD@ f$() { return 3; }', 'A'), ('TD', 'struct S$ { TD@ m; };', 'A'),
    ('TD', 'struct S$ { TD@* m; TD@& r; };', 'N'),
    ('TD', 'struct S$ { S$(); TD@ m; }; S$ v$;', 'A'),
    ('TD', 'template <class T> struct S$ { TD@ m; };', 'A'),
    ('TD', 'void f$() { try { } catch (TD@&) { } }', 'A'),
    ('TD', 'void* f$() { return new TD@; }', 'A'),
    ('TD', 'void f$(TD@* p) { delete p; }', 'A'),
    ('TD', 'void* f$() { return static_cast<TD@*>(nullptr); }', 'N'),
    ('TD', 'int f$(void* p) { return static_cast<TD@*>(p)->m; }', 'A'),
    ('TD', 'int f$(TD@& a) { return (a + 1).m; }', 'F'),
    ('TD', 'TD@ v$[2];', 'A'), ('TD', 'bool f$(TD@& a) { return a; }', 'A'),
    ('TD', 'int f$(TD@& a) { return a(2); }', 'A'),
    ('TD', 'int f$(TD@& a) { return a[2]; }', 'A'),
    ('TD', 'void f$(TD@& a) { for (int x : a) { (void)x; } }', 'A'),
    ('TD', 'void f$(TD@& a, TD@& b) { a = b; }', 'A'),
    ('TD', 'TD@* f$(TD@* a) { return a + 1; }', 'A'),
    ('TD', 'auto v$ = [](TD@* p) { return p->m; };', 'A'),
    ('TD', 'typedef TD@ V$;', None), ('US', 'US@ v$;', 'A'),
    ('US', 'US@* v$;', 'N'), ('US', 'int f$(US@& u) { return u.get(); }', 'A'),
    ('TD2', 'TD2@ v$;', 'A'), ('TD2', 'TD2@* v$;', 'N'),
    ('TD2', 'int f$(TD2@* p) { return p->m; }', 'A'),
    ('TDP', 'TDP@ v$;', 'N'), ('TDP', 'int f$(TDP@ p) { return p->m; }', 'A'),
    ('TDR', 'int f$(TDR@ p) { return p.m; }', 'A'),
    ('TDR', 'void f$(TDR@ p);', None),
    ('ATK', 'ATK@ v$;', 'A'), ('ATK', 'ATK@* v$;', 'N'),
    ('NTD', 'n@::NTD v$;', 'A'), ('NTD', 'n@::NTD* v$;', 'N'),
    ('NTD', 'using namespace n@; int f$(NTD* p) { return p->m; }', None),
    ('ret', 'void f$() { ret@(); }', 'A'),
    ('ret', 'void f$() { auto x = ret@(); (void)x; }', 'A'),
    ('ret', 'void f$() { auto&& x = ret@(); (void)x; }', 'A'),
    ('ret', 'void f$() { const auto& x = ret@(); (void)x; }', 'A'),
    ('ret', 'int v$ = ret@().m;', 'F'), ('ret', 'bool v$ = ret@();', 'F'),
    ('ret', 'void f$(int x) { ret@() + x; }', 'F'),
    ('ret', 'void f$() { throw ret@(); }', 'A'),
    ('ret', 'void f$() { (void)ret@(); }', 'A'),
    ('ret', 'int v$ = (ret@(), 3);', 'A'),
    ('ret', 'template <class T> void f$(T) { ret@(); }', 'A'),
    ('ret', 'auto* f$() { return &ret@; }', 'N'),
    ('cret', 'int v$ = cret@().get();', 'F'), ('cret', 'void f$() { cret@(2); }',
                                             'A'),
    ('rref', 'int v$ = rref@().m;', 'F'), ('rref', 'void f$() { rref@(); }', 'N'),
    ('rref', 'void f$() { auto& x = rref@(); (void)x; }', 'N'),
    ('rptr', 'int v$ = rptr@()->m;', 'F'), ('rptr', 'auto* v$ = rptr@();', 'N'),
    ('rptr', 'void f$() { delete rptr@(); }', 'F'),
    ('rptr', 'bool v$ = rptr@() == nullptr;', 'N'),
    ('take', 'void f$() { take@(3); }', 'A'),
    ('take', 'void f$() { take@({3}); }', None),
    ('take', 'void f$(K%& k) { take@(k); }', 'F'),
    ('takec', 'void f$() { takec@(3); }', 'A'),
    ('takec', 'void f$(K%& k) { takec@(k); }', 'D'),
    ('takec', 'void f$(int n) { if (n) takec@(n); else takec@(n + 1); }', 'A'),
    ('take2', 'void f$() { take2@(1, 2); }', 'A'),
    ('takep', 'void f$() { takep@(nullptr); }', 'N'),
    ('takep', 'void f$(K%* k) { takep@(k); }', 'D'),
    ('taker', 'void f$(K%& k) { taker@(k); }', 'D'),
    ('Meth', 'int f$(Meth@& m) { return m.mret().m; }', 'F'),
    ('Meth', 'void f$(Meth@& m) { m.mret(); }', 'A'),
    ('Meth', 'void f$(Meth@* m) { m->mtake(3); }', 'A'),
    ('Meth', 'void f$(Meth@& m) { m.mtakec(1, 3); }', 'A'),
    ('Meth', 'int f$(Meth@& m) { return m.mref().m; }', 'F'),
    ('Meth', 'int f$(Meth@& m) { return m.p->m; }', 'F'),
    ('Meth', 'void* f$(Meth@& m) { return m.p; }', 'N'),
    ('Meth', 'Meth@::MT v$;', 'A'), ('Meth', 'Meth@::MT* v$;', 'N'),
    ('Meth', 'void f$() { Meth@::sret(); Meth@::stake(3); }', 'A'),
    ('Ctor', 'Ctor@ v$;', 'N'),
    ('Ctor', 'void* f$(const K%& k) { return new Ctor@(k, 1); }', 'D'),
    ('Box', 'Box@<K%> v$;', 'F'), ('PBox', 'PBox@<K%> v$;', 'D'),
    ('Box', 'Box@<int> v$;', 'N'),
    ('PBox', 'int f$(PBox@<K%>& x) { return x.f(); }', 'F'),
    ('PBox', 'int f$(PBox@<K%>& x) { return x.g(); }', 'F'),
    ('PBox', 'int f$() { return PBox@<K%>::h(nullptr); }', 'F'),
    ('PBox', 'int f$(PBox@<K%>& x) { return x.t == nullptr; }', 'D'),
    ('DBox', 'DBox@<> v$;', 'A'),
    ('DPBox', 'DPBox@<> v$;', 'N'),
    ('DPBox', 'int f$(DPBox@<>& x) { return x.t->m; }', 'F'),
    ('useT', 'int f$(K%* k) { return useT@(k); }', 'F'),
    ('useT', 'int f$() { return useT@<K%>(nullptr); }', 'F'),
    ('useT', 'int f$(K%* k) { return noT@(k); }', 'D'),
    ('defT', 'int v$ = defT@();', 'A'),
    ('BoxK', 'BoxK@ v$;', 'A'), ('BoxK', 'BoxK@* v$;', 'N'),
    ('BoxK', 'int f$(BoxK@& b) { return b.t.m; }', 'F'),
    ('rbox', 'void f$() { rbox@(); }', 'A'),
    ('rbox', 'void f$() { takebox@(nullptr); }', 'N'),
    ('FP', 'FP@ v$ = nullptr;', 'N'), ('FP', 'void f$(FP@ f) { f(nullptr); }',
                                      'N'),
    ('TT', 'TT@ v$;', 'A:L'), ('TT', 'TT@* v$;', 'N'),
    ('TT', 'int f$(TT@* p) { return p->m; }', 'A:L'),
    ('TT', 'int f$(TT@& p) { return p.get(); }', 'A:L'),
    ('TT', 'TT@::inner v$;', 'A:L'), ('TT', 'struct S$ : TT@ { };', 'A:L'),
    ('TTK', 'TTK@ v$;', 'A:KL'), ('TTK', 'TTK@* v$;', 'N'),
    ('UT', 'UT@<int> v$;', 'A:L'), ('UT', 'UT@<int>* v$;', 'N'),
    ('UT', 'int f$(UT@<int>* p) { return p->m; }', 'A:L'),
    ('Tret', 'void f$() { tret@(); }', 'A:L'),
    ('Tret', 'void f$() { auto x = tret@(); (void)x; }', 'A:L'),
    ('Tret', 'int v$ = tret@().m;', 'F:L'),
    ('Tcret', 'void f$() { tcret@(); }', 'A:L'),
    ('Ttake', 'void f$() { ttake@(3); }', 'A:L'),
    ('Ttake', 'void f$() { ttakec@(3); }', 'A:L'),
    ('Own', 'Own@ v$;', 'N'), ('Own', 'OT@ v$;', 'N'),
    ('Own', 'OT0@ v$;', 'N'), ('Own', 'void f$() { own@(); }', 'N'),
    ('Own', 'void f$() { own0@(); }', 'N'),
    ('Own', 'void f$() { takeown@(3); }', 'N'),
    ('Base', 'void f$(B@& b) { b.vret(); }', 'A'),
    ('Base', 'void f$(B@* b) { b->vtake(3); }', 'A'),
    ('Base', 'void f$(B@* b) { b->vtakec(3); }', 'A'),
    ('Base', 'struct S$ : B@ { K% vret() override; void vtake(K%) override; };',
     'N'),
    ('+Base', 'void f$(D@& d) { d.vret(); }', 'A'),
    ('+Base', 'void f$(DD@& d) { d.vret(); }', 'A'),
    ('+Base', 'void f$(D@& d) { d.vtake(3); }', 'A'),
    ('+Base', 'void f$(DD@& d) { d.vtake(3); d.vtake(4); }', 'A'),
    ('+Base', 'void f$(D@* d) { d->vtakec(3, 1); }', 'A'),
    ('+Base', 'void f$(D@* d) { d->own(nullptr); }', 'N'),
    ('+Base', 'struct S$ : D@ { K% vret() override; void vtake(K%) override; '
     '};', 'N'),
    ('+TD', 'TDD@ v$;', 'A'), ('+TD', 'TDD@* v$;', 'N'),
    ('+TD', 'int f$(TDD@* p) { return p->m; }', 'A'),
    ('+TD', 'void f$() { rtd@(); }', 'A'),
    ('+TD', 'void f$() { taketd@(3); }', 'A'),
    ('+TD', 'int v$ = rtd@().m;', 'A'),
    ('+TT', 'TTD@ v$;', 'A:L'), ('+TT', 'TTD@& f$();', 'N'),
    ('Take3', 'void f$() { take3@(1, 2, 3); }', 'A:KL'),
    ('+Multi', 'void f$() { multi@(3); }', 'A'),
    ('+Multi', 'void f$(const K%& k) { multi@(k); }', 'D')]
STMTS = [s for s in STMTS if s[2]]
MODES = ['inc', 'inc', 'fwd', 'fwd', 'ind', 'incfwd', 'fwdinc', 'indfwd', 'indpost']
PROVIDES = {'inc', 'ind', 'indpost', 'incfwd', 'fwdinc'}


class World(object):
    def __init__(self, r):
        nk, ni = r.randint(1, 3), r.randint(1, 4)
        self.files = {}
        for j in range(nk):
            self.files['k%d.h' % j] = KLASS.replace('@', str(j))
            self.files['l%d.h' % j] = TPL.replace('@', str(j))
            self.files['mid%d.h' % j] = '#pragma once\n#include "k%d.h"\n' \
                '#include "l%d.h"\n' % (j, j)
        self.ifaces = []
        for i in range(ni):
            j, mode = r.randrange(nk), r.choice(MODES)
            inc = '#include "k%d.h"\n#include "l%d.h"\n' % (j, j)
            mid = '#include "mid%d.h"\n' % j
            fwd = 'struct K%d;\ntemplate <class T> struct L%d;\n' % (j, j)
            pre = {'inc': inc, 'fwd': fwd, 'ind': mid, 'incfwd': inc + fwd,
                   'fwdinc': fwd + inc, 'indfwd': mid + fwd, 'indpost': mid}[mode]
            names = [n for n in sorted(DECLS) if r.random() < .5 and
                     not (n in COMPLETE and mode not in PROVIDES)] or ['TD']
            r.shuffle(names)
            self.files['i%d.h' % i] = '#pragma once\n' + pre + '\n'.join(
                DECLS[n] for n in names).replace('%', str(j)).replace(
                    '@', str(i)) + '\n' + fwd * (mode == 'indpost')
            # What more a header has that includes this one.
            more = [n for n in sorted(MORE) if n in names]
            self.files['d%d.h' % i] = '#pragma once\n#include "i%d.h"\n' % i + \
                fwd + '\n'.join(MORE[n] for n in more).replace(
                    '%', str(j)).replace('@', str(i)) + '\n'
            self.ifaces.append((j, mode, set(names) |
                                {'+' + n for n in more}))
        order = ['%s%d.h' % (h, j) for j in range(nk) for h in 'kl'] + \
            ['%s%d.h' % (h, i) for i in range(ni) for h in 'id']
        # Classes first: an instantiation needs them.
        self.files['all.h'] = '#pragma once\n' + ''.join(
            '#include "%s"\n' % h for h in order)
        self.full, self.decl, self.maybe = set(), set(), set()
        self.stmts = []
        for u in range(r.randint(1, 9)):
            i = r.randrange(ni)
            j, mode, names = self.ifaces[i]
            n, t, need = r.choice([s for s in STMTS if s[0] in names])
            # A declaration of an interface template may do.
            if n == '+Multi':
                # Either declaration will do.
                self.maybe |= {'i%d.h' % i, 'd%d.h' % i}
            elif n[0] == '+':
                self.full.add('d%d.h' % i)
            else:
                self.full.add('i%d.h' % i)
            need, _, whose = need.partition(':')
            for h in (whose or 'K').lower():
                if n in ('DBox', 'defT') and mode in ('ind', 'indpost'):
                    # Whether a default template argument counts is left open.
                    self.maybe.add('%s%d.h' % (h, j))
                elif need == 'F' or need == 'A' and mode not in PROVIDES:
                    self.full.add('%s%d.h' % (h, j))
                elif need == 'D':
                    self.decl.add(j)
            self.stmts.append(t.replace('@', str(i)).replace(
                '%', str(j)).replace('$', 'q%d' % u))
        self.body = '\n'.join(self.stmts) + '\n'
        assoc = r.random() < .25
        self.main = 'main.cc'
        self.target = 'main.h' if assoc else self.main
        self.pre = '#pragma once\n' if assoc else ''
        self.have = [h for h in order if r.random() < .2]
        inc = ['all.h'] + self.have
        if r.random() < .5:
            inc = [h for h in order if h in self.have] + ['all.h']
        self.files[self.target] = self.pre + ''.join(
            '#include "%s"\n' % h for h in inc) + self.body
        if assoc:
            self.files['main.cc'] = '#include "main.h"\n'
        self.args = ['-std=' + r.choice(['c++17', 'c++20']), '-I.']


def outcome(binary, w, d):
    core.write_tree(d, w.files)
    cmd = [binary] + w.args + [w.main]
    res = core.run(cmd, cwd=d)
    return cmd, res, (report.parse(res.text) if not res.timeout else None)


def judge(w, d, rep, count):
    bad = []
    if rep.correct:
        got, fwds = set(w.have) | {'all.h'}, []
    else:
        got = {l.include[1:-1] for l in rep.full if l.include}
        fwds = [l.code for l in rep.full if not l.include]
    for h in sorted(w.full - got):
        bad.append('does not ask for ' + h)
    for h in sorted(got - w.full - w.maybe):
        j = int(h[1:-2]) if h[0] == 'k' else None
        if j is None or j not in w.decl:
            bad.append('asks for %s without need' % h)
    for f in fwds:
        if f not in ['struct K%d;' % j for j in w.decl]:
            bad.append('declares %s without need' % f)
    for j in sorted(w.decl):
        if 'k%d.h' % j not in got and 'struct K%d;' % j not in fwds and \
                not any(k == j for k, _, _ in w.ifaces):
            bad.append('neither declares nor includes K%d' % j)
    for j, mode, names in w.ifaces:
        count('interfaces ' + mode)
    count('uses of interfaces', len(w.stmts))
    count('definitions asked for', sum(1 for h in got if h[0] in 'kl'))
    if not rep.correct:
        lines = [l.code for l in rep.full]
        core.write_tree(d, {w.target: w.pre + '\n'.join(lines) + '\n' + w.body})
        res = core.run([core.CLANG, '-fsyntax-only', '-Wno-everything'] +
                       w.args + [w.main], cwd=d)
        if res.rc and not res.timeout:
            bad.append('does not compile with %s:\n%s' % (lines, res.err[:500]))
        else:
            count('rewritten files that compile')
        core.write_tree(d, w.files)
    return bad
