"""Programs in which macros decide who needs what.

Headers h0.h, h1.h, ... each define macros, functions, a class and an
enumeration; a header may define macros whose bodies name things of an earlier
header, which it includes ('inc') or, for classes, only forward-declares
('fwd').  The file under judgement gets all of them from all.h; each of its
statements comes with the headers it needs."""
import re

from . import core, report

HEAD = """#define OBJ@ %(v)d
#define EMPTY@
#define ID@(x) x
#define TWO@(x, y) x + y
#define STR@(x) #x
#define CAT@(a, b) a##b
#define PASS@(m) m(2)
#define VAR@(...) int[] __VA_ARGS__
#define FLAG@
#define FILE@ "part@.h"
#define RED@ 1
#define SEE@ 2
int fn@(int);
extern int var@;
struct K@ { int m; K@(int = 0); int get() const; };
enum E@ { en@ };
template <class T> struct T@ { T t; };
template <class T> T ft@(T t) { return t; }
#define CALL@(x) fn@(x)
#define TYPE@ K@
#define MK@(n) K@ n(OBJ@)
#define VAL@ (var@ + en@)
#define LOOP@(i, n) for (int i = 0; i < (n); ++i)
#define NAME@(n) fn##n
#define NS@ namespace macro@ {
#define END@ }
"""
CHEAD = """#define OBJ@ %(v)d
#define EMPTY@
#define ID@(x) x
#define TWO@(x, y) x + y
#define STR@(x) #x
#define CAT@(a, b) a##b
#define PASS@(m) m(2)
#define FLAG@
#define FILE@ "part@.h"
#define RED@ 1
#define SEE@ 2
int fn@(int);
extern int var@;
struct K@ { int m; };
enum E@ { en@ };
#define CALL@(x) fn@(x)
#define TYPE@ struct K@
#define VAL@ (var@ + en@)
#define LOOP@(i, n) for (int i = 0; i < (n); ++i)
#define NAME@(n) fn##n
"""
# Cross macros: name -> (body, needs of the user by the definer's mode).
CROSS_INC = [('XC@', '(x)', 'fn%j(x)'), ('XM@', '(x)', 'ID%j(x) + OBJ%j'),
             ('XO@', '', 'OBJ%j'), ('XA@', '(x)', 'CALL%j(TWO%j(x, 1))'),
             ('XV@', '(x)', '(var%j + (x))'), ('XE@', '(x)', '((x) + en%j)')]
CROSS_CPP = [('XT@', '(n)', 'K%j n'), ('XN@', '(x)', '(new K%j(x))->m'),
             ('XS@', '(x)', '((int)sizeof(K%j) + (x))'),
             ('XG@', '(p)', '((p) ? K%j(3).get() : 0)')]
# At most one of these about a header.
ONCE = [('#undef RED%a\n#define RED%a 5\nint d@ = RED%a;', ''),
        ('#ifdef RED%a\n#undef RED%a\n#endif', 'a'),
        ('int d@ = RED%a;\n#undef RED%a\n#define RED%a 7\nint e@ = RED%a;',
         'a'), ('#undef RED%a\n#ifdef RED%a\n#error\n#endif', ''),
        ('#if RED%a + SEE%a\nint d@;\n#endif\n#undef SEE%a', 'a'),
        ('#pragma push_macro("RED%a")\n#undef RED%a\n#define RED%a 2\n'
         'int d@ = RED%a;\n#pragma pop_macro("RED%a")', '')]
# Statements: (text, needs); %a %b are headers, N an unused number; a need
# is the number of a header.
EXPR = [  # int expressions
    ('OBJ%a', 'a'), ('ID%a(3)', 'a'), ('ID%a(OBJ%b)', 'ab'),
    ('TWO%a(ID%b(1), OBJ%b)', 'ab'), ('CALL%a(1)', 'a'),
    ('CALL%a(OBJ%b)', 'ab'), ('CALL%a(fn%b(2))', 'ab'), ('VAL%a', 'a'),
    ('ID%a(var%b)', 'ab'), ('ID%a(en%b)', 'ab'), ('CAT%a(OB, J%b)', 'ab'),
    ('CAT%a(fn, %b)(1)', 'ab'), ('CAT%a(va, r%b)', 'ab'), ('NAME%a(%b)(3)', 'ab'),
    ('CAT%a(1, 2)', 'a'), ('PASS%a(ID%b)', 'ab'), ('PASS%a(fn%b)', 'ab'),
    ('PASS%a(CALL%b)', 'ab'), ('ID%a(ID%b)(1)', 'ab'),
    ('(int)sizeof(STR%a(OBJ%b))', 'a'), ('(int)sizeof(STR%a(fn%b(1)))', 'a'),
    ('(int)sizeof("OBJ%b")', ''), ('ID%a /* OBJ%b */ (4)', 'a'),
    ('ID%a\n(\nOBJ%b\n)', 'ab'), ('EMPTY%a 3', 'a'), ('ID%a(EMPTY%b 3)', 'ab'),
    ('OBJ%a + // OBJ%b\n 1', 'a'), ('fn%a(OBJ%b)', 'ab'),
    ('OB\\\nJ%a', 'a'), ('(int)sizeof(struct K%a)', 'a'),
    ('TWO%a(, 3)', 'a'), ('ID%a((1, OBJ%b))', 'ab'),
    ('STR%a(x)[0]', 'a'), ('CAT%a(ID, %b)(2)', 'ab'),
    ('CAT%a(0x, 1)', 'a'), ('CAT%a(, OBJ%b)', 'ab')]
CPPEXPR = [
    ('K%a(OBJ%b).get()', 'ab'), ('TYPE%a(1).m', 'a'), ('ID%a(K%b(2)).m', 'ab'),
    ('ft%a(OBJ%b)', 'ab'), ('ID%a(ft%b(1))', 'ab'),
    ('CAT%a(K, %b)(1).m', 'ab'), ('CAT%a(TY, PE%b)(1).m', 'ab'),
    ('T%a<decltype(OBJ%b)>().t', 'ab'), ('T%a<int>{CALL%b(1)}.t', 'ab'),
    ('[] { return OBJ%a; }()', 'a'), ('int{ID%a(ID%b(2))}', 'ab')]
DECL = [
    ('#ifdef OBJ%a\nint d@;\n#endif', 'a'),
    ('#ifndef FLAG%a\n#error no\n#endif', 'a'),
    ('#if defined(OBJ%a) && defined FLAG%b\nint d@;\n#endif', 'ab'),
    ('#if defined(NOT@)\nint n@;\n#elif defined OBJ%a\nint d@;\n#endif', 'a'),
    ('#if OBJ%a > 1\nint d@;\n#else\nint e@ = OBJ%b;\n#endif', 'ae'),
    ('#if 0\nint d@ = OBJ%a;\n#endif', ''),
    ('#if 1\nint d@;\n#elif OBJ%a\n#else\nint e@ = OBJ%b;\n#endif', ''),
    ('#ifdef NOT@\n#elif ID%a(OBJ%b) > 0\nint d@;\n#else\nint e@;\n#endif',
     'ab'),
    ('#ifndef OBJ%a\n#define OBJ%a 4\n#endif', 'a'),
    ('#ifdef __cplusplus\nint d@;\n#else\nint e@;\n#endif', ''),
    ('#define MINE@ OBJ%a', 'a'), ('#define MINE@ ID%a(3)', 'a'),
    ('#define MINE@(x) CALL%a(x)\nint d@(void) { return MINE@(OBJ%b); }', 'ab'),
    ('#define MINE@ OBJ%a\n#undef MINE@', 'a'),
    ('#define MINE@(OBJ%a) OBJ%a', ''), ('#define MINE@ "OBJ%a"', ''),
    ('#define MINE@ ID%a', ''), ('#define MINE@(x) #x "OBJ%a"', ''),
    ('#define MINE@(x) x\nint d@(void) { return MINE@(fn%a(1)); }', 'a'),
    ('#define MINE@(x) fn%a(x)\nint d@(void) { return MINE@(1); }', 'a'),
    ('#define MINE@(x) OBJ##x\nint d@(void) { return MINE@(%a); }', 'a'),
    ('// OBJ%a', ''), ('/* CALL%a(1) */', ''),
    ('int fnot@(int ID%a, int CALL%b);', ''),
    ('EMPTY%a extern int d@;', 'a'), ('struct S@ { int ID%a; };', ''),
    ('int d@(void) { LOOP%a(i, OBJ%b) { } return 0; }', 'ab'),
    ('void d@(int* p) { LOOP%a(i, 3) p[i] = fn%b(i); }', 'ab'),
    ('struct S@ { int a[OBJ%a]; };', 'a'),
    ('enum S@ { s@ = OBJ%a, t@ = ID%b(2) };', 'ab'),
    ('#include FILE%a\nint d@ = sizeof(PART%a);', 'aP'),
    ('#line OBJ%a', 'a'),
    ('#ifdef OBJ%a\n#ifdef OBJ%b\nint d@;\n#endif\n#endif', 'ab'),
    ('#ifdef NOT@\n#ifdef OBJ%b\nint d@;\n#endif\n#endif', ''),
    ('#if defined OBJ%a || OBJ%b > 2\nint d@;\n#endif', 'ab'),
    ('TYPE%a* d@(void);', 'a'), ('extern TYPE%a d@;', 'a')]
CXX23 = [('#ifdef NOT@\n#elifdef OBJ%a\nint d@;\n#else\n#error\n#endif', 'a'),
         ('#ifdef NOT@\n#elifndef OBJ%a\n#error\n#else\nint d@;\n#endif', 'a'),
         ('#ifndef NOT@\nint d@;\n#elifdef OBJ%a\nint e@;\n#endif', '')]
CPPDECL = [
    ('MK%a(d@);', 'a'), ('ID%a(K%b) d@;', 'ab'),
    ('int d@() { ID%a(K%b k(OBJ%b); return k.m;) }', 'ab'),
    ('T%a<K%b> d@;', 'ab'), ('ID%a(T%b<int>) d@;', 'ab'),
    ('template <int N = OBJ%a> struct S@ {};', 'a'),
    ('template <class T> int d@(T t) { return CALL%a(3) + OBJ%b; }', 'ab'),
    ('NS%a int d@; END%b', 'ab'), ('namespace EMPTY%a n@ { int d = OBJ%b; }',
                                  'ab'),
    ('int d@() { VAR%a{1} ; return 0; }', None),
    ('struct S@ : TYPE%a {};', 'a'), ('struct S@ : ID%a(K%b) {};', 'ab'),
    ('using S@ = TYPE%a;', 'a'),
    ('struct S@ { int m = OBJ%a; S@() : m(CALL%b(1)) {} };', 'ab')]


def fill(text, a, b, u):
    return text.replace('%a', str(a)).replace('%b', str(b)).replace(
        '@', str(u))


class World(object):
    def __init__(self, r):
        self.r = r
        self.isc = r.random() < .2
        n = r.randint(2, 5)
        self.files, self.macros = {}, []
        self.redefined = set()
        guard = r.random() < .3
        self.value = [r.choice([0, 1, 2, 3, 7]) for _ in range(n)]
        for i in range(n):
            t = (CHEAD if self.isc else HEAD) % {
                'v': self.value[i]}
            t = t.replace('@', str(i))
            incs, fwd = set(), set()
            for j in range(i):
                k = r.random()
                pool = list(CROSS_INC) + ([] if self.isc else CROSS_CPP)
                if k < .35:
                    incs.add(j)
                    for nm, par, bod in r.sample(pool, r.randint(1, 3)):
                        nm = nm.replace('@', '%d_%d' % (i, j))
                        t += '#define %s%s %s\n' % (
                            nm, par, bod.replace('%j', str(j)))
                        self.macros.append((nm, par, [i]))
                elif k < .6 and not self.isc:
                    fwd.add(j)
                    for nm, par, bod in r.sample(CROSS_CPP, r.randint(1, 2)):
                        nm = nm.replace('@', '%d_%d' % (i, j))
                        t += '#define %s%s %s\n' % (
                            nm, par, bod.replace('%j', str(j)))
                        self.macros.append((nm, par, [i, j]))
            pre = ''.join('#include "h%d.h"\n' % j for j in sorted(incs))
            pre += ''.join('struct K%d;\n' % j for j in sorted(fwd))
            if guard:
                t = '#ifndef G%d\n#define G%d\n%s%s#endif\n' % (i, i, pre, t)
            else:
                t = '#pragma once\n' + pre + t
            self.files['h%d.h' % i] = t
            self.files['part%d.h' % i] = '#pragma once\ntypedef int PART%d;\n' \
                % i
        order = list(range(n))
        r.shuffle(order)
        self.files['all.h'] = '#pragma once\n' + ''.join(
            '#include "h%d.h"\n' % i for i in order)
        self.n = n
        self.std = r.choice(['c11', 'c2x'] if self.isc else [
            'c++14', 'c++17', 'c++20', 'c++23'])
        self.needs, self.maybe = set(), set()
        stmts = [self._stmt(u) for u in range(r.randint(1, 12))]
        assoc = r.random() < .25
        ext = '.c' if self.isc else '.cc'
        self.main = 'main' + ext
        self.target = 'main.h' if assoc else self.main
        have = [i for i in range(n) if r.random() < .25]
        self.pre = '#pragma once\n' if assoc else ''
        pre = ''.join('#include "h%d.h"\n' % i for i in have) + \
            '#include "all.h"\n'
        if r.random() < .3:
            pre = '#include "all.h"\n' + ''.join(
                '#include "h%d.h"\n' % i for i in have)
        self.body = '\n'.join(stmts) + '\n'
        self.files[self.target] = self.pre + pre + self.body
        if assoc:
            self.files[self.main] = '#include "main.h"\n'
        self.args = ['-std=' + self.std, '-I.']
        self.have = have

    def _stmt(self, u):
        r = self.r
        k = r.random()
        a, b = r.sample(range(self.n), 2)
        if k < .25 and self.macros:
            nm, par, needs = r.choice(self.macros)
            kind = nm[:2]
            for i in needs:
                self.needs.add('h%d.h' % i)
            arg = ''
            if par:
                arg = r.choice(['1', '2', 'OBJ%b', 'fn%b(1)', 'ID%a(3)'])
                if kind == 'XT':
                    arg = 'd%d' % u
                self._need(arg, a, b, None)
                arg = '(%s)' % fill(arg, a, b, u)
            if kind == 'XT':
                # The constructor is called where the caller wrote the name.
                self.maybe.add('h%s.h' % nm.split('_')[1])
                return nm + arg + ';'
            return 'int d%d(void) { return %s%s; }' % (u, nm, arg)
        if k < .6:
            t, needs = r.choice(EXPR + ([] if self.isc else CPPEXPR))
            if self.isc and 'K' in t and 'struct' not in t:
                t, needs = 'OBJ%a', 'a'
            self._needs(needs, a, b)
            return 'int d%d(void) { return %s; }' % (u, fill(t, a, b, u))
        if r.random() < .12 and a not in self.redefined:
            self.redefined.add(a)
            t, needs = r.choice(ONCE)
            self._needs(needs, a, b)
            return fill(t, a, b, u)
        pool = DECL + ([] if self.isc else CPPDECL)
        if self.std in ('c++23', 'c2x') and r.random() < .2:
            pool = CXX23
        t, needs = r.choice(pool)
        if needs is None:
            t, needs = 'extern int d@[OBJ%a + 1];', 'a'
        self._needs(needs, a, b)
        return fill(t, a, b, u)

    def _need(self, text, a, b, _):
        if '%a' in text:
            self.needs.add('h%d.h' % a)
        if '%b' in text:
            self.needs.add('h%d.h' % b)

    def _needs(self, needs, a, b):
        if 'e' in needs and self.value[a] <= 1:
            needs = 'ab'
        for x in needs.replace('e', ''):
            self.needs.add({'a': 'h%d.h' % a, 'b': 'h%d.h' % b,
                            'P': 'part%d.h' % a}[x])


def tokens(w, d):
    """The preprocessed text of the file under judgement itself."""
    cmd = [core.CLANG, '-E', '-fsyntax-only'] + w.args + [w.main]
    cmd.remove('-fsyntax-only')
    res = core.run(cmd, cwd=d)
    if res.rc or res.timeout:
        return None
    out, on = [], False
    for line in res.out.split('\n'):
        m = re.match(r'# \d+ "(.*?)"', line)
        if m:
            on = m.group(1) in (w.target, './' + w.target)
        elif on:
            out += line.split()
    return ' '.join(out)


def outcome(binary, w, d):
    core.write_tree(d, w.files)
    cmd = [binary] + w.args + [w.main]
    res = core.run(cmd, cwd=d)
    return cmd, res, (report.parse(res.text) if not res.timeout else None)


def compiles(w, d):
    res = core.run([core.CLANG, '-fsyntax-only', '-Wno-everything'] + w.args +
                   [w.main], cwd=d)
    return None if res.rc == 0 else res.err[:600]


def judge(w, d, rep, count):
    bad = []
    lines = [l.code for l in rep.full] if not rep.correct else None
    if rep.correct:
        got = {'h%d.h' % i for i in w.have} | {'all.h'} | {
            x for x in w.needs if x.startswith('part')}
    else:
        got = {l.include[1:-1] for l in rep.full if l.include}
        fwd = [l.code for l in rep.full if not l.include]
        if fwd:
            bad.append('declares %s' % fwd)
    # A file included through a macro has no name to print.
    for x in sorted(w.needs - got):
        if not x.startswith('part'):
            bad.append('does not ask for ' + x)
    for x in sorted(got - w.needs - w.maybe):
        bad.append('asks for %s without need' % x)
    count('macro statements judged', w.body.count('\n'))
    count('headers needed', len(w.needs))
    before = tokens(w, d)
    if lines is not None and not bad:
        keep = [l for l in lines if 'part' not in l]
        core.write_tree(d, {w.target: w.pre + '\n'.join(keep) + '\n' + w.body})
        e = compiles(w, d)
        if e:
            bad.append('does not compile with %s:\n%s' % (keep, e))
        elif tokens(w, d) != before:
            bad.append('preprocesses differently with %s' % keep)
        else:
            count('rewritten files that preprocess the same')
        core.write_tree(d, w.files)
    return bad
