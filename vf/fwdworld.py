"""Programs that only need declarations of oddly declared types."""
import re

from . import core, report

# (id, template head or None, arguments to name a specialization)
HEADS = [
    ('t', 'class T', 'int'), ('tn', 'typename T', 'char'),
    ('tt', 'class T, class U', 'int, char'),
    ('n', 'int N', '3'), ('un', 'unsigned long N', '3'),
    ('tN', 'class T, int N', 'int, 4'), ('b', 'bool B', 'true'),
    ('c', "char C", "'a'"), ('au', 'auto V', '3'), ('dep', 'class T, T V',
                                                  'int, 2'),
    ('pack', 'class... T', 'int, char'), ('npack', 'int... I', '1, 2'),
    ('tpack', 'class T, class... U', 'int, long'),
    ('ttp', 'template <class> class C', 'Unary@'),
    ('ttpn', 'template <typename T> typename C', 'Unary@'),
    ('ttpp', 'template <class...> class C', 'Unary@'),
    ('ttpi', 'template <int> class C', 'Num@'),
    ('anon', 'class', 'int'), ('anon2', 'class, int', 'int, 3'),
    ('fn', 'int (*F)(int)', 'nullptr'), ('ptr', 'const char* P', 'nullptr'),
    ('ref', 'int& R', 'glob@'), ('mp', 'int Mem@::* P', 'nullptr'),
    ('ncls', 'Small@ E', 'Small@::a'), ('con', 'Any@ T', 'int'),
    ('reqs', 'class T', 'int'), ('dpt', 'class T, T* P', 'int, nullptr'),
    ('arr', 'int A[2]', 'nullptr'), ('long', 'long long N', '1'),
    ('pk2', 'class T, template <class, int...> class C, T... V',
     'int, Odd@, 1'), ('aup', 'auto... V', '1, \'c\''),
    ('glob', 'class T, ::un::Under@ V', 'int, 3'),
    ('expr', 'class T, decltype(T{}) V', 'int, 1'),
    ('arrow', 'auto (*F)(int) -> int', 'nullptr'),
    ('ttpd', 'template <class U = int> class C', 'Unary@'),
    ('brace', 'class T, int (*F)(T, int[sizeof(T)])', 'int, nullptr'),
    ('rq1', 'class T', 'int'), ('rq2', 'class T', 'int'),
    ('rq3', 'class T, class final1', 'int, char'), ('rq4', 'class T', 'int'),
    ('tdflt', 'class T = int', 'char'), ('cst', 'const int N', '2')]
# Support a head needs, declared in a header of its own.
SUPPORT = {
    'glob': 'namespace un { using Under@ = int; }',
    'ttpd': 'template <class T> struct Unary@ {};',
    'rq4': 'template <class T> concept Any@ = sizeof(T) > 0;',
    'ttp': 'template <class T> struct Unary@ {};',
    'ttpn': 'template <class T> struct Unary@ {};',
    'ttpp': 'template <class... T> struct Unary@ {};',
    'ttpi': 'template <int N> struct Num@ {};',
    'ref': 'inline int glob@;', 'mp': 'struct Mem@ { int m; };',
    'ncls': 'enum class Small@ { a, b };',
    'con': 'template <class T> concept Any@ = sizeof(T) > 0;',
    'reqs': 'template <class T> concept Any@ = sizeof(T) > 0;',
    'pk2': 'template <class T, int... I> struct Odd@ {};'}
REQS = {'reqs': ' requires Any@<T>', 'rq4': ' requires (::Any@<T> && true)',
        'rq1': ' requires (sizeof(T) > 100 ? false : true)',
        'rq2': ' requires requires(T t) { t + t; { t } ; typename Id@<T>; }',
        'rq3': ' requires (sizeof(T) > 1 && sizeof(final1) < 100)'}
SUPPORT['rq2'] = 'template <class T> struct IdS@ { using type = T; };' \
    'template <class T> using Id@ = typename IdS@<T>::type;'
# The names that heads mention themselves.
OWNED = {'mp': 'Mem', 'ncls': 'Small', 'con': 'Any', 'reqs': 'Any',
         'glob': 'Under', 'rq2': 'Id', 'rq4': 'Any'}
BASES = ['int', 'unsigned char', 'unsigned', 'short', 'long long', 'char',
         'bool', 'unsigned long', 'signed char', 'long', '__int128',
         'unsigned short', 'wchar_t', 'char16_t', 'int const']
TDBASE = ['Under@', 'un::Under@', '::un::Under@', 'decltype(1 + 2)',
          '__underlying_type(Other@)']
NSS = [[], [], [('', 'na')], [('', 'na'), ('', 'nb')], [('', 'ox_1')],
       [('inline ', 'iv1')], [('', 'na'), ('inline ', 'iv2')],
       [('', 'na'), ('inline ', 'iv2'), ('', 'deep')],
       [('inline ', 'iv3'), ('', 'in')],
       [('', 'a'), ('', 'b'), ('', 'c'), ('', 'd')],
       [('', 'na'), ('inline ', 'iv4'), ('inline ', 'iv5')]]
ATTRS = ['', '', '', '', '[[nodiscard]] ', 'alignas(16) ',
         '__attribute__((visibility("default"))) ',
         '__attribute__((packed)) ', '[[deprecated]] ',
         '__attribute__((aligned(4))) ']


# Uses of types that only the file itself declares and nothing defines.
LOCAL = ['%(l)s* v%(u)d;', 'typedef %(l)s TD%(u)d;', '%(l)s f%(u)d();',
         'void (*f%(u)d)(%(l)s);', 'extern %(l)s v%(u)d;',
         'using TA%(u)d = %(l)s; TA%(u)d* v%(u)d;', 'int %(l)s::*v%(u)d;',
         'struct S%(u)d { void m(%(l)s); %(l)s* p; };',
         'template <class T> struct H%(u)d {}; H%(u)d<%(l)s> v%(u)d;',
         'typedef void F%(u)d(%(l)s, const %(l)s&);',
         'inline void* f%(u)d(%(l)s* p) { return p; }']
LOCALT = ['%(l)s<int>* v%(u)d;', 'typedef %(l)s<int> TD%(u)d;',
          'template <template <class> class C> struct H%(u)d {};'
          'H%(u)d<%(l)s> v%(u)d;',
          'template <template <class> class C> struct H%(u)d {};'
          'H%(u)d<%(l)s>* v%(u)d;', '%(l)s<char> f%(u)d();',
          'using TA%(u)d = %(l)s<int*>; TA%(u)d* v%(u)d;',
          'template <class T> struct S%(u)d { %(l)s<T>* p; };',
          'template <class T> using TT%(u)d = %(l)s<T>;'
          'extern TT%(u)d<int> v%(u)d;']


class Type(object):
    """One type: where it is and how it is declared, named and completed."""


class World(object):
    def __init__(self, r):
        self.r = r
        self.isc = r.random() < .12
        self.cxx17ns = r.random() < .4
        self.types, self.files = [], {}
        self.support = []
        n = r.randint(1, 6)
        for i in range(n):
            self.types.append(self._type(i))
        uses = []
        for t in self.types:
            for _ in range(r.randint(1, 2)):
                uses.append(self._use(t))
        r.shuffle(uses)
        self.locals = []
        for i in range(r.choice([0, 0, 0, 1, 2]) if not self.isc else 0):
            n, tpl = 'Loc%d' % i, r.random() < .4
            ns = r.choice(['', '', 'ln'])
            code = ('template <class T> ' if tpl else '') + \
                r.choice(['class ', 'struct ']) + n + ';'
            if ns:
                code = 'namespace %s { %s }' % (ns, code)
            self.locals.append(n)
            uses.insert(r.randint(0, len(uses)), '@@%d' % i)
            k = uses.index('@@%d' % i)
            uses[k] = code
            for _ in range(r.randint(1, 2)):
                self.u = getattr(self, 'u', 0) + 1
                uses.insert(r.randint(k + 1, len(uses)), r.choice(
                    LOCALT if tpl else LOCAL) % {
                        'l': (ns + '::' if ns else '') + n, 'u': self.u})
        self.body = '\n'.join(uses) + '\n'
        ext = 'c' if self.isc else 'cc'
        self.main = 'main.' + ext
        assoc = r.random() < .3
        self.target = 'main.h' if assoc else self.main
        for t in self.types:
            self.files[t.file] = '#pragma once\n' + t.text
        if self.support:
            self.files['support.h'] = '#pragma once\n' + \
                '\n'.join(self.support) + '\n'
        self.files['all.h'] = '#pragma once\n' + ''.join(
            '#include "%s"\n' % t.file for t in self.types)
        pre = '#include "all.h"\n'
        if self.support and r.random() < .6:
            pre += '#include "support.h"\n'
        self.files[self.target] = ('#pragma once\n' if assoc else '') + \
            pre + self.body
        self.pre = '#pragma once\n' if assoc else ''
        if assoc:
            self.files[self.main] = '#include "main.h"\n'
        self.args = ['-std=c11' if self.isc else r.choice(
            ['-std=c++20', '-std=c++20', '-std=c++23', '-std=gnu++20']), '-I.']
        if self.cxx17ns and not self.isc:
            self.args += ['-Xiwyu', '--cxx17ns']

    def _type(self, i):
        r = self.r
        t = Type()
        t.name = 'Ty%d' % i + r.choice(['', '_x', 'Q'])
        t.file = 't%d.h' % i
        t.ns = [] if self.isc else r.choice(NSS)
        t.qn = ''.join('%s::' % n for _, n in t.ns) + t.name
        t.short = ''.join('%s::' % n for k, n in t.ns if not k) + t.name
        t.args, t.head = '', None
        t.plain = True           # a declaration is expected to be suggested
        sup = ''
        k = r.random()
        if self.isc:
            t.kind = r.choice(['struct', 'struct', 'union'])
            body = '%s %s { int a; };' % (t.kind, t.name)
        elif k < .3:
            t.kind = r.choice(['class', 'struct', 'union', 'class'])
            at = r.choice(ATTRS)
            fin = ' final' if t.kind != 'union' and r.random() < .2 else ''
            body = '%s %s%s%s { int a; };' % (t.kind, at, t.name, fin)
        elif k < .5:
            t.kind = r.choice(['enum class', 'enum struct', 'enum', 'enum'])
            base = r.choice(BASES)
            if r.random() < .3:
                base = r.choice(TDBASE).replace('@', str(i))
                sup = 'typedef unsigned char Under%d; namespace un { ' \
                    'using Under%d = short; } enum Other%d : char {};' % (
                        i, i, i)
            if t.kind != 'enum' and r.random() < .3:
                base = ''
            at = r.choice(['', '', '[[nodiscard]] '])
            body = '%s %s%s%s { k%s };' % (
                t.kind, at, t.name, ' : ' + base if base else '', t.name)
            t.base = base
        else:
            t.kind = r.choice(['class', 'struct', 'struct', 'union'])
            hid, head, args = r.choice(HEADS)
            t.head, t.args = head, '<%s>' % args.replace('@', str(i))
            head = head.replace('@', str(i))
            req = REQS.get(hid, '').replace('@', str(i))
            sup = SUPPORT.get(hid, '').replace('@', str(i))
            t.plain = hid not in ('tdflt',)
            at = r.choice(ATTRS[:6])
            fin = r.choice(['', '', ' final', ' final ']) \
                if t.kind != 'union' else ''
            if t.kind != 'union' and r.random() < .3:
                fin += r.choice([' : Base%d', ': Base%d', ' : ::Base%d',
                                 ' : public ::Base%d',
                                 '\n  : private Base%d']) % i
                sup += ' struct Base%d {};' % i
            body = 'template <%s>%s %s %s%s%s { int a; };' % (
                head, req, t.kind, at, t.name, fin)
            t.hid = hid
            t.declared = 'template <%s>%s %s %s;' % (head, req, t.kind, t.name)
        t.core = body
        t.sup = sup
        j = r.random()
        if j < .15 and not self.isc and '[[' not in body and \
                'alignas' not in body and not t.kind.startswith('enum') and \
                '__attr' not in body and t.plain:
            # Declared before, perhaps in another header.
            decl = getattr(t, 'declared', '%s %s;' % (t.kind, t.name))
            body = decl + '\n' + body
        elif j < .22 and not self.isc and not t.ns and not t.head and \
                'class' not in t.kind:
            body = 'extern "C" {\n%s\n}' % body
        elif j < .28 and not self.isc:
            body = 'extern "C++" {\n%s\n}' % body
        elif j < .34:
            body = '#define NAME%d %s\n%s' % (
                i, t.name, re.sub(r'\b%s\b' % t.name, 'NAME%d' % i, body, 1))
        for inl, n in reversed(t.ns):
            m = r.random()
            if not inl and m < .1:
                body = '#define NS%d%s namespace %s {\nNS%d%s\n%s\n}' % (
                    i, n, n, i, n, body)
            elif not inl and m < .15:
                body = 'namespace __attribute__((visibility("default"))) %s {\n%s\n}' % (n, body)
            else:
                body = '%snamespace %s {\n%s\n}' % (inl, n, body)
        t.text = ('#include "support.h"\n' if sup else '') + body + '\n'
        if sup:
            self.support.append(sup)
        return t

    def _use(self, t):
        r = self.r
        self.u = getattr(self, 'u', 0) + 1
        if self.isc:
            return r.choice(['extern %(k)s %(n)s* v%(u)d;',
                             'void f%(u)d(%(k)s %(n)s* p);']) % {
                'k': t.kind, 'n': t.name, 'u': self.u}
        q = r.choice([t.qn, t.short, '::' + t.qn, '::' + t.short]) + t.args
        if t.kind.startswith('enum'):
            s = r.choice(['void f%(u)d(%(q)s e);', 'extern %(q)s v%(u)d;',
                          '%(q)s* v%(u)d;', 'void f%(u)d(const %(q)s& e);',
                          'struct S%(u)d { %(q)s* p; };'])
        else:
            s = r.choice(['%(q)s* v%(u)d;', 'void f%(u)d(%(q)s& p);',
                          'struct S%(u)d { %(q)s* p; };',
                          'void f%(u)d(const %(q)s* p);',
                          'namespace w%(u)d { %(q)s* v; }',
                          'int f%(u)d() { %(q)s* p = nullptr; return !p; }',
                          'extern %(q)s** v%(u)d;',
                          'template <class T> void f%(u)d(T, %(q)s*);'])
            if '::' + t.short in q or '::' + t.qn in q:
                s = s.replace(' ::', ' ::')
        return s % {'q': q, 'u': self.u}

    def declares(self, line):
        """The type a declaration line is about."""
        for t in self.types:
            if re.search(r'\b%s\b' % t.name, line):
                return t
        return None


def mentions(t, line):
    """What the line names that is declared elsewhere, if anything."""
    if not t.sup:
        return None
    if t.head:
        own = OWNED.get(t.hid)
        return 'template head' if own and re.search(
            r'\b%s\d+\b' % own, line) else None
    return 'underlying type' if re.search(
        r': .*\b(Under|Other)\d+\b', line) else None


def compiles(w, text, d, name='probe', flags=()):
    p = name + ('.c' if w.isc else '.cc')
    core.write_tree(d, {p: text})
    plain = [a for i, a in enumerate(w.args) if a != '-Xiwyu' and
             (i == 0 or w.args[i - 1] != '-Xiwyu')]
    res = core.run([core.CLANG, '-fsyntax-only', '-Wno-everything'] +
                   list(flags) + plain + [p], cwd=d)
    return None if res.rc == 0 else res.err[:700]


def judge(w, d, rep, count, known=lambda what: None):
    """Complaints about one report with declarations."""
    bad = []
    if rep.correct:
        return bad
    incs = [l.code for l in rep.full if l.include]
    fwds = [l.code for l in rep.full if not l.include]
    head = '\n'.join(incs) + '\n'
    lacking = False
    for f in fwds:
        if any(re.search(r'\b%s\b' % n, f) for n in w.locals):
            continue
        t = w.declares(f)
        count('declarations judged')
        if t is None:
            bad.append('declares nothing the file uses: ' + f)
            continue
        count('declared ' + (t.hid if t.head else t.kind))
        hd = head
        e = compiles(w, hd + f + '\n', d)
        if e and mentions(t, f) and '#include "support.h"' not in incs:
            # Judge the rest with the names that the line mentions.
            known(mentions(t, f))
            hd += '#include "support.h"\n'
            lacking = True
            e = compiles(w, hd + f + '\n', d)
        if e:
            bad.append('does not compile after the suggested includes: %s\n%s'
                       % (f, e))
            continue
        q = (t.kind + ' ' if w.isc else '') + \
            ('::' + t.qn if not w.isc else t.name) + t.args
        after = '\n#include "%s"\n' % t.file
        size = '_Static_assert(sizeof(%s) > 0, "");\n' % q
        flags = ['-Werror=mismatched-tags']
        e = compiles(w, hd + f + after + size, d, flags=flags)
        if e:
            bad.append('not a declaration of %s: %s\n%s' % (t.qn, f, e))
        e = compiles(w, after + hd + f + '\n' + size, d, flags=flags)
        if e:
            bad.append('clashes with %s: %s\n%s' % (t.qn, f, e))
        if not w.isc:
            # The bare qualified name written in the line is the type.
            e = compiles(w, hd + f + '\n%s\n' % use_line(t), d)
            if e:
                bad.append('uses of %s do not compile after: %s\n%s' % (
                    t.short, f, e))
    if lacking:
        head += '#include "support.h"\n'
    body = w.body
    for n in w.locals:
        # Without the declaration, as after its removal.
        count('declarations without a definition judged')
        body = re.sub(r'(?m)^(namespace ln \{ )?(template <class T> )?'
                      r'(class|struct) %s;( \})?$' % n, '', body)
    e = compiles(w, w.pre + head + '\n'.join(fwds) + '\n' + body, d, 'whole')
    if e:
        bad.append('the file does not compile with the suggested lines %s:\n%s'
                   % (incs + fwds, e))
    for t in w.types:
        if t.plain and not any(w.declares(f) is t for f in fwds):
            if '#include "%s"' % t.file in incs:
                count('header instead of declaration of ' +
                      (t.hid if t.head else t.kind))
    return bad


def use_line(t):
    return 'extern %s%s* probe_a; extern %s%s* probe_b;' % (
        '::' + t.qn, t.args, '::' + t.short, t.args)


def outcome(binary, w, d):
    core.write_tree(d, w.files)
    cmd = [binary] + w.args + [w.main]
    res = core.run(cmd, cwd=d)
    return cmd, res, (report.parse(res.text) if not res.timeout else None)
