"""Generated source files with reports about them, and what applying such a
report may do to the file: an independent, declarative model of the fixer."""
import collections
import re

HDR = ['a', 'b', 'c', 'lib/d', 'lib/e', 'proj/f', 'proj/g', 'x/y/z', 'h-inl',
       'h', 'i_j', 'K', 'l.m', 'zz', 'aa', 'n++']
SYS_C = ['stdio.h', 'string.h', 'sys/types.h', 'unistd.h', 'math.h', 'net/if.h']
SYS_X = ['vector', 'string', 'map', 'memory', 'algorithm', 'set', 'ext/hash']
BARRIER = ['linux/if.h', 'linux/types.h']


class Ln(object):
    __slots__ = ('text', 'role', 'obj', 'path', 'n', 'dead')

    def __init__(self, text, role, obj, path):
        self.text, self.role, self.obj, self.path = text, role, obj, path
        self.n, self.dead = None, False


class Unit(object):
    """An include or a forward declaration."""
    remove = False
    reported = True
    nested = False

    def __init__(self, kind, key, lines, ns=()):
        self.kind, self.key, self.lines, self.own_ns = kind, key, lines, ns
        self.first = self.last = None
        self.path = ()
        self.full_text = None

    @property
    def ns(self):
        r = []
        for b in self.path:
            if b.kind == 'ns':
                r += b.names
            elif b.kind == 'class':
                r.append(b.names[0])
        return tuple(r) + self.own_ns

    @property
    def conds(self):
        return tuple(b.tag for b in self.path if b.kind == 'if')

    @property
    def toplevel(self):
        return not [b for b in self.path if b.kind != 'guard']


class Block(object):
    def __init__(self, kind, names, tag):
        self.kind, self.names, self.tag = kind, names, tag
        self.open, self.close = [], []


class File(object):
    """layout 'top': all top-level units precede the first code line."""

    def __init__(self, r, name='foo.cc', layout=None, comments=True,
                 only_includes=False, allow_if=True, odd=True):
        self.r = r
        self.name = name
        self.n = 0
        self.ls = []
        self.units = []
        self.layout = layout or r.choice(['top', 'top', 'mid'])
        self.comments = comments
        self.only_includes = only_includes
        self.allow_if = allow_if
        self.odd = odd
        self.used_keys = set()
        self.final_newline = not odd or r.random() < .94
        self.nss = ['alpha', 'beta', 'gamma', 'delta']
        self._build()
        for i, l in enumerate(self.ls):
            l.n = i + 1
        for u in self.units:
            own = [l.n for l in self.ls if l.obj is u and l.role == u.kind]
            u.first, u.last = own[0], own[-1]

    # -- construction ------------------------------------------------------
    def tag(self):
        self.n += 1
        return self.n

    def add(self, text, role, obj=None, path=()):
        l = Ln(text, role, obj, path)
        self.ls.append(l)
        return l

    def blank(self, p=.4, path=()):
        while self.r.random() < p:
            self.add(self.r.choice(['', '', '', '', '  ', '\f'])
                     if self.odd else '',
                     'blank', None, path)
            p /= 2

    def comment(self, path, k=None):
        r = self.r
        for _ in range(k or r.randint(1, 2)):
            t = self.tag()
            if r.random() < .75 or not self.odd:
                self.add('// note %d%s' % (t, r.choice(
                    ['', '', ' #include "x.h"', ' class Z;', ' }'])
                    if self.odd else ''), 'comment', None, path)
            elif r.random() < .5:
                self.add('/* note %d */' % t, 'comment', None, path)
            else:
                self.add('/* note %d' % t, 'comment', None, path)
                if r.random() < .5:
                    self.add(' * more %d' % t, 'comment', None, path)
                self.add(r.choice(['*/', ' * end %d */' % t]), 'comment',
                         None, path)

    def new_key(self):
        r = self.r
        for _ in range(99):
            k = r.random()
            if k < .5:
                key = '"%s%s"' % (r.choice(HDR), r.choice(
                    ['.h', '.h', '.h', '.hpp', '-inl.h']))
            elif k < .72:
                key = '<%s>' % r.choice(SYS_C)
            elif k < .97:
                key = '<%s>' % r.choice(SYS_X)
            else:
                key = '<%s>' % r.choice(BARRIER)
            if key not in self.used_keys:
                self.used_keys.add(key)
                return key
        key = '"u%d.h"' % self.tag()
        self.used_keys.add(key)
        return key

    def include(self, path, key=None):
        r = self.r
        if self.comments and r.random() < .2:
            self.comment(path)
        key = key or self.new_key()
        form = r.choice(['#include %s'] * 6 + ['# include %s', '#include  %s',
                        '  #include %s', '#\tinclude %s', '#include%s'])
        text = form % key
        k = r.random()
        t = self.tag()
        if k < .15:
            text += '  // why %d' % t
        elif k < .2:
            text += ' /* why %d */' % t
        elif k < .23 and self.odd:
            text += '  '
        u = Unit('inc', key, [text])
        u.path = path
        self.units.append(u)
        self.add(text, 'inc', u, path)
        return u

    def fwd(self, path):
        r = self.r
        t = self.tag()
        name = 'F%d' % t
        if self.comments and r.random() < .2:
            self.comment(path)
        ns = ()
        kind = r.random()
        ind = r.choice(['', '', '  '])
        if kind < .45:
            decl = '%s %s;' % (r.choice(['class', 'struct', 'union']), name)
            lines = [decl]
        elif kind < .6:
            decl = 'template <typename T%d> class %s;' % (t, name)
            lines = [decl]
        elif kind < .75:
            decl = 'template <typename T%d, int N> struct %s;' % (t, name)
            lines = ['template <typename T%d, int N>' % t, 'struct %s;' % name]
            if r.random() < .3:
                lines = ['template <typename T%d,' % t, '          int N>',
                         'struct %s;' % name]
        elif kind < .82:
            decl = 'enum class %s : int;' % name
            lines = [decl]
        else:
            decl = 'class %s;' % name
            k = r.randint(1, 2)
            ns = tuple(r.sample(self.nss, k))
            lines = [''.join('namespace %s { ' % n for n in ns) + decl +
                     ' }' * k]
            ind = ''
        lines = [ind + l for l in lines]
        if r.random() < .12:
            lines[-1] += '  // why %d' % t
        u = Unit('fwd', decl, lines, ns)
        u.path = path
        self.units.append(u)
        for l in lines:
            self.add(l, 'fwd', u, path)
        return u

    def code(self, path):
        r = self.r
        t = self.tag()
        k = r.choice([
            ['int code_%d = %d;' % (t, t)],
            ['int code_%d = %d;  // c %d' % (t, t, t)],
            ['void fn_%d() {' % t, '  call_%d();' % t, '}'],
            ['void fn_%d()' % t, '{', '  call_%d();' % t, '}'],
            ['class K%d {' % t, ' public:', '  int m_%d;' % t, '};'],
            ['using foo::bar_%d;' % t],
            ['static const char* s_%d = "// #include \\"x.h\\" }";' % t],
            ['#define M_%d 1' % t],
            ['#define M_%d(x) \\' % t, '  foo_%d(x)' % t],
            ['typedef int T%d;' % t],
            ['#pragma pack(%d)' % t],
            ['#undef U_%d' % t],
            ['extern "C" {', 'int ext_%d();' % t, '}'],
            ['/* c */ int cc_%d;' % t],
            ['int dd_%d; /* trailing */' % t],
            ['template <class T> struct X%d {};' % t],
            ['enum { k%d };' % t],
            ['MACRO_%d' % t],
            ['namespace al_%d = foo;' % t],
            ['int z_%d[] = {' % t, '  1,', '};'],
            ['#pragma GCC diagnostic push  // %d' % t, 'int pp_%d;' % t,
             '#pragma GCC diagnostic pop  // %d' % t],
            ['struct B%d : A { class In; };' % t],
            ['/* begin %d' % t, ' */ int ee_%d;' % t],
            ['int gg_%d; }' % t] if False else ['int gg_%d;' % t],
        ])
        for l in k:
            self.add(l, 'code', None, path)

    def ns_block(self, path, depth, content):
        r = self.r
        t = self.tag()
        names = [r.choice(self.nss) for _ in range(r.choice([1, 1, 2]))]
        if r.random() < .1:
            names = ['']
        b = Block('ns', [n or '(anon)' for n in names], 'ns%d' % t)
        tagc = '  // o%d' % t if r.random() < .5 else ''
        spell = ['namespace %s' % n if n else 'namespace' for n in names]
        style = r.choice(['std', 'std', 'std', 'lines', 'allman', 'mixed'])
        if style == 'std' or (style == 'mixed' and len(names) == 1):
            opens = [' '.join(s + ' {' for s in spell) + tagc]
        elif style == 'lines':
            opens = [s + ' {' for s in spell]
            opens[0] += tagc
        elif style == 'mixed':
            opens = [' '.join(s + ' {' for s in spell[:-1]) + ' ' + spell[-1],
                     '{' + tagc]
        else:
            opens = []
            for s in spell:
                opens += [s, '{']
            opens[0] += tagc
        k = len(names)
        cl = r.random()
        if cl < .4:
            closes = ['}'] * k
        elif cl < .7:
            closes = ['}  // namespace %s' % n if n else '}  // namespace'
                      for n in reversed(names)]
        elif cl < .85:
            closes = [' '.join('}' * k) + '  // x%d' % t]
        else:
            closes = ['}' * k]
        if self.comments and r.random() < .15:
            self.comment(path)
        inner = path + (b,)
        for o in opens:
            b.open.append(self.add(o, 'nsopen', b, path))
        content(inner, depth + 1)
        for c in closes:
            b.close.append(self.add(c, 'nsclose', b, path))

    def if_block(self, path, depth, content):
        r = self.r
        t = self.tag()
        b = Block('if', [], 'if%d' % t)
        cond = r.choice(['#if C_%d', '#ifdef C_%d', '#ifndef C_%d',
                         '# if defined(C_%d)']) % t
        if self.comments and r.random() < .15:
            self.comment(path)
        inner = path + (b,)
        b.open.append(self.add(cond, 'if', b, path))
        act = r.random() < .7
        n0 = len(self.units)
        content(inner, depth + 1)
        if not act:
            for u in self.units[n0:]:
                u.reported = False
        if r.random() < .25:
            b2 = Block('if', [], 'else%d' % t)
            b2.twin = b
            self.add(r.choice(['#else', '#elif E_%d' % t]), 'else', b, path)
            n0 = len(self.units)
            content(path + (b, b2), depth + 1)
            for u in self.units[n0:]:
                u.reported = u.reported and not act
        b.close.append(self.add(r.choice(['#endif', '#endif  // C_%d' % t]),
                                'endif', b, path))

    def brace_block(self, path):
        """Includes within code."""
        t = self.tag()
        b = Block('brace', ['Code%d' % t], 'code%d' % t)
        self.add(self.r.choice(['extern "C" {  // %d', 'int arr_%d[] = {',
                                'void body_%d() {']) % t, 'code', b, path)
        for _ in range(self.r.randint(1, 2)):
            self.include(path + (b,))
        self.add('};' if self.ls[-2].text.startswith('int') or
                 'arr_' in ''.join(l.text for l in self.ls[-3:]) else '}',
                 'code', b, path)

    def class_block(self, path):
        """A class holding a nested forward declaration."""
        t = self.tag()
        b = Block('class', ['Outer%d' % t], 'cls%d' % t)
        self.add('class Outer%d {' % t, 'code', b, path)
        u = Unit('fwd', 'class In%d;' % t, ['  class In%d;' % t])
        u.path = path + (b,)
        u.nested = True
        self.units.append(u)
        self.add(u.lines[0], 'fwd', u, path + (b,))
        self.add('  int keep_%d;' % t, 'code', b, path)
        self.add('};', 'code', b, path)

    def group(self, path, depth, lo=0, hi=6, fwds=True):
        r = self.r
        for _ in range(r.randint(lo, hi)):
            k = r.random()
            if fwds and not self.only_includes and k < .3:
                self.fwd(path)
            else:
                self.include(path)
            self.blank(.15, path)
            if self.comments and r.random() < .05:
                self.comment(path)
                self.add('', 'blank', None, path)

    def inner(self, path, depth):
        """Content of a conditional."""
        r = self.r
        k = r.random()
        if k < .08:
            return
        self.blank(.2, path)
        if k < .7:
            self.group(path, depth, 1, 3)
        elif k < .85:
            self.code(path)
        elif depth < 3:
            self.if_block(path, depth, self.inner)
        if r.random() < .2:
            self.code(path)
        if r.random() < .15 and depth < 3 and not self.only_includes:
            self.ns_block(path, depth, self.ns_inner)
        self.blank(.2, path)

    def ns_inner(self, path, depth):
        r = self.r
        if r.random() < .05:
            return
        self.blank(.2, path)
        k = r.random()
        if k < .75 and not self.only_includes:
            for _ in range(r.randint(1, 3)):
                self.fwd(path)
                self.blank(.15, path)
        if depth < 3 and r.random() < .25:
            self.ns_block(path, depth, self.ns_inner)
        if depth < 3 and r.random() < .1 and self.allow_if:
            self.if_block(path, depth, self.inner)
        if r.random() < .2:
            self.code(path)
        self.blank(.2, path)

    def _build(self):
        r = self.r
        if r.random() < .4:
            self.comment((), r.randint(1, 3))
            self.blank(.6)
        path = ()
        guard = None
        hdr = not self.name.endswith(('.cc', '.c', '.cpp'))
        k = r.random()
        if hdr and k < .55 or not hdr and k < .08:
            guard = Block('guard', [], 'guard')
            g = 'GUARD_%d_H_' % self.tag()
            path = (guard,)
            if hdr or r.random() < .5:
                self.add('#ifndef %s' % g, 'guard', guard)
                self.add('#define %s' % g, 'define', guard, path)
            else:
                self.add('#ifdef %s' % g, 'guard', guard)
            self.blank(.5)
        elif hdr and k < .8:
            self.add('#pragma once', 'once')
            self.blank(.5)
        # Top matter.
        if not hdr and r.random() < .5:
            stem = self.name.rsplit('.', 1)[0]
            self.used_keys.add('"%s.h"' % stem)
            self.include(path, '"%s.h"' % stem)
            self.blank(.4, path)
        for _ in range(r.randint(0, 3)):
            self.group(path, 0)
            self.blank(.6, path)
            k = r.random()
            if k < .25 and self.allow_if:
                self.if_block(path, 0, self.inner)
                self.blank(.4, path)
            if .2 < k < .5 and not self.only_includes:
                self.ns_block(path, 0, self.ns_inner)
                self.blank(.4, path)
            if .8 < k < .85 and self.layout == 'mid' and self.odd:
                self.brace_block(path)
                self.blank(.4, path)
            if k > .85 and self.layout == 'mid':
                self.code(path)
                self.blank(.4, path)
        if self.units and r.random() < .12:
            # A repeated include.
            u = r.choice(self.units)
            if u.kind == 'inc':
                self.include(path, u.key)
        self.blank(.5, path)
        self.body_from = len(self.ls) + 1
        for _ in range(r.randint(0, 5)):
            k = r.random()
            if k < .55:
                self.code(path)
            elif k < .65 and self.allow_if:
                self.if_block(path, 0, self.inner)
            elif k < .8 and not self.only_includes:
                self.ns_block(path, 0, self.ns_inner)
            elif k < .85 and not self.only_includes:
                self.class_block(path)
            elif k < .88 and self.odd:
                self.brace_block(path)
            elif k < .9:
                self.comment(path)
                self.add('', 'blank', None, path)
            elif self.layout == 'mid':
                self.group(path, 0, 1, 4)
            self.blank(.4, path)
        if guard:
            self.add('#endif  // %s' % g if r.random() < .7 else '#endif',
                     'endif', guard)
            if r.random() < .1:
                self.add('// end of file %d' % self.tag(), 'comment')
        if not self.ls:
            self.code(())

    @property
    def text(self):
        t = ''.join(l.text + '\n' for l in self.ls)
        return t if self.final_newline else t[:-1]

    # -- the report ----------------------------------------------------------
    def decide(self, p_remove=.35, p_nothing=0):
        """Choose removals and additions."""
        r = self.r
        nothing = r.random() < p_nothing
        self.adds_inc, self.adds_fwd = [], []
        for u in self.units:
            u.remove = (not nothing and u.reported and
                        r.random() < p_remove)
        if nothing:
            return
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
            self.adds_inc.append(self.new_key())
        if not self.only_includes:
            for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
                t = self.tag()
                ns = tuple(r.sample(self.nss, r.choice([0, 0, 1, 1, 2])))
                decl = r.choice(['class F%d;', 'struct F%d;',
                                 'template <typename T> class F%d;',
                                 'enum class F%d : int;']) % t
                self.adds_fwd.append((ns, decl))

    @staticmethod
    def fwd_line(ns, decl):
        return ''.join('namespace %s { ' % n if n != '(anon)' else
                       'namespace { ' for n in ns) + decl + ' }' * len(ns)

    def unit_line(self, u):
        if u.kind == 'inc':
            return '#include ' + u.key
        if u.nested:
            ns, cls = u.ns[:-1], u.ns[-1]
            k, name = u.key.split(' ', 1)
            return self.fwd_line(ns, '%s %s::%s' % (k, cls, name))
        return self.fwd_line(u.ns, u.key)

    def why(self):
        return self.r.choice(['', '', '  // for Foo', '    // for A, B::c',
                              '  // for operator/'])

    def report(self, name=None):
        r = self.r
        name = name or self.name
        adds, rem, full = [], [], []
        kept = set()
        for k in self.adds_inc:
            w = self.why()
            adds.append('#include %s%s' % (k, w))
        for ns, d in self.adds_fwd:
            adds.append(self.fwd_line(ns, d))
        full_inc = list(adds)
        self.full_of = {}
        for k, line in zip(self.adds_inc, adds):
            self.full_of[k] = line
        for u in self.units:
            if not u.reported:
                continue
            rng = '  // lines %d-%d' % (u.first, u.last)
            if not u.remove and u.key in kept:
                continue
            kept.add(None if u.remove else u.key)
            if u.remove:
                rem.append('- ' + self.unit_line(u) + rng)
            else:
                t = self.unit_line(u)
                if u.kind == 'inc':
                    w = self.why()
                    t += w or rng
                    self.full_of[u.key] = self.unit_line(u) + w
                else:
                    t += rng
                full.append(t)
        both = full_inc + full
        if r.random() < .5:
            r.shuffle(both)
        if not adds and not rem:
            self.full_of = {}
            return '\n(%s has correct #includes/fwd-decls)\n' % name
        return ('\n%s should add these lines:\n%s\n%s should remove these '
                'lines:\n%s\nThe full include-list for %s:\n%s---\n' % (
                    name, ''.join(a + '\n' for a in adds), name,
                    ''.join(a + '\n' for a in rem), name,
                    ''.join(a + '\n' for a in both)))

    # -- what must remain -----------------------------------------------------
    def attached(self, first):
        """Line numbers of the comments attached to the line."""
        i = first - 1
        while i >= 1 and self.ls[i - 1].role == 'comment':
            i -= 1
        if i + 1 <= 1:
            return []
        return list(range(i + 1, first))

    def expectation(self, safe):
        """Marks dead lines; returns (maybe, removed): line numbers that may
        be dropped as repetitions, units that must go."""
        for l in self.ls:
            l.dead = False
        hdr = not re.search(r'\.(c|C|cc|CC|cxx|CXX|cpp|CPP|c\+\+|C\+\+|cp)$',
                            self.name)
        self.safe = safe and hdr
        if self.safe:
            return set(), []
        gone = [u for u in self.units if u.remove]
        for u in gone:
            for n in self.attached(u.first) + list(range(u.first, u.last + 1)):
                self.ls[n - 1].dead = True
        # Namespaces and conditionals left with nothing in them.
        pairs = []
        stack = []
        for l in self.ls:
            if l.role in ('nsopen', 'if', 'guard'):
                if not stack or stack[-1][0] is not l.obj:
                    stack.append((l.obj, l.n, l.role))
            elif l.role in ('nsclose', 'endif') and stack and \
                    stack[-1][0] is l.obj:
                last = max(x.n for x in self.ls if x.obj is l.obj)
                if l.n == last:
                    o = stack.pop()
                    pairs.append((o[1], l.n, l.obj))
        again = True
        while again:
            again = False
            for a, z, b in pairs:
                if self.ls[a - 1].dead:
                    continue
                if all(x.dead or x.role in ('blank', 'comment') or
                       x.role in ('nsopen', 'nsclose', 'else') and x.obj is b
                       for x in self.ls[a:z - 1]):
                    for n in self.attached(a) + list(range(a, z + 1)):
                        self.ls[n - 1].dead = True
                    again = True
        maybe = set()
        seen = {}
        for u in self.units:
            if not u.toplevel or self.ls[u.first - 1].dead:
                continue
            k = (u.kind, u.key if u.kind == 'inc' else self.unit_line(u))
            if k in seen:
                for n in self.attached(u.first) + list(range(u.first,
                                                             u.last + 1)):
                    maybe.add(n)
            seen[k] = u
        return maybe, gone


# -- reading the result --------------------------------------------------------
TOKEN = re.compile(r'''//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*'
|\#[^\n]*(?:\\\n[^\n]*)*|\w+|::|[^\s]''', re.S | re.X)


def _strip_comments(text):
    """Comments replaced by nothing, line structure kept, strings kept."""
    out, i = [], 0
    pat = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"', re.S)
    for m in pat.finditer(text):
        out.append(text[i:m.start()])
        s = m.group(0)
        if s[0] == '"':
            out.append(s)
        else:
            out.append(re.sub(r'[^\n]', '', s))
        i = m.end()
    out.append(text[i:])
    return ''.join(out)


def semantics(text):
    """The includes [(conds, key, line)], the forward declarations
    [(conds, ns, decl, line)] and an error text, of a file."""
    # Include names contain quotes: hide comments line by line.
    incs, fwds = [], []
    plain = re.sub(r'(?m)^MACRO_\d+$', '', _strip_comments(text))
    conds, scope = [], []
    stmt, stmt_line = '', 0
    err = None
    skip = False
    for no, line in enumerate(plain.split('\n'), 1):
        if skip:
            skip = line.endswith('\\')
            continue
        m = re.match(r'\s*#\s*(\w+)\s*(.*?)\s*$', line)
        if m:
            d, rest = m.groups()
            if d in ('if', 'ifdef', 'ifndef'):
                conds.append(d + ' ' + rest)
            elif d in ('else', 'elif'):
                if not conds:
                    err = err or 'line %d: stray #%s' % (no, d)
                else:
                    conds[-1] = conds[-1] + '/'
            elif d == 'endif':
                if not conds:
                    err = err or 'line %d: stray #endif' % no
                else:
                    conds.pop()
            elif d == 'include':
                incs.append((tuple(conds), rest, no, len(scope)))
            skip = line.endswith('\\')
            continue
        for tok in re.findall(r'"(?:\\.|[^"\\])*"|[{};]|[^{};"]+', line + ' '):
            if tok == '{':
                s = stmt.split()
                if s[:1] == ['namespace'] and '=' not in s:
                    scope.append(s[1] if len(s) > 1 else '(anon)')
                elif s[:1] in (['class'], ['struct'], ['union']) and \
                        len(s) > 1:
                    scope.append(s[1])
                else:
                    scope.append(None)
                stmt = ''
            elif tok == '}':
                if not scope:
                    err = err or 'line %d: stray }' % no
                else:
                    scope.pop()
                stmt = ''
            elif tok == ';':
                s = ' '.join(stmt.split())
                if re.match(r'(template <[^>]*> ?)?(class|struct|union|'
                            r'enum class) \w+( : int)?$', s) and \
                        None not in scope:
                    fwds.append((tuple(conds), tuple(scope), s + ';', no))
                stmt = ''
            else:
                stmt += tok
    if conds:
        err = err or 'unterminated ' + conds[-1]
    if scope:
        err = err or 'unclosed brace'
    return incs, fwds, err


def squeeze(s):
    return re.sub(r'\s+', '', s)


def judge(f, before, after, opts, maybe, gone):
    """Problems with `after` as the result of applying f's report."""
    bad = []
    ls = f.ls
    live = [l for l in ls if not l.dead and l.role != 'blank' and
            l.n not in maybe]
    out = after.split('\n')
    if out and out[-1] == '':
        out.pop()
    stripped = [l.rstrip() for l in out]
    want_comments = '--comments' in opts or '--update_comments' in opts

    # 1. Meaning: which includes and declarations stand in which context.
    bi, bf, berr = semantics(before)
    ai, af, aerr = semantics(after)
    assert berr is None, berr
    if aerr:
        return ['the structure is broken: ' + aerr]
    dead_lines = {l.n for l in ls if l.dead}
    exp_i = collections.Counter()
    may_i = collections.Counter()
    for conds, key, no, _ in bi:
        if no in maybe:
            may_i[(conds, key)] += 1
        elif no not in dead_lines:
            exp_i[(conds, key)] += 1
    exp_f, may_f = collections.Counter(), collections.Counter()
    for conds, ns, decl, no in bf:
        if no in maybe:
            may_f[(conds, ns, decl)] += 1
        elif no not in dead_lines:
            exp_f[(conds, ns, decl)] += 1
    guard = [b for l in ls if l.role == 'guard' for b in [l.text]]
    gc = ()
    for l in ls:
        if l.role == 'guard' and not l.dead:
            m = re.match(r'\s*#\s*(\w+)\s*(.*?)\s*$', l.text)
            gc = (m.group(1) + ' ' + m.group(2),)
    # A conditional around the whole file counts as a guard.
    body = [l for l in ls if l.role not in ('blank', 'comment', 'once')]
    if body and body[0].role == 'if' and not body[0].dead and \
            body[-1].obj is body[0].obj and body[-1].role == 'endif' and \
            not [l for l in ls if l.role == 'else' and
                 l.obj is body[0].obj] and \
            not [l for l in ls[body[-1].n:] if l.role == 'once']:
        m = re.match(r'\s*#\s*(\w+)\s*(.*?)\s*$', body[0].text)
        gc = (m.group(1) + ' ' + m.group(2),)
    for k in f.adds_inc:
        exp_i[(gc, k)] += 1
    outside = collections.Counter()
    for ns, d in f.adds_fwd:
        exp_f[(gc, ns, d)] += 1
    got_i = collections.Counter((c, k) for c, k, _, _ in ai)
    got_f = collections.Counter((c, n, d) for c, n, d, _ in af)
    if gc and not [l for l in ls if l.role == 'define']:
        for keys, exp, got in (([(k,) for k in f.adds_inc], exp_i, got_i),
                               (f.adds_fwd, exp_f, got_f)):
            for k in keys:
                if got[((),) + k] and not exp[((),) + k]:
                    got[(gc,) + k] += got.pop(((),) + k)
    for what, exp, may, got in (('include', exp_i, may_i, got_i),
                                ('declaration', exp_f, may_f, got_f)):
        for k in sorted(set(exp) | set(got), key=repr):
            if not exp[k] <= got[k] <= exp[k] + may[k]:
                # An addition may also land before the guard.
                bad.append('%s %s: %d times instead of %d' % (
                    what, k, got[k], exp[k]))
    if bad:
        return bad

    # 2. Every other line is kept, once, in order.
    nsgen = re.compile(r'\s*namespace\b[^;=]*\{|\}  // namespace')
    full = {}
    if want_comments:
        full = {k: v for k, v in f.full_of.items() if '//' in v}
    want = collections.Counter()
    for l in live:
        if l.role == 'fwd' or nsgen.match(l.text):
            continue
        if l.role == 'inc' and l.obj.key in full:
            want[full[l.obj.key].rstrip()] += 1
        else:
            want[l.text.rstrip() if l.role in ('inc', 'comment')
                 else l.text] += 1
    for k in f.adds_inc:
        t = '#include ' + k
        if want_comments and k in full:
            t = full[k].rstrip()
        want[t] += 1
    fwd_lines = {x.rstrip() for l in live if l.role == 'fwd'
                 for x in (l.text, l.text.strip())}
    fwd_lines |= {l.text for l in live if l.role == 'fwd'}
    fwd_lines |= {d for _, d in f.adds_fwd}
    fwd_lines |= {f.fwd_line(ns, d) for ns, d in f.adds_fwd}
    may = collections.Counter(
        full[ls[n - 1].obj.key].rstrip() if ls[n - 1].role == 'inc' and
        ls[n - 1].obj.key in full else ls[n - 1].text.rstrip() for n in maybe)
    got = collections.Counter()
    for l in out:
        if l.strip() == '':
            continue
        got[l if l in want else l.rstrip()] += 1
    for t in sorted(set(want) | set(got)):
        if nsgen.match(t) or want[t] <= got[t] <= want[t] + may[t]:
            continue
        if t not in want and not may[t]:
            base = re.sub(r'\s*//.*', '', t).strip()
            if t in fwd_lines or base in {re.sub(r'\s*//.*', '', x).strip()
                                          for x in fwd_lines}:
                continue
            # A one-line namespace declaration put on lines of its own.
            if any(base and base in x for x in fwd_lines):
                continue
        bad.append('line %r: %d times instead of %d' % (t, got[t], want[t]))
    if bad:
        return bad
    barriers = [l.text for l in live if l.role not in ('inc', 'fwd') and
                not nsgen.match(l.text)]
    cnt = collections.Counter(l.text for l in ls)
    attached = set()
    for u in f.units:
        attached.update(f.attached(u.first))
    uniq = [l for l in live if cnt[l.text] == 1 and l.role in (
        'code', 'if', 'guard', 'define', 'once', 'comment', 'nsopen',
        'nsclose', 'endif', 'else') and l.n not in attached and
        not nsgen.match(l.text) or '// o' in l.text and cnt[l.text] == 1 and
        l.role == 'nsopen']
    pos, where = 0, []
    utext = {l.text.rstrip() if l.role == 'comment' else l.text: i
             for i, l in enumerate(uniq)}
    seq = [utext[t] for t in (o if o in utext else o.rstrip() for o in out)
           if t in utext]
    if seq != list(range(len(uniq))):
        bad.append('other lines changed order or vanished: %s' % [
            uniq[i].text for i in seq][:12])
        return bad
    # 3. Includes and declarations stay between the same neighbours, and keep
    # their comments.
    idx_out = []
    k = 0
    for o in out:
        t = o if o in utext else o.rstrip()
        if t in utext:
            k = utext[t] + 1
        idx_out.append(k)
    idx_in, k = {}, 0
    um = {id(l): i for i, l in enumerate(uniq)}
    for l in ls:
        if id(l) in um:
            k = um[id(l)] + 1
        idx_in[l.n] = k
    for u in f.units:
        if ls[u.first - 1].dead or u.first in maybe:
            continue
        want_t = [l.text.rstrip() for l in ls[u.first - 1:u.last]]
        if u.kind == 'inc' and u.key in full:
            want_t = [full[u.key].rstrip()]
        cands = [i for i in range(len(out)) if stripped[i:i + len(want_t)] ==
                 want_t]
        if not cands and u.kind == 'fwd' and u.own_ns:
            cands = [i for i in range(len(out)) if
                     re.search(r'\b%s\b' % u.key[:-1].split()[-1], out[i])]
        if not cands:
            bad.append('%r is not to be found' % want_t)
            continue
        twins = [x for x in f.units if x is not u and x.key == u.key]
        if not twins and idx_out[cands[0]] != idx_in[u.first]:
            bad.append('%r moved across other code' % want_t)
        att = [ls[n - 1].text.rstrip() for n in f.attached(u.first)
               if not ls[n - 1].dead]
        if att and not twins:
            i = cands[0]
            while i > 0 and (out[i - 1].strip() == '' or
                             u.own_ns and nsgen.match(out[i - 1])):
                i -= 1
            if stripped[max(0, i - len(att)):i] != att:
                bad.append('%r lost its comments %r' % (want_t, att))
        tail = re.search(r'// why \d+$', u.lines[-1])
        if tail and u.kind == 'fwd' and tail.group(0) not in after:
            bad.append('%r lost its end-of-line comment' % want_t)
    # 4. Additions take effect before the code that follows the includes.
    if f.layout == 'top':
        first, prev = None, None
        for l in live:
            # The fixer takes a #define right below the opening of a
            # whole-file conditional for the guard's own.
            of_guard = prev is not None and prev.role in ('guard', 'if') and \
                l.text.lstrip().startswith('#define')
            if l.role != 'comment' and not of_guard:
                prev = l
            if l.role == 'code' and not of_guard and not [b for b in l.path
                                         if b.kind == 'if']:
                first = l
                break
        if first is not None:
            at = [i for i, o in enumerate(out) if o == first.text]
            if cnt[first.text] == 1 and at:
                for k in f.adds_inc:
                    i = [no - 1 for c, kk, no, _ in ai if kk == k and
                         c in (gc, ())]
                    if min(i) > at[0]:
                        bad.append('added include %s is below %r' % (
                            k, first.text))
                for ns, d in f.adds_fwd:
                    i = [no - 1 for c, n, dd, no in af if (n, dd) == (ns, d)]
                    if min(i) > at[0]:
                        bad.append('added declaration %s is below %r' % (
                            d, first.text))
    for c, k, no, depth in ai:
        if k in f.adds_inc and depth and (c, k) not in may_i and \
                not [1 for c2, k2, _, _ in bi if k2 == k]:
            bad.append('added include %s is inside braces' % k)
    return bad
