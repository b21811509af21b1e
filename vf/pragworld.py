"""Generated pragma placements with a model of what each pragma covers."""
import os
import re

from . import core

KEEP = ['// IWYU pragma: keep', '// IWYU pragma: keep', '/* IWYU pragma: keep */',
        '// IWYU pragma: keep // why', '/* IWYU pragma: keep */ // x',
        '// IWYU pragma: keep because it is needed']
EXPORT = ['// IWYU pragma: export', '/* IWYU pragma: export */',
          '// IWYU pragma: export // why']
# Comments that are no pragmas.
NOT = ['// iwyu pragma: keep', '//IWYU pragma: keep', '// IWYU pragma:keep',
       '// IWYU Pragma: keep', '// IWYU  pragma: keep', '// keep',
       '// see IWYU, pragma: keep', '/** IWYU pragma: keep */',
       '/// IWYU pragma: keep', '// IWYU pragmas: export']
# Pragmas that are diagnosed and have no other effect.
BAD = ['// IWYU pragma: Keep', '// IWYU pragma: kepp',
       '// IWYU pragma: KEEP', '// IWYU pragma: keeper',
       '// IWYU pragma: exports', '// IWYU pragma: no_keep',
       '// IWYU pragma:  keep' + 'x', '/* IWYU pragma: keeping */',
       '// IWYU pragma: export_all', '// IWYU pragma: keep_all']
BADLINE = ['// IWYU pragma: no_include', '// IWYU pragma: no_forward_declare',
           '// IWYU pragma: friend', '// IWYU pragma: end_keep',
           '// IWYU pragma: end_exports', '/* IWYU pragma: end_keep */',
           '// IWYU pragma: private, include %(path)s',
           '// IWYU pragma: no_include %(path)s',
           '// IWYU pragma: always keep', '// IWYU pragma: begin_exports_x',
           '// IWYU pragma: begin_keeps', '// IWYU pragma: frobnicate',
           '// IWYU pragma: private include "x.h"' + '\t', '/* IWYU pragma: */']
BADLINE = [b for b in BADLINE if 'private include' not in b]


class Ent(object):
    def __init__(self, i, r):
        self.i = i
        self.r = r
        self.kind = r.choice(('class', 'class', 'struct', 'union', 'tpl',
                              'enum'))
        self.ns = tuple(r.choice(('na', 'nb', 'nc'))
                        for _ in range(r.choice((0, 0, 1, 1, 2))))
        self.ns = tuple(dict.fromkeys(self.ns))
        self.name = 'X%d' % i
        self.path = r.choice(('', '', 'k/', 'lib/', 'lib/k/')) + 'h%d.h' % i
        self.system = r.random() < .2
        self.always = False
        self.keepopt = False
        self.attr = False

    @property
    def qn(self):
        return '::'.join(self.ns + (self.name,))

    @property
    def spelling(self):
        return ('<%s>' if self.system else '"%s"') % self.path

    @property
    def file(self):
        return ('sys/' if self.system else '') + self.path

    @property
    def core(self):
        n = self.name
        return {'class': 'class %s;', 'struct': 'struct %s;',
                'union': 'union %s;', 'enum': 'enum class %s : int;',
                'tpl': 'template <typename T> class %s;'}[self.kind] % n

    @property
    def fwd(self):
        return ''.join('namespace %s { ' % n for n in self.ns) + self.core + \
            ' }' * len(self.ns)

    @property
    def ref(self):
        return self.qn + ('<int>' if self.kind == 'tpl' else '')

    def defn(self):
        a = '__attribute__((visibility("default"))) ' if self.attr else ''
        n = self.name
        d = {'class': 'class %s%s { public: int m; };' % (a, n),
             'struct': 'struct %s%s { int m; };' % (a, n),
             'union': 'union %s%s { int m; char c; };' % (a, n),
             'enum': 'enum class %s%s : int { k, l };' % (a, n),
             'tpl': 'template <typename T> class %s%s '
                    '{ public: T m; };' % (a, n)}[self.kind]
        for n in reversed(self.ns):
            d = 'namespace %s {\n%s\n}' % (n, d)
        return d

    def full(self, u):
        if self.kind == 'enum':
            return 'inline int %s() { return (int)%s::k; }' % (u, self.ref)
        return 'inline int %s(%s& x) { return x.m; }' % (u, self.ref)

    def ptr(self, u):
        return 'void %s(%s*);' % (u, self.ref)


class Target(object):
    """A file that is judged: what it must and must not list."""

    def __init__(self, path):
        self.path = path
        self.must, self.mustnot = set(), set()        # include spellings
        self.fmust, self.fmustnot = set(), set()      # forward declarations
        self.noadd = set()
        self.warn = {}                                # line -> text
        self.what = {}                                # line/decl -> reason
        self.stats = []
        self.front = []

    def need(self, kind, key, why):
        getattr(self, kind).add(key)
        self.what[key] = why
        self.stats.append(why)


class World(object):
    def __init__(self, r):
        self.r = r
        self.args = []
        self.warn = {}                # (file, line) expected to be warned of
        n = r.randint(4, 11)
        self.ents = [Ent(i, r) for i in range(n)]
        self.inert = r.random() < .3          # headers with stray pragmas
        self.has_assoc = r.random() < .45
        self.main = Target('main.cc')
        self.assoc = Target('main.h') if self.has_assoc else None
        self.targets = [self.main] + ([self.assoc] if self.assoc else [])
        self.header_text()
        self.um()
        order = self.targets[::-1]
        self.pool = self.ents[:]
        r.shuffle(self.pool)
        self.share = []
        for k, t in enumerate(order):
            mine = self.pool[k::len(order)]
            self.fill(t, mine)

    # ------------------------------------------------------------------
    def header_text(self):
        r = self.r
        globs = []
        for e in self.ents:
            k = r.random()
            e.nomatch = None
            if k < .1:
                e.always = True
            elif k < .2:
                e.keepopt = True
                globs.append(r.choice((
                    '*' + os.path.basename(e.path), '*' + e.path, e.file,
                    './' + e.file, e.file.replace('h%d' % e.i, '[h]%d' % e.i),
                    'sys/../' + e.file)))
            elif k < .25:
                globs.append(r.choice(('%s.x', 'x*%s', '%sx*', '?%s?')) %
                             os.path.basename(e.path))
            e.attr = r.random() < .12
        self.globs = globs
        self.files = {}
        for e in self.ents:
            g = 'G%d' % e.i
            body = ['#ifndef %s' % g, '#define %s' % g, e.defn(), '#endif']
            p = r.choice(('// IWYU pragma: always_keep',
                          '/* IWYU pragma: always_keep */',
                          '// IWYU pragma: always_keep // x'))
            if e.always:
                body.insert(r.choice((0, 2, 3, len(body))), p)
            elif self.inert and r.random() < .5:
                x = r.choice((
                    '// IWYU pragma: no_include "*"',
                    '// IWYU pragma: keep', '// IWYU pragma: export',
                    '// IWYU pragma: begin_keep',
                    '// IWYU pragma: begin_exports',
                    '// IWYU pragma: begin_keep\n// IWYU pragma: end_keep',
                    '// always_keep', 'static_assert(sizeof("'
                    '// IWYU pragma: always_keep"), "");', 'no'))
                if x == 'no':
                    o = r.choice(self.ents)
                    x = '// IWYU pragma: no_include %s' % o.spelling
                    if r.random() < .5:
                        x = '// IWYU pragma: no_forward_declare %s' % o.qn
                body = '\n'.join(body).split('\n')
                at = r.choice((0, 2, len(body) - 1, len(body)))
                body.insert(at, x.replace('"*"', e.spelling))
                if x.endswith('begin_keep') or x.endswith('begin_exports'):
                    self.warn[e.file, at + 1] = 'without'
            self.files[e.file] = '\n'.join(body) + '\n'
        for g in globs:
            self.args += ['-Xiwyu', '--keep=' + g]

    def um(self):
        r = self.r
        es = self.ents[:]
        r.shuffle(es)
        t = ['#ifndef UM', '#define UM']
        if self.inert and r.random() < .6:
            t.append(r.choice(('// IWYU pragma: begin_keep',
                               '/* IWYU pragma: begin_keep */')))
            self.warn['um.h', len(t)] = 'without'
        t += ['#include %s' % e.spelling for e in es] + ['#endif']
        self.files['um.h'] = '\n'.join(t) + '\n'

    # ------------------------------------------------------------------
    def fill(self, t, mine):
        r = self.r
        head = ['#ifndef MAIN_H', '#define MAIN_H'] \
            if t is self.assoc else []
        inc, fwd, code, prag = [], [], [], []     # lists of (lines, pin)
        um = '#include "um.h"'
        first = [um] if not (self.has_assoc and t is self.main) else \
            ['#include "main.h"']
        front = []
        for e in mine:
            self.slot(t, e, inc, fwd, code, prag)
        if self.has_assoc and t is self.main:
            # Pinned here though the header has the include as well.
            for e, always in self.share:
                pin = r.choice(('line', 'rkeep', 'export', 'rexport', None))
                form = '#include ' + e.spelling
                if pin == 'line':
                    form += '  ' + r.choice(KEEP)
                elif pin == 'export':
                    form += '  ' + r.choice(EXPORT)
                elif pin is None and not always:
                    continue
                inc.append(([form], pin))
                t.need('must', e.spelling, 'shared ' + (pin or always))
        # A few stray diagnosed pragmas.
        stray = []
        if r.random() < .35:
            stray = [r.choice(BADLINE) % {'path': 'h0.h'}
                     for _ in range(r.randint(1, 2))]
        lines = head + first
        r.shuffle(inc)
        lines += self.ranges(inc, 'include')
        r.shuffle(fwd)
        lines += self.ranges(fwd, 'fwd')
        for p in prag:
            lines.insert(r.choice((len(head), len(lines))), p)
        r.shuffle(code)
        lines += code
        for p in prag[:0]:
            lines.append(p)
        if t is self.assoc:
            lines.append('#endif')
        text = '\n'.join(lines) + '\n'
        # Insert stray pragmas outside of ranges.
        ls = text.split('\n')
        for s in stray:
            spots = []
            depth = 0
            for i, l in enumerate(ls):
                if depth == 0 and not (i and ls[i - 1].endswith('\\')) and \
                        not re.search(r'(>|class|struct|union)$', ls[i - 1]):
                    spots.append(i)
                if 'IWYU pragma: begin_' in l and 'begin_exports_x' not in l \
                        and 'begin_keeps' not in l:
                    depth += 1
                if re.search('IWYU pragma: end_', l) and depth:
                    depth -= 1
            ls.insert(r.choice(spots), '%STRAY%' + s)
        for i, l in enumerate(ls):
            if l.startswith('%STRAY%'):
                ls[i] = l[7:]
                self.warn[t.path, i + 1] = 'stray'
            elif any(l.endswith(' ' + b) for b in BAD):
                self.warn[t.path, i + 1] = 'bad'
            elif '%IN%' in l:
                ls[i] = l.replace('%IN%', '')
                self.warn[t.path, i + 1] = 'inside'
        text = '\n'.join(ls)
        if r.random() < .12:
            text = text.replace('\n', '\r\n')
        self.files[t.path] = text

    def ranges(self, items, what):
        """Lay out items, those pinned by a range inside begin/end lines."""
        r = self.r
        out = []
        i = 0
        while i < len(items):
            lines, pin = items[i]
            if pin in ('rkeep', 'rexport'):
                w = 'keep' if pin == 'rkeep' else 'exports'
                style = r.choice(('// IWYU pragma: %s',
                                  '/* IWYU pragma: %s */',
                                  '// IWYU pragma: %s // x'))
                out.append(style % ('begin_' + w))
                group = [items[i]]
                # Others of the same kind may join.
                rest = items[i + 1:]
                for x in rest[:]:
                    if x[1] == pin and r.random() < .6:
                        group.append(x)
                        rest.remove(x)
                items = items[:i + 1] + rest
                for l, _ in group:
                    out += l
                    if r.random() < .15:
                        out.append('')
                    if r.random() < .1:
                        out.append('%IN%' + r.choice((
                            '// IWYU pragma: begin_keep',
                            '// IWYU pragma: keep',
                            '// IWYU pragma: begin_exports',
                            '// IWYU pragma: no_include "um.h"')))
                out.append(style % ('end_' + w))
            elif pin is None and r.random() < .15:
                # A pragma comment on a line of its own pins nothing.
                c = r.choice(KEEP[:3] + EXPORT[:2])
                out += r.choice(([c] + lines, lines + [c]))
            else:
                out += lines
            i += 1
        return out

    def slot(self, t, e, inc, fwd, code, prag):
        r = self.r
        role = r.choice(('inc', 'inc', 'inc', 'inc', 'fwd', 'fwd', 'noinc',
                         'nofwd', 'plain'))
        u = 'u%d' % e.i
        sp = e.spelling
        if role == 'inc':
            pin = r.choice(('line', 'line', 'rkeep', 'rkeep', 'export',
                            'rexport', 'not', 'bad', None, None))
            used = r.choice(('full', 'ptr', 'no', 'no', 'no'))
            form = r.choice(('#include %s', '#include %s', '#include %s',
                             '#  include %s', ' #include\t%s',
                             '#include \\\n%s')) % sp
            if pin == 'line':
                form += r.choice((' ', '  ', '\t', '')) + r.choice(KEEP)
            elif pin == 'export':
                form += r.choice((' ', '  ', '\t')) + r.choice(EXPORT)
            elif pin == 'not':
                form += '  ' + r.choice(NOT)
            elif pin == 'bad':
                form += ' ' + r.choice(BAD)
            inc.append((form.split('\n'), pin))
            held = pin in ('line', 'rkeep', 'export', 'rexport')
            if used == 'full':
                code.append(e.full(u))
                t.need('must', sp, 'used')
            elif used == 'ptr':
                code.append(e.ptr(u))
            if t is self.assoc and (held or used == 'full' or e.always or
                                    e.keepopt) and r.random() < .5:
                self.share.append((e, 'always_keep' if e.always else
                                   '--keep' if e.keepopt else None))
            if held:
                t.need('must', sp, 'include ' + pin)
            elif e.always:
                t.need('must', sp, 'always_keep')
            elif e.keepopt:
                t.need('must', sp, '--keep')
            elif used == 'no' or used == 'ptr' and e.kind != 'enum':
                t.need('mustnot', sp, 'unpinned %s' % pin)
        elif role == 'fwd':
            pin = r.choice(('line', 'line', 'rkeep', 'rkeep', 'export',
                            'rexport', 'not', 'bad', None, None))
            used = r.random() < .25
            body = e.core
            if e.kind == 'tpl' and r.random() < .4:
                body = body.replace('> class', '>\nclass')
            if r.random() < .2:
                body = body.replace(' X', '\nX')
            if pin == 'line':
                body += r.choice((' ', '  ', '\t')) + r.choice(KEEP)
            elif pin == 'export':
                body += '  ' + r.choice(EXPORT)
            elif pin == 'not':
                body += '  ' + r.choice(NOT)
            elif pin == 'bad':
                body += ' ' + r.choice(BAD)
            ls = body.split('\n')
            for n in reversed(e.ns):
                ls = ['namespace %s {' % n] + ls + ['}']
            fwd.append((ls, pin))
            if used:
                code.append(e.ptr(u))
            if pin in ('line', 'rkeep', 'export', 'rexport'):
                t.need('fmust', e.fwd, 'declaration ' + pin)
            elif used:
                t.need('fmust', e.fwd, 'declaration used')
            elif not e.attr:
                t.need('fmustnot', e.fwd, 'unpinned declaration %s' % pin)
            t.need('mustnot', sp, 'not asked for')
        elif role == 'noinc':
            code.append(e.full(u))
            k = r.choice(('here', 'here', 'other', 'quotes', 'string',
                          'longer'))
            style = r.choice(('// IWYU pragma: no_include %s',
                              '/* IWYU pragma: no_include %s */',
                              '// IWYU pragma: no_include %s // why'))
            if k == 'here':
                prag.append(style % sp)
                t.need('mustnot', sp, 'no_include')
                if r.random() < .3 and not e.always and not e.keepopt:
                    inc.append((['#include ' + sp], None))
                return
            if k == 'other' and self.has_assoc and t is self.assoc:
                # Written in the source file, it does not bind the header.
                self.late = getattr(self, 'late', []) + [style % sp]
            elif k == 'quotes':
                q = '<%s>' if not e.system else '"%s"'
                prag.append(style % (q % e.path))
            elif k == 'string':
                prag.append('static_assert(sizeof(%s) > 1, "");' % (
                    '"// IWYU pragma: no_include <%s>"' % e.path))
            elif k == 'longer':
                q = '<%s>' if e.system else '"%s"'
                prag.append(style % (q % (e.path + 'h')))
                prag.append(style % (q % ('x/' + e.path)))
            t.need('must', sp, 'no_include ' + k)
        elif role == 'nofwd':
            if e.kind == 'enum':
                return
            code.append(e.ptr(u))
            k = r.choice(('here', 'here', 'short', 'longer', 'none'))
            style = r.choice(('// IWYU pragma: no_forward_declare %s',
                              '/* IWYU pragma: no_forward_declare %s */'))
            if k == 'here':
                prag.append(style % (r.choice(('', '', '::')) + e.qn))
                t.need('fmustnot', e.fwd, 'no_forward_declare')
                return
            if k == 'short' and e.ns:
                prag.append(style % e.name)
            elif k == 'longer':
                prag.append(style % (e.qn + '1'))
                prag.append(style % ('nz::' + e.qn))
            t.need('fmust', e.fwd, 'no_forward_declare ' + k)
            t.need('mustnot', sp, 'not asked for')
        else:
            t.need('mustnot', sp, 'not asked for')

    def tree(self):
        fs = dict(self.files)
        late = getattr(self, 'late', None)
        if late:
            fs['main.cc'] = fs['main.cc'].rstrip('\r\n') + '\n' + \
                '\n'.join(late) + '\n'
        return fs

    def command(self, binary):
        return [binary, '-nostdinc', '-std=c++17', '-I.', '-isystem', 'sys',
                '-Xiwyu', '--no_default_mappings'] + self.args + ['main.cc']


def judge(w, reports, text, say, count):
    reps = {r.filename: r for r in reports}
    for t in w.targets:
        rep = reps.get(t.path)
        if rep is None:
            say('report', 'no report for ' + t.path)
            continue
        src = w.tree()[t.path]
        if rep.correct:
            # What is in the file stays.
            gone, added, final, ffinal = set(), set(), None, None
        else:
            gone = {l.include or re.sub(r'\s+', ' ', l.code)
                    for l in rep.removes}
            added = {l.include or re.sub(r'\s+', ' ', l.code)
                     for l in rep.adds}
            final = set(rep.includes()) | {
                re.sub(r'\s+', ' ', c) for c in rep.fwds()}
        for kind in ('must', 'fmust', 'mustnot', 'fmustnot'):
            for x in sorted(getattr(t, kind)):
                has = (x in final) if final is not None else (
                    present(w, t, x, src))
                count(t.what[x])
                if kind.endswith('must') and (not has or x in gone):
                    if w.assoc and t is w.main and t.what[x] == 'used':
                        continue
                    say(t.what[x], '%s: %s is not kept (%s)' % (
                        t.path, x, t.what[x]))
                elif kind.endswith('mustnot') and has:
                    say(t.what[x], '%s: %s is listed (%s)' % (
                        t.path, x, t.what[x]))
    got = set()
    for m in re.finditer(r'^(?:\./)?([^:\s]+):(\d+)(?::\d+)?: warning: (.*)$',
                         text, re.M):
        if 'Extra tokens' in m.group(3):
            continue
        got.add((m.group(1), int(m.group(2))))
    want = set(w.warn)
    count('diagnosed', len(want & got))
    for x in sorted(want - got):
        say('undiagnosed', '%s:%d: no warning (%s)' % (x + (w.warn[x],)))
    for x in sorted(got - want):
        say('diagnosed', '%s:%d: unexpected warning' % x)


def present(w, t, x, src):
    s = re.sub(r'\s+', ' ', src.replace('\\\r\n', ' ').replace('\\\n', ' '))
    if x[0] in '"<':
        return '#include ' + x in s.replace('# include', '#include')
    e = next(e for e in w.ents if e.fwd == x)
    return e.core.replace('\n', ' ') in s
