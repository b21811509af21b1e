"""Whole-program generator with ground truth, and the judge of its reports."""
import os
import re

from . import core, gen, report

# (id, kind1, kind2, scope, text, need1, need2); q/q2 are the entities.
PAIRS = [
    ('pp_full', 'tpl', 'class', 'decl', '%(q)s<%(q2)s%(xa)s> v%(u)s;',
     'F', 'F'),
    ('pp_ptr', 'tpl', 'class', 'decl', '%(q)s<%(q2)s%(xa)s>* v%(u)s;',
     'D', 'D'),
    ('pp_ref', 'tpl', 'class', 'decl',
     'void f%(u)s(const %(q)s<%(q2)s%(xa)s>& p);', 'D', 'D'),
    ('pp_argptr', 'tpl', 'class', 'decl', '%(q)s<%(q2)s*%(xa)s> v%(u)s;',
     'F', 'D'),
    ('pp_tplptr', 'tplptr', 'class', 'decl', '%(q)s<%(q2)s%(xa)s> v%(u)s;',
     'F', 'D'),
    ('pp_base', 'tpl', 'class', 'decl',
     'struct D%(u)s : %(q)s<%(q2)s%(xa)s> {};', 'F', 'F'),
    ('pp_member', 'tpl', 'class', 'decl',
     'struct D%(u)s { %(q)s<%(q2)s%(xa)s> m; };', 'F', 'F'),
    ('pp_sizeof', 'tpl', 'class', 'decl',
     'int v%(u)s = sizeof(%(q)s<%(q2)s%(xa)s>);', 'F', 'F'),
    ('pp_call', 'tpl', 'class', 'decl',
     'int f%(u)s(%(q)s<%(q2)s%(xa)s>& p) { return p.x; }', 'F', 'F'),
    ('pp_ptrcall', 'tplptr', 'class', 'decl',
     'void* f%(u)s(%(q)s<%(q2)s%(xa)s>& p) { return p.ptr(); }', 'F', 'D'),
    ('pp_spec', 'tpl', 'class', 'decl', None, None, None),
    ('cc_sig', 'class', 'class', 'decl', '%(q)s* f%(u)s(const %(q2)s&);',
     'D', 'D'),
    ('cc_sig2', 'class', 'class', 'decl',
     '%(q)s f%(u)s(%(q2)s* p) { return %(q)s(p->field, 2); }', 'F', 'F'),
    ('cc_mem', 'class', 'class', 'decl',
     'struct D%(u)s : %(q)s { %(q2)s* p; };', 'F', 'D'),
    ('cc_bases', 'class', 'class', 'decl',
     'struct D%(u)s : %(q)s, private %(q2)s {};', 'F', 'F'),
    ('cc_expr', 'class', 'class', 'decl',
     'int f%(u)s(%(q)s& a, %(q2)s& b) { return a.field + b.method(2); }',
     'F', 'F'),
    ('cc_memptr', 'class', 'class', 'decl', '%(q)s* %(q2)s::* v%(u)s;',
     'D', 'D'),
    ('cc_fnptr', 'class', 'class', 'decl',
     '%(q)s* (*v%(u)s)(%(q2)s&, int);', 'D', 'D'),
    ('cc_recast', 'class', 'class', 'decl',
     'void f%(u)s(%(q)s* a) { (void)reinterpret_cast<%(q2)s*>(a); }',
     'D', 'D'),
    ('cc_cond', 'class', 'class', 'decl',
     'int f%(u)s(%(q)s* a, %(q2)s* b) { return a ? a->field : !b; }',
     'F', 'D'),
    ('ce_call', 'class', 'enum', 'decl',
     'int f%(u)s(const %(q)s& a) { return a.method(%(nsp2)sk%(n2)sA); }',
     'F', 'F'),
    ('cf_call', 'class', 'func', 'decl',
     'int f%(u)s(const %(q)s& a) { return %(q2)s(a.field); }', 'F', 'F'),
    ('cv_arr', 'class', 'macro', 'decl', '%(q)s v%(u)s[%(q2)s];', 'F', 'F'),
    ('cv_parr', 'class', 'macro', 'decl', '%(q)s* v%(u)s[%(q2)s];', 'D', 'F'),
    ('ct_arr', 'class', 'typedef', 'decl',
     '%(q2)s f%(u)s(%(q)s* p, %(q2)s q);', 'D', 'F'),
    ('fm_fn', 'fmacro', 'func', 'expr', '%(q)s(%(q2)s(2))', 'F', 'F'),
    ('fm_cls', 'fmacro', 'class', 'decl',
     'int f%(u)s(%(q2)s* p) { return %(q)s(p->field); }', 'F', 'F'),
    ('fm_sz', 'fmacro', 'class', 'decl',
     'int v%(u)s = %(q)s(sizeof(%(q2)s));', 'F', 'F'),
    ('fm_var', 'fmacro', 'var', 'expr', '%(q)s(%(q2)s)', 'F', 'F'),
    ('fm_mac', 'fmacro', 'macro', 'expr', '%(q)s(%(q2)s)', 'F', 'F'),
    ('mm_if', 'macro', 'macro', 'decl',
     '#if %(q)s > 1 && defined(%(q2)s)\nint v%(u)s;\n#endif', 'F', 'F'),
    ('ff_nest', 'func', 'func', 'expr', '%(q)s(%(q2)s(1))', 'F', 'F'),
    ('tf_cls', 'tfunc', 'class', 'decl',
     'int f%(u)s(%(q2)s* p) { return %(q)s(p); }', 'F', 'D'),
    ('tf_enum', 'tfunc', 'enum', 'decl',
     'int v%(u)s = %(q)s(%(nsp2)sk%(n2)sB);', 'F', 'F'),
    ('ov_enum', 'ovl', 'macro', 'expr', '%(q)s(%(q2)s, 1)', 'F', 'F'),
    ('at_cls', 'aliastpl', 'class', 'decl', '%(q)s<%(q2)s> v%(u)s;',
     'F', 'D'),
]
PAIRS = [p for p in PAIRS if p[4] is not None]

CXX_KINDS = ['class', 'class', 'class', 'class', 'agg', 'union', 'enum',
             'enumclass', 'enumfixed', 'typedef', 'func', 'tfunc', 'var',
             'macro', 'fmacro', 'tpl', 'tplptr', 'aliastpl', 'vartpl',
             'concept', 'anonenum', 'tdstruct', 'udl', 'usingfn', 'usingcls',
             'ovl']

WORDS = ['alpha', 'bravo', 'carbon', 'delta', 'ember', 'flint', 'gamma',
         'harbor', 'indigo', 'jasper', 'kilo', 'lunar', 'mango', 'nickel',
         'onyx', 'pebble', 'quartz', 'raven', 'sable', 'tango', 'umber',
         'velvet', 'willow', 'xenon', 'yarrow', 'zephyr']
DIRS = ['', '', 'lib/', 'lib/sub/', 'base/', 'base/internals/', 'x-y/']


# Declared in a header these ask for the definition (author intent).
HEADER_SKIP = {'ret_decl'}


class Header(object):
    def __init__(self, path, system=False):
        self.path = path           # as found below its search directory
        self.system = system
        self.ents = []

    @property
    def file(self):
        return ('sys/' if self.system else '') + self.path

    @property
    def spelling(self):
        return ('<%s>' if self.system else '"%s"') % self.path


class Opts(object):
    n_headers = (4, 10)
    n_uses = (3, 14)
    kinds = CXX_KINDS
    pair_rate = .25
    d_bias = None          # restrict needs: 'D' or 'F'
    system_rate = .15
    style = None           # 'umbrella', 'direct', 'mixed'
    fwd_rate = .35         # chance that existing forward declarations appear
    superfluous = (0, 4)
    dups = .25
    noise = True
    assoc = 0.0            # chance that uses live in an associated header
    std = '-std=c++20'
    cxx17ns = False
    layout_noise = True
    fixable = False        # only layouts the fixer reads
    lang = 'c++'
    only = None            # restrict to the snippet of this id

    def __init__(self, **kw):
        self.__dict__.update(kw)


class World(object):
    """A generated program.  files: path -> text; args: tool arguments.

    expect: {reported file: (set of include spellings, set of fwd decls)}
    """

    def __init__(self, r, opts=None):
        self.o = o = opts or Opts()
        self.r = r
        self.files = {}
        self.uses = []             # (ent, id, need)
        self.headers = []
        self.u = 0
        words = WORDS[:]
        r.shuffle(words)
        self.words = words
        self._make_headers()
        self._make_main()

    # -- headers ------------------------------------------------------------
    def _make_headers(self):
        r, o = self.r, self.o
        nss = [(), (), ('n1',), ('n1', 'inner'), ('zoo',), ('a', 'b', 'c')]
        if o.lang == 'c':
            nss = [()]
        n = r.randint(*o.n_headers)
        self.ents = []
        for i in range(n):
            sysh = r.random() < o.system_rate
            ext = r.choice(['.h', '.h', '.h', '.hpp', '.hh'])
            if o.lang == 'c':
                ext = '.h'
            h = Header(r.choice(DIRS) + self.words[i] + ext, sysh)
            for k in range(r.choice([1, 1, 1, 2, 3])):
                kind = r.choice(o.kinds)
                name = '%s%d' % (self.words[i].capitalize(), k)
                e = gen.make_ent(kind, name, r.choice(nss), r)
                e.header = h
                h.ents.append(e)
                self.ents.append(e)
            self.headers.append(h)
        for i, h in enumerate(self.headers):
            body = [gen.render(e, r) for e in h.ents]
            if o.noise:
                for _ in range(r.randint(0, 2)):
                    body.insert(r.randrange(len(body) + 1), self._noise(i))
            if o.layout_noise and r.random() < .5:
                body.insert(0, r.choice(
                    ['// %s\n' % h.path, '/* Copyright\n * blah */', '\n\n']))
            self.files[h.file] = self._guard(h.path, '\n'.join(body) + '\n')

    def _noise(self, i):
        self.u += 1
        if self.o.lang == 'c':
            return self.r.choice([
                'struct Noise%d { int x; };', 'extern int noise%d;',
                'typedef int Noise%d;', 'enum { kNoise%d };',
                'struct Noise%d;']) % self.u
        return self.r.choice([
            'struct Noise%d { int x; };', 'inline int noise%d() { return 1; }',
            'extern int noise%d;', 'typedef int Noise%d;',
            'namespace noise%d { class Q; }', 'enum { kNoise%d };',
            'template <class T> struct Noise%d {};']) % self.u

    def _guard(self, path, text):
        if self.r.random() < .3:
            return '#pragma once\n' + text
        g = re.sub(r'\W', '_', path).upper() + '_'
        return '#ifndef %s\n#define %s\n%s#endif  // %s\n' % (g, g, text, g)

    # -- uses ---------------------------------------------------------------
    def _wrap(self, scope, text):
        """Place a snippet in a random context."""
        r = self.r
        self.u += 1
        u = self.u
        o_c = self.o.lang == 'c'
        if scope == 'expr':
            t = r.choice([
                '(void)(%s);', '(void)(%s);', 'if (%s) {}', 'auto x = %s; '
                '(void)x;', 'while (%s) break;', '(void)!(%s);',
                '(void)(1, (%s));', 'for (; %s; ) break;',
                '(void)((%s) ? 1 : 2);', 'do {} while (!(%s));'])
            if o_c:
                t = t.replace('auto x', '__auto_type x').replace(
                    '__auto_type x = %s; (void)x;', '(void)(%s);')
            text, scope = t % text, 'stmt'
        if scope == 'stmt' and o_c:
            return r.choice([
                'void fn%d(void) { %s }',
                'void fn%d(void) { if (1) { %s } }',
                'static void fn%d(void) { while (0) { %s } }',
                'int fn%d(int i) { switch (i) { default: { %s } } return 1; }'
            ]) % (u, text)
        if scope == 'stmt':
            t = r.choice([
                'void fn%d() { %s }', 'void fn%d() { %s }',
                'struct S%d { void m() { %s } };',
                'struct S%d { S%d_CTOR { %s } };',
                'void fn%d() { if (true) { %s } }',
                'void fn%d() { { { %s } } }',
                'template <typename T> void fn%d() { %s }',
                'void fn%d() { auto l = [] { %s }; l(); }',
                'namespace nf%d { static void f() { %s } }',
                'struct S%d { struct In { void m() { %s } }; };',
                'template <class T> struct S%d { void m() { %s } };',
                'inline int fn%d() { for (;;) { %s break; } return 1; }',
                'void fn%d() { switch (1) { default: { %s } } }',
                'int fn%d() try { %s return 1; } catch (...) { return 2; }'])
            if 'CTOR' in t:
                return 'struct S%d { S%d() { %s } };' % (u, u, text)
            return t % (u, text)
        if '\n#' in text or text.startswith('#'):
            return text
        k = r.random()
        if k < .55 or o_c and (k < .78 or .84 <= k < .95):
            return text
        if k < .7:
            return 'namespace w%d {\n%s\n}' % (u, text)
        if k < .78:
            return 'namespace {\n%s\n}' % text
        if k < .84:
            return '#if 1\n%s\n#endif' % text
        if k < .9:
            return 'extern "C++" {\n%s\n}' % text
        if k < .95:
            return 'namespace w%d { namespace v {\n%s\n} }' % (u, text)
        return '#ifndef NOT_DEFINED_%d\n%s\n#else\nsyntax error\n#endif' % (
            u, text)

    def _gen_use(self, live):
        """Return (text, [(ent, id, need)])."""
        r, o = self.r, self.o
        for _ in range(50):
            self.u += 1
            if r.random() < o.pair_rate:
                p = r.choice(PAIRS)
                if o.d_bias == 'D' and 'F' in p[5:7]:
                    continue
                c1 = [e for e in live if e.kind == p[1]]
                c2 = [e for e in live if e.kind == p[2]]
                if not c1 or not c2:
                    continue
                e1, e2 = r.choice(c1), r.choice(c2)
                if e1 is e2:
                    continue
                xa = gen.xargs(e1)
                text = p[4] % {
                    'q': self.qual(e1), 'q2': self.qual(e2), 'u': self.u,
                    'xa': xa, 'n2': e2.name,
                    'nsp2': ''.join(x + '::' for x in e2.ns)}
                return self._wrap(p[3], text), [(e1, p[0], p[5]),
                                                (e2, p[0], p[6])]
            e = r.choice(live)
            cand = [x for x in gen.USES[e.kind]
                    if (o.d_bias is None or x[3] == o.d_bias) and
                    (o.only is None or x[0] == o.only) and
                    not (self.assoc and x[0] in HEADER_SKIP)]
            if not cand:
                continue
            use = r.choice(cand)
            text = gen.use_text(e, use, self.u)
            return self._wrap(use[1], text), [(e, use[0], use[3])]
        return None, []

    def qual(self, e):
        return e.qn

    # -- main ---------------------------------------------------------------
    def _make_main(self):
        r, o = self.r, self.o
        style = o.style or r.choice(['umbrella', 'direct', 'mixed', 'mixed'])
        self.style = style
        n_use = r.randint(*o.n_uses)
        live = r.sample(self.ents, r.randint(1, len(self.ents)))
        body, self.uses = [], []
        assoc = r.random() < o.assoc
        self.assoc = assoc
        for _ in range(n_use):
            t, us = self._gen_use(live)
            if t:
                body.append(t)
                self.uses += us
        self.main = 'prog/main.cc' if r.random() < .3 else 'main.cc'
        if o.lang == 'c':
            self.main = self.main[:-2] + 'c'
        target = self.main
        if assoc:
            target = os.path.splitext(self.main)[0] + '.h'
        self.target = target
        need_f = {e for e, _, n in self.uses if n == 'F'}
        used_hdrs = {e.header for e, _, _ in self.uses}
        # How the declarations get into scope.
        incs = []
        if style == 'direct':
            incs = [h for h in used_hdrs]
        elif style == 'mixed':
            incs = [h for h in self.headers if r.random() < .5]
        incs.sort(key=lambda h: h.path)
        missing = [h for h in self.headers
                   if h in used_hdrs and h not in incs]
        unused = [h for h in self.headers if h not in used_hdrs]
        extra = r.randint(*o.superfluous)
        for h in r.sample(unused, min(extra, len(unused))):
            if h not in incs:
                incs.append(h)
        r.shuffle(incs)
        self.umbrellas = []
        inc_lines = [h.spelling for h in incs]
        present = list(inc_lines)
        if missing:
            # One or two umbrella headers, possibly nested, carry the rest.
            groups = [missing]
            if len(missing) > 2 and r.random() < .5:
                k = r.randint(1, len(missing) - 1)
                groups = [missing[:k], missing[k:]]
            for gi, g in enumerate(groups):
                name = r.choice(['all%d.h', 'agg/every%d.h']) % gi
                text = ''.join('#include %s\n' % h.spelling for h in g)
                if r.random() < .3:
                    self.files['deep%d.h' % gi] = '#pragma once\n' + text
                    text = '#include "deep%d.h"\n' % gi
                self.files[name] = self._guard(name, text)
                self.umbrellas.append(name)
                present.append('"%s"' % name)
        if o.dups and present and r.random() < o.dups:
            present.append(r.choice(present))
        r.shuffle(present)
        # Existing forward declarations.
        fwds = []
        if r.random() < o.fwd_rate:
            weak = {e for e, i, n in self.uses
                    if i in ('typedef', 'using', 'typedef_ptr', 'using_ptr',
                             'typedef_ref', 'ttypedef', 'fn_ptr_val',
                             'tpl_default', 'p_typedef')}
            cand = [e for e in self.ents if e.kind in gen.FWD_KINDS and
                    e not in weak]
            for e in r.sample(cand, min(len(cand), r.randint(1, 4))):
                fwds.append(e)
        self.present_incs, self.present_fwds = present, fwds
        self.body = body
        text = self._layout(present, fwds)
        self.head = text
        guard = None
        mid = '\n'.join(body) + '\n'
        full = text + '\n' + mid
        if assoc:
            self.files[target] = '#ifndef MAIN_H_\n#define MAIN_H_\n%s#endif\n' \
                % full
            pre = 'prog/' if self.main.startswith('prog/') else ''
            self.files[self.main] = '#include "%s"\nint main_(void) ' \
                '{ return 0; }\n' % (pre + 'main.h')
        else:
            self.files[target] = full
        # Ground truth.
        inc = {e.header.spelling for e in need_f}
        fwd = {e.fwd(o.cxx17ns) for e, _, n in self.uses
               if n == 'D' and e.header.spelling not in inc}
        self.inc_truth, self.fwd_truth = inc, fwd
        self.args = [o.std, '-I.', '-isystem', 'sys']
        if o.cxx17ns:
            self.args += ['-Xiwyu', '--cxx17ns']

    def _layout(self, present, fwds):
        r, o = self.r, self.o
        lines = []
        if o.layout_noise and r.random() < .3:
            lines.append(r.choice(['// Main file.', '/* Multi\n   line */',
                                   '']))
        for s in present:
            k = r.random() if o.layout_noise else 1
            if k < .08:
                lines.append('#include  %s' % s)
            elif k < .16:
                lines.append('# include %s  // why not' % s)
            elif k < .22:
                lines.append('#if 1\n#include %s\n#endif' % s)
            elif k < .27:
                lines.append('  #include %s /* c */' % s)
            elif k < .32 and not o.fixable:
                lines.append(r.choice(['#include \\\n  %s', '#include \\\n%s',
                                       '# \\\n include\\\n%s  // c', '#include%s',
                                       '/* c */ #include %s',
                                       '#include /*\n*/ %s']) % s)
            else:
                lines.append('#include %s' % s)
            if o.layout_noise and r.random() < .15:
                lines.append(r.choice(['', '// comment', '']))
        if fwds:
            lines.append('')
        for e in fwds:
            t = e.fwd(False)
            k = r.random() if o.layout_noise else 1
            if e.ns and k < .5:
                t = '\n'.join(['namespace %s {' % n for n in e.ns] +
                              [e.fwd_core] + ['}' for n in e.ns])
            elif k < .6:
                t = re.sub(r';', ';  // fwd', t, 1) if '}' not in t else t
            lines.append(t)
        return '\n'.join(lines) + '\n'

    def signature(self):
        return (sorted({(e.kind, i) for e, i, _ in self.uses}), self.style,
                len(self.present_incs), len(self.present_fwds), self.assoc)

    def write(self, d):
        core.write_tree(d, self.files)


class Outcome(object):
    """One analysis of a world."""


def analyse(binary, w, extra=(), d=None, timeout=60):
    if d is None:
        d = core.newdir('w')
        w.write(d)
    o = Outcome()
    o.dir = d
    o.cmd = [binary] + list(extra) + w.args + [w.main]
    o.res = core.run(o.cmd, cwd=d, timeout=timeout)
    o.reports, o.error = None, None
    if o.res.timeout:
        o.error = 'timeout'
        return o
    try:
        o.reports = report.parse(o.res.text)
    except report.ParseError as e:
        o.error = 'unparsable: %s' % e
    if o.res.rc != 0:
        o.error = 'exit %s: %s' % (o.res.rc, o.res.text[-400:])
    return o


def judge(w, o):
    """Compare the report with the truth: list of (category, text).

    Categories: broken, inc_missing (nothing covers the use), inc_fwdonly (a
    declaration is offered where the definition is needed), inc_unused,
    inc_declonly (header demanded though a declaration suffices), fwd_missing,
    fwd_redundant, fwd_unused, dup, scope.
    """
    bad = []
    if o.error:
        return [('broken', o.error)]
    want = [w.main] + ([w.target] if w.assoc else [])
    got = [r.filename for r in o.reports]
    if sorted(want) != sorted(got):
        bad.append(('scope', 'reports for %s instead of %s' % (got, want)))
    for rep in o.reports:
        if w.assoc and rep.filename == w.main:
            if not rep.correct:
                bad.append(('scope', 'main file of associated header: %s' %
                            [l.raw for l in rep.adds + rep.removes]))
            continue
        if rep.filename != w.target:
            continue
        if rep.correct:
            incs = list(w.present_incs)
            fwds = [e.fwd(w.o.cxx17ns) for e in w.present_fwds]
        else:
            incs = rep.includes()
            fwds = [report.norm_fwd(c) for c in rep.fwds()]
        d_hdr = {}
        for e, i, n in w.uses:
            d_hdr.setdefault(e.header.spelling, []).append((e, i, n))
        for s in sorted(w.inc_truth - set(incs)):
            us = [(e, i) for e, i, n in d_hdr[s] if n == 'F']
            fw = any(e.fwd(w.o.cxx17ns) in fwds for e, _ in us
                     if e.kind in gen.FWD_KINDS)
            bad.append(('inc_fwdonly' if fw else 'inc_missing',
                        '%s needed for %s' % (s, [(e.qn, e.kind, i)
                                                  for e, i in us][:4])))
        for s in sorted(set(incs) - w.inc_truth):
            us = d_hdr.get(s)
            if us:
                bad.append(('inc_declonly', '%s demanded only for %s' % (
                    s, [(e.qn, e.kind, i) for e, i, _ in us][:4])))
            else:
                bad.append(('inc_unused', '%s provides nothing used' % s))
        for s in sorted(w.fwd_truth - set(fwds)):
            us = [(e.qn, e.kind, i) for e, i, n in w.uses
                  if e.kind in gen.FWD_KINDS and e.fwd(w.o.cxx17ns) == s]
            if any(e.fwd(w.o.cxx17ns) == s and e.header.spelling in incs
                   for e, _, n in w.uses if e.kind in gen.FWD_KINDS):
                continue            # covered by a header; judged above
            bad.append(('fwd_missing', '%s needed for %s' % (s, us[:4])))
        for s in sorted(set(fwds) - w.fwd_truth):
            us = [e for e, _, _ in w.uses if e.kind in gen.FWD_KINDS and
                  e.fwd(w.o.cxx17ns) == s]
            if us:
                if us[0].header.spelling in incs:
                    bad.append(('fwd_redundant', '%s although %s stays' % (
                        s, us[0].header.spelling)))
                continue            # reported as inc_fwdonly above
            bad.append(('fwd_unused', '%s declares nothing used' % s))
        if not rep.correct:
            if len(set(incs)) != len(incs):
                bad.append(('dup', 'duplicate includes in %s' % incs))
            if len(set(fwds)) != len(fwds):
                bad.append(('dup', 'duplicate declarations in %s' % fwds))
        else:
            if len(set(incs)) != len(incs) or len(set(fwds)) != len(fwds):
                bad.append(('dup', 'duplicates left: %s %s' % (incs, fwds)))
    return bad
