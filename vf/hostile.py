"""Hostile inputs: odd programs, damaged text, odd directives and options."""
import os
import re

from . import core, corpus, gen, pragworld, world

WHERE = os.path.join(core.VERIF, 'vf/data/odd.txt')
FLAGS = {'cxx': [], 'c': ['-x', 'c'],
         'blocks': ['-x', 'c', '-fblocks'], 'omp': ['-x', 'c', '-fopenmp'],
         'ms': ['-fms-extensions', '-fdeclspec', '-x', 'c++']}
STD = {'cxx': ['-std=c++20', '-std=gnu++20', '-std=c++23', '-std=c++2c',
               '-std=c++17', '-std=c++14', '-std=c++98'],
       'c': ['-std=c11', '-std=gnu17', '-std=c23', '-std=c89', '-std=gnu89'],
       'blocks': ['-std=gnu11'], 'omp': ['-std=c11'],
       'ms': ['-std=c++17']}


def snippets():
    res = []
    for part in open(WHERE, encoding='utf-8').read().split('%% ')[1:]:
        lang, rest = part.split('\n', 1)
        head, main = rest.split('\n--\n', 1)
        res.append((lang, head, main.rstrip('\n')))
    return res


SNIPS = snippets()


# -- whole programs ----------------------------------------------------------
def odd_program(r):
    """Odd but mostly valid constructs spread over files."""
    lang = r.choice(['cxx'] * 8 + ['c'] * 3 + sorted(FLAGS))
    pool = [s for s in SNIPS if s[0] == lang]
    ext = {'cxx': '.cc', 'ms': '.cpp'}.get(lang, '.c')
    n = r.randint(1, 6)
    heads = ['h%d%s' % (i, r.choice(['.h', '.h', '.hpp', '', '.inc', '-inl.h',
                                     '.tcc']))
             for i in range(r.randint(1, 4))]
    body = {h: [] for h in heads}
    main, fwd = [], []
    for i in range(n):
        _, a, b = r.choice(pool)
        k = str(i) + r.choice(['', 'x', '_long_suffix'])
        a, b = (re.sub(r'(?<=\w)@', k, s) for s in (a, b))
        where = r.random() * .7 if r.random() < .5 else r.random()
        if where < .7:
            body[r.choice(heads)].append(a)
            main.append(b)
        elif where < .85:
            main += [a, b]
        else:
            h = r.choice(heads)
            body[h] += [a, b]
        for m in re.findall(r'^(?:struct|class) (\w+)', a)[:1]:
            if r.random() < .3:
                fwd.append('struct %s;' % m)
    files = {}
    for i, h in enumerate(heads):
        t = body[h]
        if i and r.random() < .3:
            t = ['#include "%s"' % heads[i - 1]] + t
        if r.random() < .95:
            t = ['#pragma once'] + t if r.random() < .5 else \
                ['#ifndef G%d' % i, '#define G%d' % i] + t + ['#endif']
        files[h] = '\n'.join(t) + '\n'
    incs = ['#include "%s"' % h for h in heads]
    if r.random() < .4:
        files['main.h'] = '#pragma once\n' + '\n'.join(
            ['#include "%s"' % h for h in heads if r.random() < .5] + fwd) \
            + '\n'
        incs.insert(0, '#include "main.h"')
    if r.random() < .1:
        r.shuffle(main)
    if r.random() < .15:
        main = ['#define WRAP(...) __VA_ARGS__'] + [
            'WRAP(%s)' % m if '#' not in m and '\n' not in m else m
            for m in main]
    if r.random() < .1 and lang in ('cxx', 'ms'):
        main = ['namespace wrapped {'] + main + ['}']
    files['main' + ext] = '\n'.join(incs + fwd + main) + '\n'
    std = STD[lang]
    args = (FLAGS[lang] if ext not in ('.cc', '.c') or lang not in (
        'cxx', 'c') else []) + ([r.choice(std[:3] if r.random() < .8
                                          else std)] if std else [])
    return files, args, 'main' + ext


def world_program(r):
    isc = r.random() < .25
    w = world.World(r, world.Opts(
        lang='c' if isc else 'c++', std='-std=c11' if isc else '-std=c++20',
        kinds=gen.C_KINDS if isc else None) if isc else world.Opts())
    return dict(w.files), list(w.args), w.main


def prag_program(r):
    w = pragworld.World(r)
    cmd = w.command('x')[1:]
    main = [a for a in cmd if re.match(r'[\w./-]+\.(cc|c|cpp)$', a)]
    if not main:
        return odd_program(r)
    cmd.remove(main[-1])
    return w.tree(), cmd, main[-1]


_corpus = {}


def load(f, binary):
    """(arguments, files) of an annotated program and what it reads."""
    if f not in _corpus:
        args = corpus.util(binary)._GetLaunchArguments(f)
        d = os.path.dirname(f)
        plain, skip = [], False
        for a in args:
            if not skip and a != '-Xiwyu':
                plain.append(a)
            skip = a == '-Xiwyu'
        tmp = core.newdir('mm')      # whatever is written is written here
        os.symlink(os.path.join(core.REPO, 'tests'),
                   os.path.join(tmp, 'tests'))
        res = core.run([core.CLANG, '-MM', '-MG'] + plain + [f, '-o', '-'],
                       cwd=tmp)
        os.unlink(os.path.join(tmp, 'tests'))
        core.rmtree(tmp)
        used = set(re.findall(r'[^\s\\:]+', res.out.split(':', 1)[-1]))
        stem = os.path.basename(f).rsplit('.', 1)[0]
        for x in os.listdir(os.path.join(core.REPO, d)):
            if x.endswith('.imp') or re.match(re.escape(stem) + r'[-_.]', x):
                used.add(os.path.join(d, x))
        files = {}
        for x in used | {f}:
            q = os.path.join(core.REPO, x)
            if not x.startswith('/') and os.path.isfile(q):
                files[os.path.normpath(x)] = open(q, 'rb').read().decode(
                    'latin-1')
        _corpus[f] = (args, files)
    return _corpus[f]


def warm(binary):
    core.pmap(lambda f: load(f, binary), corpus.programs())


def corpus_program(r, binary):
    f = r.choice(corpus.programs())
    args, files = load(f, binary)
    return dict(files), list(args), f


# -- damage --------------------------------------------------------------------
TOK = re.compile(r'\s+|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|'
                 r'\w+|::|->|<<|>>|&&|\|\||[^\w\s]')


def kind_of(t):
    if not t or t.isspace():
        return 's'
    if t[0].isalpha() or t[0] == '_':
        return 'i'
    if t[0].isdigit():
        return 'n'
    return 'p' if t in '*&' else t[0]


def damage_tokens(r, text, much):
    toks = TOK.findall(text)
    real = [i for i, t in enumerate(toks) if not t.isspace()]
    if len(real) < 4:
        return text
    for _ in range(r.randint(1, much)):
        i = r.choice(real)
        how = r.random()
        if how < .7:
            same = [j for j in real if kind_of(toks[j]) == kind_of(toks[i])]
            toks[i] = toks[r.choice(same)]
        elif how < .75:
            toks[i] = ''
        elif how < .8:
            toks[i] = toks[i] + ' ' + toks[r.choice(real)]
        elif how < .85:
            j = r.choice(real)
            toks[i], toks[j] = toks[j], toks[i]
        elif how < .9:
            j = min(len(toks), i + r.randint(1, 30))
            k = r.choice(real)
            toks[k] += ' ' + ' '.join(toks[i:j])
        else:
            toks[i] = r.choice([
                'auto', 'const', 'typename', 'template', 'struct', 'class',
                'enum', 'using', 'typedef', 'friend', 'static', 'inline',
                'virtual', 'sizeof', 'decltype', 'operator', 'namespace',
                'extern "C"', 'void', 'int', '0', '()', '{}', '<>', '...',
                '::', '*', '&', '&&', ';', ',', '->', '.', '[[x]]', 'this',
                'nullptr', '"s"', "'c'", '1.0', 'requires', 'concept'])
    return ''.join(toks)


def damage_lines(r, text):
    ls = text.split('\n')
    for _ in range(r.randint(1, 4)):
        i = r.randrange(len(ls))
        how = r.random()
        if how < .25:
            del ls[i]
            ls = ls or ['']
        elif how < .5:
            ls.insert(r.randrange(len(ls) + 1), ls[i])
        elif how < .75:
            x = ls.pop(i)
            ls.insert(r.randrange(len(ls) + 1), x)
        else:
            ls[i] = ls[i] + r.choice([' \\', ' \\\n', '??/', ' /* */', '//',
                                      ' /*', '*/', '\r', '\0', '\x0c',
                                      '\x1a', ' \\ '])
    return '\n'.join(ls)


WORDS = ['keep', 'export', 'private', 'begin_keep', 'end_keep',
         'begin_exports', 'end_exports', 'no_include', 'friend', 'associated',
         'always_keep', 'no_forward_declare', 'private,', 'include', '"x.h"',
         '<x.h>', 'h0.h', '"h0.h"', '"main.h"', '"', '<', '>', ',', ';', '.*',
         '*', '[', '(', '\\', 'ns::X', '::', '""', '<>', ':', 'f.cc', '"*.h"',
         '"(.h"', 'é', '\t', '']


def pragma(r):
    lead = r.choice(['// IWYU pragma: ', '// IWYU pragma:', '//IWYU pragma: ',
                     '/* IWYU pragma: ', '// IWYU  pragma: ', '// iwyu pragma: ',
                     '// IWYU pragma ', '// IWYU pragma: keep // IWYU pragma: ',
                     '/* IWYU pragma: '])
    text = lead + ' '.join(r.choice(WORDS) for _ in range(r.randint(0, 4)))
    return text + ' */' if lead.startswith('/*') and r.random() < .9 else text


def mild_directive(r, names):
    """A line that rarely stops the compiler."""
    n = r.choice(names)
    k = r.randint(0, 99)
    return r.choice([
        '#include "%s"' % n, '#include "./%s"' % n, '#import "%s"' % n,
        '#include "%s"  %s' % (n, pragma(r)), pragma(r), pragma(r),
        pragma(r), '#define INC%d "%s"\n#include INC%d' % (k, n, k),
        '#if __has_include("%s")\n#endif' % n, '#line %d' % k,
        '#line 3 "%s"' % n, '# 1 "%s" 1' % n, '# 9 "%s" 2' % n,
        '#pragma once', '#pragma GCC system_header',
        '#pragma push_macro("M")', '#ident "x"', '#warning "w"', '#',
        '#define X%d(...) __VA_ARGS__' % k, '#undef X%d' % k,
        '#define M%d M%d' % (k, k), '#ifdef X%d\n#endif' % k,
        '#if 0\n#include "%s"\n#elif !defined X%d\n#endif' % (n, k),
        'struct Fw%d;' % k, 'class Fw%d; class Fw%d;' % (k, k),
        'namespace fw { struct Fw%d; }' % k, 'enum Fe%d : int;' % k,
        'template <class T> struct Ft%d;' % k, ';', 'int ctr%d;' % k,
        '#include <stddef.h>', '#include <stdio.h>', '#include <vector>',
        '// @headername{x.h}', '/// @headername{x.h, y.h}',
        '/** @file\n * @headername{%s}\n */' % n, '//! @headername{',
        '#if __COUNTER__ < 3\n#include "%s"\n#endif' % n,
        'namespace { struct Fw%d; }' % k, 'extern "C" { struct Fc%d; }' % k,
        '/* \\\n */', '// \\', '#define Y%d(x) #x\n' % k])


def directive(r, names):
    if r.random() < .7:
        return mild_directive(r, names)
    n = r.choice(names)
    return r.choice([
        '#include "%s"' % n, '#include <%s>' % n, '#import "%s"' % n,
        '#include_next "%s"' % n, '#include_next <%s>' % n,
        '#define INC "%s"\n#include INC' % n,
        '#define INC(x) <x>\n#include INC(%s)' % n,
        '#define STR(x) #x\n#include STR(%s)' % n,
        '#define EAT(...)\nEAT(\n#include "%s"\n)' % n,
        '#include "%s" // trailing' % n, '#include "%s" junk' % n,
        '#include /* c */ "%s"' % n, '#include \\\n"%s"' % n,
        '%%:include "%s"' % n, '??=include "%s"' % n,
        '# include"%s"' % n, '#include "%s" ' % n, '#include "./%s"' % n,
        '#include "sub/../%s"' % n, '#include ".//%s"' % n,
        '#include ""', '#include <>', '#include', '#include x', '#include "',
        '#include "no/such.h"', '#include "."', '#include "/"',
        '#include "' + 'a/' * r.randint(1, 300) + 'b.h"',
        '#if __has_include("%s")\n#endif' % n,
        '#if __has_include_next("%s")\n#endif' % n,
        '#if __has_include(<%s>) && __has_include("x")\n#endif' % n,
        '#line %d' % r.choice([0, 1, 7, 2147483647]),
        '#line 3 "%s"' % n, '# 1 "%s"' % n, '# 1 "%s" 1 3' % n,
        '# 9 "%s" 2' % n, '#line 5 ""', '#line 5 "no.h"',
        '#pragma once', '_Pragma("once")', '#pragma GCC system_header',
        '#pragma GCC poison zork', '#pragma include_alias("a.h", "%s")' % n,
        '#pragma push_macro("M")', '#pragma pop_macro("M")',
        '#pragma clang module import x', '#ident "x"', '#sccs "x"',
        '#embed "%s"' % n, '#warning "w"', '#', '##', '#unknown x',
        '#define', '#define X(', '#define X(a,a) a', '#define X(...) __VA_ARGS__',
        '#define defined', '#define __FILE__ 1', '#undef __FILE__',
        '#undef X', '#undef', '#define include x', '#define class struct',
        '#define M M', '#define F(x) F(F(x))\nint fx = F(1);',
        '#define G() G\nint gx = sizeof(int) G()()();',
        '#if X\n#elif Y\n#else\n#endif', '#ifdef\n#endif', '#ifndef X',
        '#endif', '#else', '#elif 1', '#if 0', '#if 1/0\n#endif',
        '#if defined(X) || defined Y || X(1)\n#endif', '#elifdef X',
        '#if __COUNTER__ < 3\n#include "%s"\n#endif' % n,
        '#if __INCLUDE_LEVEL__ < 6\n#include __FILE__\n#endif',
        '#include __FILE__', 'int counter%d = __COUNTER__;' % r.randint(0, 9),
        'const char* b%d = __BASE_FILE__ __TIMESTAMP__;' % r.randint(0, 9),
        'struct In%d {\n#include "%s"\n};' % (r.randint(0, 9), n),
        'namespace q {\n#include "%s"\n}' % n,
        'extern "C" {\n#include "%s"\n}' % n,
        'enum {\n#include "%s"\n};' % n,
        'int af[] = {\n#include "%s"\n};' % n,
        'void fi%d() {\n#include "%s"\n}' % (r.randint(0, 9), n),
        'import "%s";' % n, 'module;', 'export module m;', 'import <%s>;' % n,
        '#pragma omp parallel', '#include <stddef.h>', '#include <stdio.h>',
        '// @headername{x.h}', '/// @headername{x.h, y.h}',
        '/** @file\n * @headername{%s}\n */' % n, '//! @headername{',
        '#include "%s"  %s' % (n, pragma(r)), pragma(r), pragma(r), pragma(r)])


def damage_files(r, files, main):
    names = sorted(files)
    for _ in range(r.choice([1, 1, 2, 3])):
        p = main if r.random() < .5 else r.choice(names)
        t, how = files[p], r.random()
        if how < .3:
            t = damage_tokens(r, t, r.choice([1, 1, 2, 4]))
        elif how < .42:
            t = damage_lines(r, t)
        elif how < .85:
            ls = t.split('\n')
            for _ in range(r.randint(1, 4)):
                at = r.randrange(len(ls) + 1)
                if r.random() < .4:
                    at = min(at, 3)
                ls.insert(at, directive(r, names))
            t = '\n'.join(ls)
        elif how < .88:
            t = t[:r.randrange(len(t) + 1)]
        elif how < .91:
            i = r.randrange(len(t) + 1)
            t = t[:i] + ''.join(chr(r.randrange(256))
                                for _ in range(r.randint(1, 9))) + t[i:]
        elif how < .93:
            t = t.replace('\n', r.choice(['\r\n', '\r', '\n\n', '\\\n\n']))
        elif how < .95:
            t = '\xef\xbb\xbf' + t
        elif how < .96:
            t = t.rstrip('\n')
        elif how < .97:
            t = ''
        elif how < .975:
            t = t + '\n' + files[r.choice(names)]
        else:
            t = '\n' + t
        files[p] = t
    return files


# -- options ---------------------------------------------------------------------
def plain_options(r, names):
    """Options the tool accepts."""
    n = r.choice(names)
    glob = r.choice(['*', '*.h', n, './' + n, '[!a]*', '?*', '**', '*/' + n,
                     'h*', 'é', os.path.dirname(n) + '/*'])
    return r.choice([
        ['--verbose=%d' % r.randint(0, 12)],
        ['--max_line_length=%d' % r.choice([0, 1, 9, 20, 40, 200, 99999])],
        ['--check_also=' + glob], ['--check_also=' + glob],
        ['--check_also=*'], ['--keep=' + glob], ['--pch_in_code'],
        ['--no_comments'], ['--update_comments'], ['--no_fwd_decls'],
        ['--quoted_includes_first'], ['--cxx17ns'],
        ['--transitive_includes_only'],
        ['--prefix_header_includes=' + r.choice(['add', 'keep', 'remove'])],
        ['--comment_style=' + r.choice(['none', 'short', 'long'])],
        ['--error=3'], ['--error_always'], ['--no_default_mappings'],
        ['--mapping_file=map.imp'], ['--mapping_file=map2.imp'],
        ['--no_internal_mappings'] if r.random() < .1 else ['--error=0'],
        ['--regex=' + r.choice(['llvm', 'ecmascript'])],
        ['--experimental=clang_mappings'],
        ['--debug=' + r.choice(['a', 'a,b'])]])


def iwyu_options(r, names):
    if r.random() < .85:
        return plain_options(r, names)
    n = r.choice(names)
    num = r.choice(['0', '1', '3', '5', '9', '99', '-1', '-99', 'x', '', '1e3',
                    '99999999999999999999', '80', '20', '2147483648'])
    glob = r.choice(['*', '*.h', n, './' + n, '[', '[!a]', '?', '**', '\\',
                     '', '/', '*/' + n, '[a-', '{a,b}', 'é'])
    return r.choice([
        ['--verbose=%s' % r.choice(['1', '2', '3', '4', '5', '7', '9', '99'])],
        ['--verbose=' + num], ['-v', num], ['-v' + num],
        ['--max_line_length=' + num], ['--max_line_length', num],
        ['--check_also=' + glob], ['--check_also=' + glob],
        ['--keep=' + glob], ['--keep=' + glob],
        ['--check_also=*'],
        ['--pch_in_code'], ['--no_comments'], ['--update_comments'],
        ['--no_fwd_decls'], ['--quoted_includes_first'], ['--cxx17ns'],
        ['--transitive_includes_only'],
        ['--prefix_header_includes=' + r.choice(['add', 'keep', 'remove',
                                                 'x', ''])],
        ['--comment_style=' + r.choice(['none', 'short', 'long', 'x', ''])],
        ['--error'], ['--error=' + num], ['--error_always'],
        ['--error_always=' + num],
        ['--no_default_mappings'], ['--mapping_file=map.imp'],
        ['--mapping_file=map.imp'], ['--mapping_file=map.imp'],
        ['--mapping_file=' + n], ['--mapping_file=nope'], ['--mapping_file=.'],
        ['--mapping_file='],
        ['--no_internal_mappings'],
        ['--regex=' + r.choice(['llvm', 'ecmascript', 'x', ''])],
        ['--experimental=' + r.choice(['clang_mappings', 'clang_mappings',
                                       'x', '', ',', 'clang_mappings,x'])],
        ['--debug=' + r.choice(['a', '', 'a,b', ',', 'x' * 300])],
        ['--'], ['-'], ['--help'], ['--version'], ['--bogus'], ['-z'],
        ['--ver'], ['--no_'], ['--keep'], ['-x', 'c'], [n]])


def clang_options(r, names):
    n = r.choice(names)
    return r.choice([
        ['-include', n], ['-include', n], ['-imacros', n], ['-I.'],
        ['-I', 'nope'],
        ['-isystem', '.'], ['-iquote', '.'], ['-idirafter', '.'],
        ['-DWRAP=1'], ['-DX'], ['-UX'], ['-D__FILE__=1'], ['-w'], ['-Wall'],
        ['-Weverything'], ['-Werror'], ['-fno-exceptions'], ['-fno-rtti'],
        ['-fdelayed-template-parsing'], ['-fms-compatibility'], ['-fborland-extensions'],
        ['-fno-builtin'], ['-ffreestanding'], ['-fmodules'], ['-O2'], ['-g'],
        ['-pthread'], ['-ftrigraphs'], ['-traditional-cpp'],
        ['-fparse-all-comments'], ['-Wdocumentation'], ['-fsyntax-only'],
        ['-std=c++11'], ['-std=c++20'], ['-std=c99'], ['-x', 'c++'],
        ['-x', 'c'], ['-x', 'c++-header'], ['-x', 'c-header'],
        ['-m32'], ['--target=x86_64-pc-windows-msvc'],
        ['--target=aarch64-linux-gnu'], ['-nostdinc'], ['-nostdinc++'],
        ['-undef'], ['-P'], ['-C'], ['-CC'], ['-H'], ['-v'], ['-###'],
        ['-E'], ['-M'], ['-MM'], ['-MD', '-MF', 'dep.d'], ['-save-temps'],
        ['-fno-color-diagnostics'], ['-fcolor-diagnostics'],
        ['-ferror-limit=1'], ['-ferror-limit=0'], ['-ftemplate-depth=3'],
        ['-fcoroutines-ts'], ['-fchar8_t'], ['-fblocks'],
        ['-fmax-type-align=1'], ['-mllvm', '-x'], ['-Xclang', '-ast-dump'],
        ['-Xclang', '-emit-pch'], ['-Xclang', '-detailed-preprocessing-record'],
        ['-Xclang', '-fno-validate-pch'], ['-Xclang', '-skip-function-bodies'],
        ['-Xclang', '-disable-free'], ['-fretain-comments-from-system-headers'],
        ['-S'], ['-emit-llvm'], ['-c'], ['-o', 'out.o'], ['-o', '-'],
        ['@nope'], ['@args'], ['@args'], ['-'], [n], ['main.cc']])


def response(r, names):
    words = []
    for _ in range(r.randint(0, 6)):
        words.append(r.choice([
            '-I.', '"-I."', "'-I.'", '-DX=\\"a\\"', '-D"A B"=1', '\\', '"',
            "'", '@args', '@args2', '-Xiwyu', '--verbose=3', '\\\n', '#x',
            '-include', r.choice(names), '\0', 'é', '-w', '-std=c++20',
            '"a\\', '-D\\']))
    t = r.choice([' ', '\n', '\r\n', '\t', '  \n']).join(words)
    if r.random() < .1:
        return t.encode('utf-16')
    if r.random() < .1:
        return b'\xef\xbb\xbf' + t.encode()
    return t.encode()


def mapping(r, names):
    q = ['"%s"' % n for n in names] + [
        '<%s>' % n for n in names] + ['@"h.*"', '@<.*>', '@"("', '@', 'x',
                                      '""', '<>', 'ns::X', '"@h[0-9]"', '']
    vis = ['private', 'public', 'Private', 'x', '']
    es = []
    for _ in range(r.randint(0, 6)):
        k = r.random()
        one, two = (s.replace('"', '\\"') for s in (r.choice(q), r.choice(q)))
        if k < .4:
            e = '{ include: ["%s", %s, "%s", %s] }' % (
                one, r.choice(vis), two, r.choice(vis))
        elif k < .7:
            e = '{ symbol: ["%s", "%s", "%s", "public"] }' % (
                r.choice(['X', 'A0', 'struct A0', 'f0', '@A.*', '']),
                r.choice(vis), two)
        elif k < .8:
            e = '{ ref: "%s" }' % r.choice(['map.imp', 'map2.imp', 'nope', '',
                                            '.', names[0]])
        else:
            e = r.choice(['{}', '[]', '{ include: [] }', '{ include: x }',
                          '{ foo: [] }', 'x', '{ include: ["a"',
                          '{ include: ["a","private","b"] }', '# c',
                          '{ symbol: {} }', '{ ref: [] }', '&a *a', '!!x y',
                          '{ ? a : b }', '- x', '%YAML 9', '---', '...',
                          '"\\x"', "'", '{ include: ["@\\\\", private, '
                          '"<x>", public] }'])
        es.append(e)
    t = '[\n' + ',\n'.join(es) + '\n]\n'
    if r.random() < .2:
        i = r.randrange(len(t))
        t = t[:i] + r.choice(['', '[', ']', '{', '}', ',', ':', '\0', '\xff',
                              '"', '\n---\n', '\t']) + t[i + r.randint(0, 3):]
    return t


def case(r, binary):
    """(files, arguments, description) of one hostile run."""
    how = r.random()
    if how < .45:
        files, args, main = odd_program(r)
        kind = 'odd'
    elif how < .6:
        files, args, main = world_program(r)
        kind = 'world'
    elif how < .7:
        files, args, main = prag_program(r)
        kind = 'pragmas'
    else:
        files, args, main = corpus_program(r, binary)
        kind = 'corpus'
    names = sorted(f for f in files if not f.endswith('.imp'))
    if r.random() < .5:
        sub = damage_files(r, {n: files[n] for n in names}, main)
        files.update(sub)
        kind += '+damage'
    if r.random() < .6:
        for _ in range(r.randint(1, 3)):
            for w in iwyu_options(r, names):
                args += ['-Xiwyu', w]
        kind += '+options'
    if r.random() < .25:
        for _ in range(r.randint(1, 2)):
            args += clang_options(r, names)
        kind += '+arguments'
    out = {p: t.encode('latin-1', 'replace') if isinstance(t, str) else t
           for p, t in files.items()}
    out['map.imp'] = mapping(r, names).encode('latin-1', 'replace')
    out['map2.imp'] = mapping(r, names).encode('latin-1', 'replace')
    out['args'] = response(r, names)
    out['args2'] = response(r, names)
    args = args + [main] if r.random() < .9 else [main] + args
    return out, [a.replace('\0', '') for a in args], kind
