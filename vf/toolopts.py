"""The tool's own options: witnesses of their effect and their spellings."""

LONG = {'check_also': 1, 'keep': 1, 'transitive_includes_only': 0,
        'verbose': 1, 'mapping_file': 1, 'no_default_mappings': 0,
        'prefix_header_includes': 1, 'pch_in_code': 0, 'max_line_length': 1,
        'comment_style': 1, 'no_comments': 0, 'update_comments': 0,
        'no_fwd_decls': 0, 'quoted_includes_first': 0, 'cxx17ns': 0,
        'error': 2, 'error_always': 2, 'debug': 1, 'regex': 1,
        'experimental': 1}
SHORT = {'verbose': 'v', 'check_also': 'c', 'mapping_file': 'm', 'debug': 'd',
         'no_default_mappings': 'n', 'regex': 'r'}

TREE = {
    'main.cc': '#include "first.h"\n#include "main.h"\n'
               '#include "unused.h"\n#include "outer.h"\n'
               '#include <cstdio>\n#include "umbrella.h"\n'
               'nsa::nsb::NameOfARatherLongType* p;\n'
               'nsa::nsb::NameOfARatherLongType v;\n'
               'nsa::nsb::NameOfAnotherType w; nsa::nsb::NameOfAThirdType x;\n'
               'nsa::nsb::NameOfTheFourthType y;\n'
               'priv::P q; Other o; Sibling s;\n'
               'int f() { return int_fn() + b_fn(); }\nFILE* fp;\n'
               'pfx::Q* ptr;\nstd::vector<int> vec;\n',
    'main.h': '#ifndef MAIN_H\n#define MAIN_H\n#include "unused.h"\n'
              'int b_fn();\nnamespace nsa { namespace nsb {\n'
              'class NameOfARatherLongType; } }\n'
              'nsa::nsb::NameOfARatherLongType* mk();\n'
              'inline nsb_other::T* g() { return nullptr; }\n'
              'inline int gg() { return int_fn(); }\n#endif\n',
    'first.h': '#include <vector>\nnamespace nsb_other { class T; }\n'
               '#include "inner.h"\n',
    'inner.h': '#include "leaf.h"\nint int_fn();\n',
    'unused.h': '',
    'leaf.h': 'struct Leaf {};\n',
    'outer.h': '#include "names.h"\n#include "priv1.h"\n#include "other.h"\n'
               '#include "leaf2.h"\n',
    'names.h': 'namespace nsa { namespace nsb {\n'
               'class NameOfARatherLongType {};\n'
               'class NameOfAnotherType {}; class NameOfAThirdType {};\n'
               'class NameOfTheFourthType {}; } }\n',
    'priv1.h': 'namespace priv { struct P {}; }\n',
    'other.h': 'struct Other {};\n',
    'leaf2.h': 'struct Sibling {};\n',
    'umbrella.h': '',
    'public.h': '#include "priv1.h"\n',
    'pre.h': 'namespace pfx { class Q {}; }\n',
    'm.imp': '[{ "include": ["\\"priv1.h\\"", "private", "\\"public.h\\"", '
             '"public"] }]\n',
    're.imp': '[{ "include": ["@\\"(?!priv)(oth)er.h\\"", "private", '
              '"\\"pub_$1.h\\"", "public"] }]\n',
}

ARGS = ['-I.', '-std=c++20', '-include', 'pre.h', 'main.cc']

# Options, the text whose presence (or absence: leading '!') they cause.
WITNESS = [
    ([('check_also', '*inner.h')], 'inner.h should remove'),
    ([('check_also', 'outer.h'), ('check_also', '*/inner.h')],
     'outer.h should remove'),
    ([('keep', '*unused.h')], '!- #include "unused.h"'),
    ([('keep', 'nothing'), ('keep', '*umbrella.h')],
     '!- #include "umbrella.h"'),
    ([('verbose', '0')], None),
    ([('verbose', '1')], None),
    ([('verbose', '3')], None),
    ([('verbose', '2')], None),
    ([('mapping_file', 'm.imp')], '"public.h"'),
    ([('prefix_header_includes', 'remove')], '!class Q;'),
    ([('prefix_header_includes', 'keep')], '!class Q;'),
    ([('pch_in_code', None)], '!- #include "first.h"'),
    ([('max_line_length', '140')], 'NameOfTheFourthType\n'),
    ([('max_line_length', '45')], None),
    ([('comment_style', 'long')], 'for nsa::nsb::NameOfARatherLongType'),
    ([('comment_style', 'none')], '!// for'),
    ([('no_comments', None)], '!// for'),
    ([('no_fwd_decls', None)], None),
    ([('cxx17ns', None)], None),
    ([('error', None)], 1),
    ([('error', '7')], 7),
    ([('error_always', None)], 1),
    ([('error_always', '9')], 9),
    ([('debug', 'zork,fork')], "Debug flag enabled: 'zork'"),
    ([('regex', 'ecmascript'), ('mapping_file', 're.imp')], 'pub_oth.h'),
    ([('experimental', 'clang_mappings')],
     "Experimental flag enabled: 'clang_mappings'"),
    ([('transitive_includes_only', None)],
     '!main.h should add these lines:\n#include "inner.h"'),
    ([('no_default_mappings', None)], None),
    ([('quoted_includes_first', None)], None),
    ([('update_comments', None)], None),
    ([('max_line_length', '10'), ('max_line_length', '140')],
     'NameOfTheFourthType\n'),
    ([('verbose', '5'), ('verbose', '1')], None),
]


def canonical(opts):
    out = []
    for n, v in opts:
        out += ['-Xiwyu', '--' + n + ('' if v is None else '=' + v)]
    return out


def prefixes(name):
    """The shortest unambiguous abbreviations of a long option."""
    for i in range(1, len(name)):
        if not any(o != name and o.startswith(name[:i]) for o in LONG):
            return [name[:j] for j in range(i, len(name))]
    return []


def spelled(r, n, v):
    """Words (each to be preceded by -Xiwyu) of one accepted spelling."""
    k = r.randrange(5)
    name = n
    if k == 0 and n in SHORT:
        s = '-' + SHORT[n]
        if v is None:
            return [s]
        return [s + v] if r.random() < .5 else [s, v]
    if k in (1, 2):
        name = r.choice(prefixes(n) or [n])
    if v is None:
        return ['--' + name]
    if LONG[n] == 1 and r.random() < .5:
        return ['--' + name, v]
    return ['--' + name + '=' + v]


BAD = [['--no_such_option'], ['--comment_style=medium'],
       ['--prefix_header_includes=maybe'], ['--regex=perl'],
       ['--error=x'], ['--error=1x'], ['--error=99999999999'],
       ['--error_always=x'], ['--max_line_length=-1'],
       ['--max_line_length=abc'], ['--no_comments=3'], ['-z'], ['-r'],
       ['--keep'], ['-m'], ['--verbose'], ['-v'], ['--no_'],
       ['--comment_style='], ['--error_always=']]
