#!/usr/bin/env python3
"""C19: compiler arguments, response files, tool options, jobs, outputs."""
import os

import _path  # noqa: F401
from vf import argworld as A
from vf import build, core, toolopts

NOISE = [['--verbose=1'], ['--verbose', '2'], ['--no_comments'],
         ['--comment_style=long'], ['--max_line_length', '100'],
         ['--error=0'], ['--no_fwd_decls'], ['--cxx17ns'], ['-v1'],
         ['--check_also', '*zzz*'], ['--update_comments'], ['-v', '1'],
         ['--keep=*zzz*'], ['--pch_in_code'], ['--quoted_includes_first']]


def spread(r, words, noise):
    """Insert -Xiwyu pairs anywhere, even between an option and its value."""
    words = list(words)
    pos = 0
    for n in noise:
        for w in n:
            pos = r.randint(pos, len(words))
            words[pos:pos] = ['-Xiwyu', w]
            pos += 2
    return words


def gen_case(r, i):
    """Words, files, and how the probe's source is called."""
    files = A.headers(r)
    cl = i % 6 == 5
    lang = r.choice(('c++', 'c++', 'c'))
    ext = {'c++': ('cc', 'cpp', 'cxx', 'C'), 'c': ('c',)}[lang]
    src = r.choice(('probe', 'my probe', 'sub/pr', "it's")) + \
        '.' + r.choice(ext)
    incl = [h for h in ('"dup.h"', '<dup.h>') if r.random() < .7]
    groups = A.pick_cl(r) if cl else A.pick_args(r, lang)
    files[src] = A.probe(incl)
    if r.random() < .12:
        tail = ['--', src]
        words = [w for g in groups for w in g] + tail
    else:
        groups.insert(r.randint(1 if cl else 0, len(groups)), [src])
        words = [w for g in groups for w in g]
        tail = ()
    env = {}
    if r.random() < .12:
        env[r.choice(('CPATH', 'CPLUS_INCLUDE_PATH', 'C_INCLUDE_PATH'))] = \
            r.choice(('inc1', 'inc0:inc 2'))
    n = len(words) - len(tail)
    quote = A.quote_win if cl else A.quote_gnu
    if r.random() < .1:
        quote = A.quote_win if quote is A.quote_gnu else A.quote_gnu
        head = ['--rsp-quoting=' + (
            'windows' if quote is A.quote_win else 'posix')]
    else:
        head = []
    keep = 1 if cl else 0       # the driver mode stays on the command line
    line = A.Line(r, words[keep:n], quote, files)
    return (words[:keep] + head + line.words + list(tail), files, cl, env,
            line, words, src)


def faithful(ck, binary, i):
    r = core.rng('C19', i)
    words, files, cl, env, line, flat, src = gen_case(r, i)
    d = core.newdir('a')
    core.write_tree(d, files)
    noise = [n for n in NOISE if r.random() < .2]
    before = A.tree_of(d)
    extra = ['-fsyntax-only', '-Qunused-arguments']
    # Temporary files change what clang itself compiles.
    no_temps = {'CCC_OVERRIDE_OPTIONS':
                '#x-save-temps x-save-temps=obj x--save-temps'}
    ref = core.run([core.CLANG] + extra + words, cwd=d,
                   env=dict(env, **no_temps))
    for f in A.tree_of(d) - before:         # clang's own droppings
        os.unlink(os.path.join(d, f))
    cmd = [binary] + spread(r, words, noise)
    res = core.run(cmd, cwd=d, env=env)
    bad = []
    try:
        if ref.timeout or res.timeout:
            ck.maybe('timeout')
            return
        if ref.crashed:
            ck.count('clang crashed')
            return
        want, got = A.diagnostics(ref.err), A.diagnostics(res.err)
        driver = [w for w in want if not w[0] and w[2] == 'error']
        probes = [w for w in want if w[3].startswith('P: ')]
        ck.count('probe_messages', len(probes))
        ck.count('response_files', line.used)
        ck.count('nested_response_files', line.nested)
        ck.count('cl_mode' if cl else 'gcc_mode')
        if driver:
            ck.count('rejected by the driver')
            for w in driver:
                if w not in got and not any(w[3] in g[3] for g in got):
                    bad.append('clang says "%s", the tool does not' % w[3])
        else:
            a = [w for w in want if w[3].startswith('P: ')]
            b = [w for w in got if w[3].startswith('P: ')]
            if a != b:
                bad.append('effects differ:\n  clang %s\n  tool  %s' % (
                    [x[3] for x in a if x not in b],
                    [x[3] for x in b if x not in a]) if
                    sorted(a) != sorted(b) else 'order differs')
            # The driver's own warnings come before -W options count.
            a = [w for w in want if not w[3].startswith('P: ') and w[0]]
            b = [w for w in got if not w[3].startswith('P: ') and w[0]]
            if a != b:
                bad.append('diagnostics differ:\n  clang %s\n  tool  %s' % (
                    [x for x in a if x not in b],
                    [x for x in b if x not in a]))
            if ref.rc == 0 and res.rc != 0:
                bad.append('clang accepts this, exit status %s' % res.rc)
            if ref.rc == 0 and ' has correct #includes' not in res.text and \
                    ' should add these lines' not in res.text:
                bad.append('no report')
        new = A.tree_of(d) - before
        if new:
            bad.append('new files: %s' % sorted(new))
    finally:
        ck.case(tuple(flat), ' '.join(words))
        if bad:
            ck.violation('args-%d' % i, '\n'.join(bad) + '\nwords: %r\n%s'
                         % (flat, res.text), tree=d, cmd=cmd)
        core.rmtree(d)


def preprocess(ck, binary, i):
    """Requests for preprocessing only give what the compiler gives."""
    r = core.rng('C19', 'E', i)
    cl = r.random() < .25
    files = A.headers(r)
    src = r.choice(('p.cc', 'p.c', 'sub/p.cc'))
    files[src] = A.probe(['"dup.h"', '<dup.h>', '"only_1.h"'])
    if cl:
        groups = A.pick_cl(r)
        ask = r.choice((['/E'], ['/EP'], ['/P'], ['/P', '/Fiout.i'],
                        ['/E', '/C']))
    else:
        groups = A.pick_args(r, 'c++' if src.endswith('cc') else 'c')
        ask = r.choice((['-E'], ['-E', '-dM'], ['-E', '-P'], ['-E', '-C'],
                        ['-E', '-o', 'out.i'], ['-E', '-MD', '-MF', 'd'],
                        ['-E', '-dD'], ['-E', '-dI', '-H'], ['-M'], ['-MM'],
                        ['-MM', '-MF', 'deps'], ['-M', '-MT', 'a b', '-MP'],
                        ['-MM', '-MG', '-o', 'd2']))
    groups.insert(r.randint(1 if cl else 0, len(groups)), [src])
    groups.insert(r.randint(1 if cl else 0, len(groups)), ask)
    flat = [w for g in groups for w in g
            if 'save-temps' not in w and w not in
            ('-v', '-fsyntax-only', '-ftime-trace', 'ps')]
    # Where the request is looked for, it is spelled out.
    line = A.Line(r, flat[1:] if cl else flat,
                  A.quote_win if cl else A.quote_gnu, files)
    words = (flat[:1] if cl else []) + line.words
    ends = []
    for prog in (core.CLANG, binary):
        d = core.newdir('e')
        core.write_tree(d, files)
        before = A.tree_of(d)
        res = core.run([prog] + words, cwd=d)
        if res.timeout:
            ck.maybe('timeout')
            return
        new = {}
        for f in A.tree_of(d) - before:
            with open(os.path.join(d, f), 'rb') as fh:
                new[f] = fh.read()
        ends.append((res, new, d))
    (ref, rnew, rd), (res, new, d) = ends
    bad = []
    errors = [x for x in A.diagnostics(ref.err) if not x[0] and
              x[2] == 'error']
    ck.case(('E',) + tuple(flat))
    ck.count('preprocessing requests')
    if not errors and not ref.crashed:
        if res.out.replace(d, rd) != ref.out:
            bad.append('standard output differs from the compiler')
        for f in set(new) | set(rnew):
            # Records of a run name the program and the time it took.
            if f not in ('ps', 'diag file') and new.get(f, b'').replace(
                    d.encode(), rd.encode()) != rnew.get(f, b''):
                bad.append('file %s differs: tool %r, clang %r' % (
                    f, new.get(f), rnew.get(f)))
        if (ref.rc == 0) != (res.rc == 0):
            bad.append('exit status %s, clang %s' % (res.rc, ref.rc))
    if bad:
        ck.violation('preprocess-%d' % i, '\n'.join(bad)[:3000] +
                     '\nwords: %r' % flat, tree=d, cmd=[binary] + words,
                     files={'tool.out': res.out, 'clang.out': ref.out})
    core.rmtree(d)
    core.rmtree(rd)


def options(ck, binary, base, i):
    """Tool options in every spelling and position act alike."""
    r = core.rng('C19', 'opt', i)
    w = toolopts.WITNESS
    if i < len(w) * 4:
        opts, seen = w[i % len(w)]
        sets = [opts]
    else:
        sets, names = [], set()
        for o, _ in r.sample(w, r.randint(2, 5)):
            if not names & set(n for n, _ in o):
                names |= set(n for n, _ in o)
                sets.append(o)
        seen = None
        opts = [x for o in sets for x in o]
    d = core.newdir('o')
    core.write_tree(d, toolopts.TREE)
    cmd = [binary] + toolopts.canonical(opts) + toolopts.ARGS
    ref = core.run(cmd, cwd=d)
    bad = []
    if i < len(w):
        if isinstance(seen, int):
            if ref.rc != seen:
                bad.append('exit status %s' % ref.rc)
        elif seen and seen[0] == '!':
            if seen[1:] in ref.text or seen[1:] not in base.text:
                bad.append('no effect (%r)' % seen)
        elif seen and (seen not in ref.text or seen in base.text):
            bad.append('no effect (%r)' % seen)
        if ref.text != base.text:
            ck.count('options that change the report')
    # Options keep their order only where they repeat.
    r.shuffle(sets)
    noise = [toolopts.spelled(r, *o) for s in sets for o in s]
    cmd = [binary] + spread(r, toolopts.ARGS, noise)
    res = core.run(cmd, cwd=d)
    ck.case(('opt',) + tuple(cmd[1:]), ' '.join(cmd[1:]))
    ck.count('option spellings', len(noise))

    def lines(t):
        # Flag announcements come in the order of the command line.
        return sorted(t.split('\n'))
    if not (ref.timeout or res.timeout):
        if res.rc != ref.rc or lines(res.out) != lines(ref.out) or \
                lines(res.err) != lines(ref.err):
            bad.append('differs from %s:\n%s' % (
                ' '.join(toolopts.canonical(opts)), ref.text[:1500]))
    if bad:
        ck.violation('option-%d' % i, '\n'.join(bad) + '\n' +
                     res.text[:3000], tree=d, cmd=cmd)
    core.rmtree(d)


def bad_options(ck, binary):
    d = core.newdir('b')
    core.write_tree(d, toolopts.TREE)
    for words in toolopts.BAD:
        cmd = [binary] + toolopts.ARGS
        for w in words:
            cmd += ['-Xiwyu', w]
        res = core.run(cmd, cwd=d)
        ck.case(('bad',) + tuple(words))
        ck.count('invalid options')
        if res.timeout:
            ck.maybe('timeout')
        elif res.rc != 1 or 'FATAL ERROR' not in res.text or \
                'main.cc' in res.err:
            ck.violation('invalid-%s' % '_'.join(words), 'invalid option not '
                         'rejected: exit status %s\n%s' % (
                             res.rc, res.text[:2000]), tree=d, cmd=cmd)
    for words, says in ((['--help'], 'USAGE: include-what-you-use'),
                        (['--version'], 'include-what-you-use 0.')):
        for at in (0, len(toolopts.ARGS)):
            cmd = [binary] + toolopts.ARGS[:at] + words + toolopts.ARGS[at:]
            res = core.run(cmd, cwd=d)
            ck.case(('info', at) + tuple(words))
            if not res.timeout and (res.rc or says not in res.out or
                                    'main.cc' in res.text):
                ck.violation('info%s-%d' % (words[0], at), 'exit status %s\n'
                             '%s' % (res.rc, res.text[:2000]), tree=d,
                             cmd=cmd)
    core.rmtree(d)


# Requests for compiler output of all kinds; {} is the source.
OUTPUTS = """-c {}|-c -o x.o {}|-S {}|-S -o - {}|-emit-llvm -c {}
-emit-llvm -S -o x.ll {}|-emit-ast {}|-o prog {}|{} -o prog -lfoo|-MD -c {}
-MD -MF dep -MT t -c {}|-MMD -MP {}|-Xclang -emit-pch -o x.pch {}
-x c++-header -o x.gch {}|-save-temps {}|-save-temps=obj -c -o o/x.o {}
--save-temps=cwd {}|--serialize-diagnostics x.dia {}|-ftime-trace {}
-ftime-trace=trace.json -c {}|--analyze {}|--analyze -o an.plist {}
-g -gsplit-dwarf -c {}|--coverage -c {}|-fprofile-arcs -ftest-coverage -c {}
-fsave-optimization-record -O2 -c {}|-foptimization-record-file=r.yml -c {}
-fstack-usage -c {}|-flto -c {}|-flto=thin -fthin-link-bitcode=x.bc -c {}
-Xclang -emit-obj -Xclang -o -Xclang y.o {}|-Xclang -emit-llvm -o z.ll {}
-Xclang -ast-dump {}|-Xclang -ast-print {}|-Xclang -fdump-record-layouts {}
-fmodules -fmodules-cache-path=cache {}|-fmodule-output=m.pcm -c {}
-emit-interface-stubs -c {}|-fcrash-diagnostics-dir=crash {}
-fdebug-compilation-dir=/x -g -c {}|-dependency-dot d.dot {}
-fsanitize=address -c {}|-shared -fPIC -o lib.so {}|-static {}|-r -o r.o {}
-Wa,-adhln=list.txt -c {}|-Wl,-Map,x.map {}|-pg {}|-fxray-instrument -c {}
-fprofile-instr-generate=p.raw -c {}|-ftrapv -c {}|-E -o /dev/null {} -c
-Xclang -plugin-arg-x -Xclang y {}|-ftest-coverage {}|-gmodules -g -c {}
-fsyntax-only -o q {}|-c -o /dev/null {}|-c {} -o "sp ace.o"
-Xclang -rewrite-macros -o rw.cc {}|-Xclang -analyze -o an2 {}
-Xclang -emit-codegen-only {}|-Xclang -E -o e.ii {}|-Xclang -M {}
--driver-mode=cl /Fox.obj /c {}|--driver-mode=cl /Fax.asm /FA {}
--driver-mode=cl /Fex.exe {}|--driver-mode=cl /Fpx.pch /Ycfoo.h {}
--driver-mode=cl /Zi /Fdx.pdb {}|--driver-mode=cl /LD {}""".replace(
    '\n', '|').split('|')


def outputs(ck, binary):
    """No request makes a file appear."""
    import shlex

    def one(o):
        d = core.newdir('n')
        core.write_tree(d, {'w/a.cc': '#include "b.h"\n#include "c.h"\n'
                            'int x = b;\n', 'w/b.h': 'extern int b;\n',
                            'w/c.h': '', 'w/o/keep': ''})
        before = A.tree_of(d)
        cmd = [binary] + [w if w != '{}' else 'a.cc' for w in shlex.split(o)]
        tmp = os.path.join(d, 'tmp')
        os.mkdir(tmp)
        res = core.run(cmd, cwd=os.path.join(d, 'w'), env={'TMPDIR': tmp})
        new = sorted(A.tree_of(d) - before)
        ck.case(('out', o), o)
        ck.count('output requests')
        bad = []
        if res.timeout:
            ck.maybe('timeout')
        else:
            if new and '-E -o' not in o:
                bad.append('new files: %s' % new)
            if '(a.cc has correct' in res.text or 'a.cc should' in res.text:
                ck.count('output requests analysed instead')
                if '- #include "c.h"' not in res.text:
                    bad.append('wrong report')
            elif res.rc == 0 and '-E' not in o:
                bad.append('neither analysed nor rejected')
        if bad:
            ck.violation('output-%s' % o.replace(' ', '_'), '\n'.join(bad) +
                         '\n' + res.text[:2000], tree=d, cmd=cmd)
        core.rmtree(d)
    core.pmap(one, OUTPUTS)


def jobs(ck, binary):
    """Lists of inputs: one is analysed, none is an error."""
    tree = {'a.cc': '#include "h.h"\nint x;\n', 'h.h': 'int h;\n',
            'b.cc': '#include "h.h"\nint y;\n', 'c.c': 'int z;\n',
            'x.o': '', 'y.a': '', 'm.s': '', 'n.ll': '',
            'pre.h': '', 'pre.h.gch': 'CPCHxxxx', 'pre.h.pch': 'CPCHxxxx'}
    rejected = [[], ['x.o'], ['x.o', 'y.a', '-o', 'p'], ['m.s'],
                ['-c', 'm.s'], ['nothere.cc'], ['-x', 'assembler', 'a.cc'],
                ['-lfoo'], ['-I.'], ['-include-pch', 'pre.h.gch', 'a.cc'],
                ['-include', 'pre.h', 'a.cc'],
                ['-Xclang', '-include-pch', '-Xclang', 'pre.h.pch', 'a.cc'],
                ['-x', 'ir', 'n.ll'], ['n.ll'], ['@missing.rsp'],
                ['-E'], ['-print-resource-dir', 'a.cc']]
    first = [(['a.cc', 'b.cc'], 1), (['-c', 'b.cc', 'a.cc'], 1),
             (['x.o', 'a.cc', 'y.a'], 0), (['a.cc', 'm.s'], 0),
             (['b.cc', 'c.c', 'a.cc'], 2),
             (['--target=x86_64-apple-darwin', '-arch', 'x86_64', '-arch',
               'arm64', 'a.cc'], 1),
             (['-x', 'cuda', '-nocudainc', '-nocudalib', 'a.cc'], 0),
             (['-x', 'c', 'c.c', '-x', 'c++', 'a.cc'], 1),
             (['-fopenmp', 'a.cc'], 0), (['-flto', 'a.cc', 'x.o'], 0)]
    d = core.newdir('j')
    core.write_tree(d, tree)
    before = A.tree_of(d)
    for words in rejected:
        cmd = [binary] + words
        res = core.run(cmd, cwd=d)
        ck.case(('rejected',) + tuple(words), ' '.join(words))
        ck.count('rejected job lists')
        if res.timeout:
            continue
        bad = []
        if res.rc != 1:
            bad.append('exit status %s' % res.rc)
        if 'error: ' not in res.text and '-print-resource-dir' not in words:
            bad.append('no diagnostic')
        if 'correct #includes' in res.text or ' should ' in res.text:
            bad.append('analysed all the same')
        if bad:
            ck.violation('rejected-%s' % '_'.join(words), '\n'.join(bad) +
                         '\n' + res.text[:2000], tree=d, cmd=cmd)
    for words, more in first:
        cmd = [binary, '-Xiwyu', '--verbose=2'] + words
        res = core.run(cmd, cwd=d)
        ck.case(('first',) + tuple(words), ' '.join(words))
        ck.count('job lists')
        if res.timeout:
            continue
        srcs = [w for w in words if w.endswith(('.cc', '.c'))]
        bad = []
        for n, s in enumerate(srcs):
            is_in = '(%s has correct' % s in res.text or \
                '%s should' % s in res.text
            if is_in != (n == 0):
                bad.append('%s was%s analysed' % (s, '' if is_in else ' not'))
        if more and 'ignoring %d extra jobs' % more not in res.text:
            bad.append('nothing is said of %d more jobs' % more)
        if not more and 'extra jobs' in res.text:
            bad.append('speaks of extra jobs')
        if bad:
            ck.violation('jobs-%s' % '_'.join(words), '\n'.join(bad) + '\n' +
                         res.text[:2000], tree=d, cmd=cmd)
    if A.tree_of(d) != before:
        ck.violation('jobs-files', 'new files %s' % sorted(
            A.tree_of(d) - before), tree=d)
    core.rmtree(d)


def main():
    ck = core.Check('C19', 'a command line was given to clang and to the '
                    'tool; distinct by its expanded words')
    binary = build.iwyu('rel')
    ck.assumptions = ['clang 20 of /usr/lib/llvm-20 defines the meaning of '
                      'compiler arguments']
    core.pmap(lambda i: faithful(ck, binary, i),
              range(core.n_cases(1500, 40000)))
    core.pmap(lambda i: preprocess(ck, binary, i),
              range(core.n_cases(400, 8000)))
    d = core.newdir('base')
    core.write_tree(d, toolopts.TREE)
    base = core.run([binary] + toolopts.ARGS, cwd=d)
    core.pmap(lambda i: options(ck, binary, base, i),
              range(core.n_cases(240, 8000)))
    bad_options(ck, binary)
    outputs(ck, binary)
    jobs(ck, binary)
    ck.finish()


core.main(main)
