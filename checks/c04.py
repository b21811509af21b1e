#!/usr/bin/env python3
"""C04: following the advice gives a compiling program that needs nothing."""
import hashlib
import os
import re
import shutil

import _path  # noqa: F401
from vf import applyfix, build, core, corpus, oracle_snippets, report
from vf import world, worldcheck

BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vf',
                    'data', 'converge.txt')


def plain_args(args):
    out, i = [], 0
    while i < len(args):
        if args[i] == '-Xiwyu':
            i += 2
            continue
        out.append(args[i])
        i += 1
    return out


def rewrite(d, reports):
    """Apply all reports; the names of the files changed."""
    done = []
    for rep in reports:
        p = os.path.join(d, rep.filename)
        with open(p, encoding='utf-8', errors='surrogateescape') as f:
            text = f.read()
        new = applyfix.apply(text, rep)
        if new is None:
            return None
        if new != text:
            with open(p, 'w', encoding='utf-8',
                      errors='surrogateescape') as f:
                f.write(new)
            done.append(rep.filename)
    return done


def loop(binary, d, cmd, reports, main, args, clang=None):
    """Apply, compile, analyse again.  Returns (problem or None, edited)."""
    try:
        done = rewrite(d, reports)
    except OSError as e:
        return 'cannot apply: %s' % e, []
    if done is None:
        return 'report cannot be applied literally', []
    if done:
        r = core.run([clang or core.CLANG, '-fsyntax-only', '-w'] +
                     plain_args(args) + [main], cwd=d)
        if r.timeout:
            return 'timeout', done
        if r.rc:
            return 'edited program does not compile:\n' + r.text[:1500], done
    r = core.run(cmd, cwd=d)
    if r.timeout:
        return 'timeout', done
    try:
        reps = report.parse(r.text)
    except report.ParseError as e:
        return 'second run: %s\n%s' % (e, r.text[-500:]), done
    if r.rc:
        return 'second run: exit %s\n%s' % (r.rc, r.text[-500:]), done
    if not reps:
        return 'second run: no report', done
    bad = [x for x in reps if x.adds or x.removes]
    if bad:
        return 'second run still wants edits:\n' + r.text[:2000], done
    return None, done


def worlds(c, b):
    variants = [[], ['--no_fwd_decls'], ['--quoted_includes_first'],
                ['--comment_style=long'], ['--verbose=2'], ['--max_line_length=60'],
                ['--no_default_mappings'], ['--transitive_includes_only']]
    profs = ['plain', 'forward', 'assoc', 'direct', 'bulky', 'ns17', 'cxx11',
             'c', 'lean']

    def one(i):
        prof = profs[i % len(profs)]
        w = world.World(core.rng('c04', prof, i),
                        world.Opts(**worldcheck.PROFILES[prof]))
        v = variants[(i // len(profs)) % len(variants)]
        o = world.analyse(b, w, [x for y in v for x in ('-Xiwyu', y)])
        if o.error:
            return i, prof, v, w, o, o.error, []
        why, done = loop(b, o.dir, o.cmd, o.reports, w.main, w.args)
        return i, prof, v, w, o, why, done
    for i, prof, v, w, o, why, done in core.pmap(
            one, range(core.n_cases(700, 9000))):
        key = 'world:%s:%d:%s' % (prof, i, ','.join(v))
        if why == 'timeout':
            c.maybe('timeout ' + key)
        else:
            c.count('worlds_edited_and_reanalysed')
            c.count('files_edited', len(done))
            c.case(key=(w.signature(), tuple(v)) if done else None,
                   sample='%s: edited %s, compiled, re-analysed' % (key, done))
            if why:
                c.violation(key, why, tree=o.dir, cmd=o.cmd,
                            files={'first-output.txt': o.res.text})
        core.rmtree(o.dir)


def oracle(c, b):
    def one(j):
        lang, pol, text = j
        from c03 import CDEF, DEF
        ext, std = ('cc', ['-std=c++20']) if lang == 'cxx' else ('c', [])
        d = core.newdir('o')
        m = 'm.' + ext
        core.write_tree(d, {
            'x.h': '#ifndef X_H\n#define X_H\n%s#endif\n' % (
                DEF if lang == 'cxx' else CDEF),
            'all.h': '#include "x.h"\n',
            m: '#include "all.h"\n' + text + '\n'})
        if core.run([core.CLANG] + std + ['-fsyntax-only', '-w', m],
                    cwd=d).rc:
            return j, d, 'rejected', []
        cmd = [b] + std + [m]
        r = core.run(cmd, cwd=d)
        if r.timeout:
            return j, d, 'timeout', []
        try:
            reps = report.parse(r.text)
        except report.ParseError as e:
            return j, d, 'unparsable: %s' % e, []
        why, done = loop(b, d, cmd, reps, m, std)
        return j, d, why, done
    for j, d, why, done in core.pmap(one, oracle_snippets.SNIPPETS):
        key = 'oracle:%s:%s' % (j[0], hashlib.sha1(
            j[2].encode()).hexdigest()[:10])
        if why == 'timeout':
            c.maybe('timeout ' + key)
        elif why == 'rejected':
            c.count('rejected_by_compiler')
        else:
            c.count('snippets_edited_and_reanalysed')
            c.case(key=key)
            if why:
                c.violation(key, '%s\n%s' % (j[2], why), tree=d)
        core.rmtree(d)


def corpus_loop(b, f, root, cmd):
    """One program of the repository's corpus, in a private copy of tests/."""
    # Only the files of this program are edited, so copies can be shared
    # between programs run one after another in the same copy.
    r = core.run(cmd, cwd=root)
    if r.timeout:
        return 'timeout', []
    try:
        reps = report.parse('\n'.join(
            l for l in r.text.split('\n')
            if not re.match(r'\S+:\d+:\d+: ', l)))
    except report.ParseError as e:
        return 'unparsable: %s' % e, []
    if not reps:
        return 'no report', []
    names = [os.path.join(root, x.filename) for x in reps]
    saved = {}
    for n in names:
        if not os.path.realpath(n).startswith(os.path.realpath(root)) or \
                not os.path.exists(n):
            return 'outside', []
        saved[n] = open(n, 'rb').read()
    try:
        return loop(b, root, cmd, reps, f, cmd[1:-1])
    finally:
        for n, data in saved.items():
            with open(n, 'wb') as fh:
                fh.write(data)


def corpus_programs(c, b, only=None):
    u = corpus.util(b)
    progs = [f for f in corpus.programs() if '/driver/' not in f and
             (only is None or f in only)]
    os.chdir(core.REPO)
    jobs = []
    for f in progs:
        try:
            u._CheckPrerequisites(f)
        except Exception:
            continue
        jobs.append((f, [b] + u._GetLaunchArguments(f) + [f]))
    k = 8
    roots = []
    for i in range(k):
        root = core.newdir('t')
        shutil.copytree(os.path.join(core.REPO, 'tests'),
                        os.path.join(root, 'tests'))
        roots.append(root)

    def lane(i):
        return [(f, corpus_loop(b, f, roots[i], cmd))
                for f, cmd in jobs[i::k]]
    res = [x for l in core.pmap(lane, range(k)) for x in l]
    for root in roots:
        core.rmtree(root)
    return res


def main():
    c = core.Check('C04', 'a program is non-trivial when the report changed '
                   'at least one file; distinct by program and options')
    c.assumptions = ['the installed clang 20 decides whether the edited '
                     'program compiles']
    b = build.iwyu('rel')
    worlds(c, b)
    oracle(c, b)
    base = {l.strip() for l in open(BASE) if l.strip()}
    for f, (why, done) in corpus_programs(c, b, base):
        if why == 'timeout':
            c.maybe('timeout ' + f)
            continue
        c.count('corpus_programs_edited_and_reanalysed')
        c.case(key=('corpus', f) if done else None)
        if why:
            c.violation('corpus:' + f, why)
    c.finish()


if __name__ == '__main__':
    core.main(main)
