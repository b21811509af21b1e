"""Runs the repository's annotated programs (tests/) as one more workload.

The annotations are the expected reports; this module compares them with the
real ones and says in which respect they differ.
"""
import contextlib
import fnmatch
import glob
import io
import os
import re
import sys
import threading
import unittest

from . import core

sys.dont_write_bytecode = True

TOPICS = {
    'C06': ['driver/exitcode*'],
    'C08': ['*keep*', 'cxx/comment_pragmas*', 'cxx/no_fwd_decls*',
            'cxx/pch_in_code*', 'cxx/pragma*', 'cxx/prefix_header_includes*'],
    'C09': ['cxx/comment_pragmas*', '*export*', 'cxx/pragma*',
            'cxx/external_including_internal*'],
    'C10': ['*mapping*', 'cxx/self_map_cycle*', 'cxx/relative_*',
            'cxx/export_nesting*', 'cxx/stl_container*'],
    'C12': ['cxx/multiple_include_paths*', 'cxx/header_*', 'cxx/dotdot*',
            'cxx/new_header_path*', 'cxx/relative_*'],
    'C13': ['cxx/cxx17ns*', 'cxx/inline_namespace*', 'cxx/fwd_decl*',
            'cxx/system_namespaces*', 'cxx/re_fwd_decl*', 'cxx/enums*',
            'cxx/enum_base*', 'cxx/no_fwd_decl_nested*',
            'cxx/default_tpl_arg*', 'cxx/concept*'],
    'C14': ['*macro*', 'cxx/computed_include*', 'cxx/badinc.cc',
            'cxx/explicit_instantiation*'],
    'C15': ['cxx/typedef*', 'cxx/*tpl*', 'cxx/template*', 'cxx/alias_*',
            'cxx/conversion_ctor*', 'cxx/precomputed*',
            'cxx/overloaded_fn_return*', 'cxx/iwyu_stricter*',
            'cxx/default_t*', 'cxx/using_*', 'cxx/fullinfo*',
            'cxx/derived_function*', 'cxx/no_forced_alias*',
            'cxx/no_implicit_*', 'cxx/implicit_ctor*', 'cxx/ctad*',
            'cxx/deduced*', 'cxx/auto_type*', 'cxx/varargs_and*',
            'cxx/catch*', 'cxx/casts*', 'cxx/ptr_ref_aliases*',
            'cxx/iterator*', 'cxx/range_for*', 'cxx/no_def_arg*',
            'cxx/lambda*', 'cxx/sizeof*', 'cxx/overloaded_*',
            'cxx/inheriting_ctor*', 'cxx/member_expr*', 'cxx/memptrs*',
            'cxx/rvalue_reference*', 'cxx/type_trait*', 'cxx/typeid*',
            'cxx/virtual_tpl*', 'cxx/specialization*', 'cxx/no_definition*',
            'cxx/decltype*', 'cxx/avoids_double*', 'cxx/scope_crash*'],
    'C16': ['cxx/associated*', 'cxx/check_also*', 'cxx/prefix_header*',
            'cxx/backwards*', 'cxx/no_h_includes*', 'cxx/include_cycle*',
            'cxx/self_include*', 'cxx/depopulated*', 'cxx/pragma_assoc*',
            'cxx/header_in_subdir*', 'cxx/double_include*'],
    'C17': ['cxx/comment_style*', 'cxx/no_comments*', 'cxx/update_comments*',
            'cxx/uses_printf*'],
    'C19': ['driver/*', 'cxx/clmode*', 'cxx/ms_inline*'],
    'C20': ['*builtins*', 'cxx/stdint*', 'cxx/std_size_t*', 'cxx/no_deque*',
            'cxx/no_fwd_decl_std*', 'cxx/no_char_traits*',
            'cxx/uses_printf*', 'cxx/operator_new*', 'cxx/placement_new*',
            'cxx/stl_container*', 'cxx/typeid*', 'cxx/badinc.cc'],
}

_util = None
_lock = threading.Lock()


def util(binary):
    global _util
    with _lock:
        if _util is None:
            sys.path.insert(0, core.REPO)
            for k in ('IWYU_EXTRA_ARGS', 'IWYU_VERBOSE'):
                os.environ.pop(k, None)
            os.chdir(core.REPO)
            import iwyu_test_util
            iwyu_test_util.SetIwyuPath(binary)
            _util = iwyu_test_util
    return _util


def programs():
    res = []
    for lang, pat in (('c', '*.c'), ('cxx', '*.cc'), ('driver', '*.c')):
        for d, _, files in os.walk(os.path.join(core.REPO, 'tests', lang)):
            res += [os.path.relpath(os.path.join(d, f), core.REPO)
                    for f in files if fnmatch.fnmatch(f, pat)]
    return sorted(res)


def topic(pid):
    pats = TOPICS.get(pid, [])
    return {p for p in programs()
            if any(fnmatch.fnmatch(p[len('tests/'):], q) for q in pats)}


def relevant(filename):
    base, ext = os.path.splitext(filename)
    dirname, name = os.path.split(base)
    files = (glob.glob('%s-*' % base) + glob.glob('%s/*/%s-*' % (dirname, name))
             + glob.glob('%s.h' % base) + glob.glob('%s/*/%s.h' % (dirname,
                                                                   name)))
    return [f for f in files if not f.endswith(ext)] + [filename]


class Res(object):
    def __init__(self, f):
        self.file = f
        self.skipped = False
        self.cats = {}          # category -> text
        self.text = ''
        self.cmd = None


def _full(lines):
    """(kind, code, comment) of the full list / removed spans / additions."""
    sect, full, rem, adds = None, [], [], []
    for l in lines:
        l = l.rstrip('\n')
        if l.endswith('should add these lines:'):
            sect = adds
        elif l.endswith('should remove these lines:'):
            sect = rem
        elif l.startswith('The full include-list for '):
            sect = full
        elif l.startswith('(') and l.endswith('has correct #includes/'
                                              'fwd-decls)'):
            return None, [], []
        elif l.strip() and sect is not None:
            sect.append(l)
    return full, rem, adds


def _code(l):
    return re.sub(r'\s*(//|/\*).*$', '', l).strip()


def classify(exp, act):
    """Differences between expected and actual summaries of one program."""
    cats = {}

    def add(c, t):
        cats.setdefault(c, []).append(t)
    for f in sorted(set(exp) | set(act)):
        if f not in act:
            add('scope', 'no report for %s' % f)
            continue
        if f not in exp:
            add('scope', 'unexpected report for %s' % f)
            continue
        if exp[f] == act[f]:
            continue
        e, er, ea = _full(exp[f])
        a, ar, aa = _full(act[f])
        if e is None and a is None:
            add('text', '%s: %s' % (f, act[f]))
            continue
        before = len(cats)
        if e is None or a is None:
            # One side calls it correct: compare edits instead.
            ins = {_code(x) for x in aa} - {_code(x) for x in ea}
            outs = {_code(x)[2:] for x in er} - {_code(x)[2:] for x in ar}
            extra = ins | outs
            missing = ({_code(x) for x in ea} - {_code(x) for x in aa}) | (
                {_code(x)[2:] for x in ar} - {_code(x)[2:] for x in er})
        else:
            ec, ac = {_code(x) for x in e}, {_code(x) for x in a}
            extra, missing = ac - ec, ec - ac
        ie = {x for x in extra if x.startswith('#include')}
        im = {x for x in missing if x.startswith('#include')}
        for x in ie:
            add('inc_extra', '%s: %s' % (f, x))
        for x in im:
            add('inc_missing', '%s: %s' % (f, x))
        for x in extra - ie:
            add('fwd_extra', '%s: %s' % (f, x))
        for x in missing - im:
            add('fwd_missing', '%s: %s' % (f, x))
        if ie and (missing - im) or im and (extra - ie):
            add('kind', '%s: include and declaration traded' % f)
        if not extra and not missing:
            if a is not None and e is not None and \
                    sorted(map(_code, a)) == sorted(map(_code, e)) and \
                    [_code(x) for x in a] != [_code(x) for x in e]:
                add('order', '%s: full list order' % f)
            if sorted(ar) != sorted(er):
                add('spans', '%s: removals %s vs %s' % (f, ar, er))
            if a is not None and e is not None and sorted(a) != sorted(e):
                add('comments', '%s: %s vs %s' % (
                    f, sorted(set(a) - set(e)), sorted(set(e) - set(a))))
            if sorted(aa) != sorted(ea):
                add('adds', '%s: additions %s vs %s' % (f, aa, ea))
        if len(cats) == before and not any(
                t.startswith(f) for ts in cats.values() for t in ts):
            add('text', '%s: %s' % (f, act[f]))
    return cats


def run_one(binary, f):
    u = util(binary)
    r = Res(f)
    out = io.StringIO()
    try:
        u._CheckPrerequisites(f)
    except unittest.SkipTest:
        r.skipped = True
        return r
    if u.IsTestExpectedToFail(f):
        r.skipped = True
        return r
    cmd = ([binary, '-Xiwyu', '--verbose=3'] + u._GetLaunchArguments(f) + [f])
    r.cmd = cmd
    res = core.run(['sh', '-c', 'exec "$@" 2>&1', 'sh'] + cmd, cwd=core.REPO,
                   timeout=60)
    r.text = res.text
    if res.timeout:
        r.cats['timeout'] = ['timeout']
        return r
    output = res.out.splitlines(True)
    if res.crashed:
        r.cats.setdefault('crash', []).append('exit %s' % res.rc)
    want = u._GetExpectedExitCode(f)
    if want is not None and want != res.rc:
        r.cats.setdefault('exit', []).append('exit %s instead of %s' % (
            res.rc, want))
    files = relevant(f)
    fails = u._CompareExpectedAndActualNoLocDiagnostics(
        u._GetExpectedNoLocDiagnosticRegexes(f),
        u._GetActualNoLocDiagnostics(output))
    if fails:
        r.cats.setdefault('driver', []).extend(fails)
    fails = u._CompareExpectedAndActualDiagnostics(
        u._GetExpectedDiagnosticRegexes(
            u._GetMatchingLines(u._EXPECTED_DIAGNOSTICS_RE, files)),
        u._GetActualDiagnostics(output))
    if fails:
        r.cats.setdefault('diag', []).extend(fails)
    exp, act = u._GetExpectedSummaries(files), u._GetActualSummaries(output)
    if u._CompareExpectedAndActualSummaries(exp, act):
        for k, v in classify(exp, act).items():
            r.cats.setdefault(k, []).extend(v)
        if not any(k in r.cats for k in r.cats if k != 'diag'):
            r.cats['text'] = ['summaries differ']
    return r


def monitor(c, binary, pid, cats=(), topic_cats=None, only=None):
    """Run the corpus and report differences relevant to property pid.

    cats: categories that violate pid in any program; topic_cats: categories
    that violate it in the programs of its topic (None: all).
    """
    mine = topic(pid)
    progs = programs()
    if not cats:
        progs = [p for p in progs if p in mine]
    cwd = os.getcwd()
    util(binary)
    os.chdir(core.REPO)

    def one(f):
        try:
            return run_one(binary, f)
        except Exception as e:          # unusable annotation: not a verdict
            c.maybe('%s: %r' % (f, e))
            return None
    for r in core.pmap(one, progs):
        if r is None:
            continue
        if r.skipped:
            c.count('corpus_skipped')
            continue
        if 'timeout' in r.cats:
            c.maybe('timeout ' + r.file)
            continue
        c.count('corpus_programs')
        c.case(key=('corpus', r.file))
        hit = {k: v for k, v in r.cats.items() if k in cats or
               (r.file in mine and (topic_cats is None or k in topic_cats))}
        if hit:
            c.violation('corpus:' + r.file,
                        '%s differs from its annotation: %s' % (
                            r.file, '; '.join('%s: %s' % (
                                k, ' | '.join(str(x) for x in v)[:600])
                                for k, v in sorted(hit.items()))),
                        files={'output.txt': r.text}, cmd=r.cmd)
    os.chdir(cwd)
