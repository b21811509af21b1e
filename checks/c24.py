#!/usr/bin/env python3
"""C24: only selected files are written, bytes and encoding preserved."""
import os
import re
import shutil
import stat
import subprocess
import sys

import _path  # noqa: F401
from vf import core, fixgen, pyrun

FIXER = os.path.join(core.REPO, 'fix_includes.py')
NO = '--nosafe_headers'
ENC = ['utf-8'] * 4 + ['ascii', 'bom', 'latin1', 'cp1252', 'bytes', 'utf-8x']
EOL = ['lf', 'lf', 'crlf', 'crlf', 'mixed']
CHARS = {'ascii': [''], 'utf-8': ['\u00e9', '\u4f60\u597d', '\U0001f600', ''],
         'bom': ['\u00e9', '', '\u20ac'], 'latin1': ['\u00e9', '\u00fc\u00df'],
         'cp1252': ['\u20ac', '\u201cq\u201d', '\u00e9'],
         'bytes': ['\x81\x83', '\xff\x90'],
         'utf-8x': ['\u2028', '\u0085', '\x0b', '\x1c', '\x0c', '\x1e']}
FATES = (['edit'] * 9 + ['correct', 'empty', 'none', 'stale-line',
         'stale-past', 'damaged-noline', 'damaged-order', 'damaged-name',
         'unencodable', 'missing', 'directory'])


def encode(text, enc, eol, r=None):
    """LF text to bytes."""
    if eol == 'crlf':
        text = text.replace('\n', '\r\n')
    codec = {'bom': 'utf-8-sig', 'latin1': 'latin-1', 'cp1252': 'cp1252',
             'bytes': 'latin-1', 'utf-8x': 'utf-8'}.get(enc, enc)
    b = text.encode(codec)
    if eol == 'mixed':
        parts = b.split(b'\n')
        # Most lines keep LF, so that added ones get it.
        b = parts[0]
        for i, p in enumerate(parts[1:]):
            b += (b'\r\n' if (i * 7 + len(p)) % 5 == 0 else b'\n') + p
    return b


def flavour(f, r, enc):
    """Puts characters of the encoding into comments and code."""
    n = 0
    for l in f.ls:
        ch = r.choice(CHARS[enc])
        if not ch or l.text.endswith('\\'):
            continue
        if l.role == 'comment' and l.text.lstrip().startswith('//'):
            l.text += ' ' + ch
            n += 1
        elif l.role == 'code' and l.text.endswith(';') and \
                r.random() < .5 and '"' not in l.text:
            l.text += '  // ' + ch
            n += 1
    return n


def broken(f, rep, fate, r):
    """A report with the given defect."""
    name = f.name
    lines = rep.split('\n')
    if fate == 'stale-line':
        code = [l.n for l in f.ls if l.role == 'code']
        ln = r.choice(code)
        if r.random() < .5:
            at = lines.index('The full include-list for %s:' % name)
            lines.insert(at + 1, '#include "gone.h"  // lines %d-%d' % (ln,
                                                                       ln))
        else:
            at = lines.index('%s should remove these lines:' % name)
            lines.insert(at + 1, '- #include "gone.h"  // lines %d-%d' % (
                ln, ln))
    elif fate == 'stale-past':
        ln = len(f.ls) + r.randint(1, 50)
        text, sect = r.choice([
            ('- #include "gone.h"  // lines %d-%d', 'remove'),
            ('#include "gone.h"  // lines %d-%d', 'full'),
            ('class Gone;  // lines %d-%d', 'full'),
            ('- class Gone;  // lines %d-%d', 'remove')])
        head = ('%s should remove these lines:' % name if sect == 'remove'
                else 'The full include-list for %s:' % name)
        lines.insert(lines.index(head) + 1, text % (ln, ln))
    elif fate == 'damaged-noline':
        at = lines.index('%s should remove these lines:' % name)
        lines.insert(at + 1, '- #include "gone.h"')
    elif fate == 'damaged-order':
        a = lines.index('%s should add these lines:' % name)
        b = lines.index('%s should remove these lines:' % name)
        lines[a], lines[b] = lines[b], lines[a]
    elif fate == 'damaged-name':
        b = lines.index('%s should remove these lines:' % name)
        lines[b] = 'other.cc should remove these lines:'
    elif fate == 'unencodable':
        a = lines.index('%s should add these lines:' % name)
        lines.insert(a + 1, '#include "\u4f60.h"')
    return '\n'.join(lines)


class Case(object):
    pass


def make(i):
    r = core.rng('c24', i)
    c = Case()
    c.files = []
    c.opts = [r.choice([NO, NO, NO, '--safe_headers'])]
    c.opts += r.choice([[], [], ['--reorder'], ['--comments'],
                        ['--noblank_lines'], ['--update_comments']])
    upd = '--update_comments' in c.opts
    rep = r.choice(['', 'warning: this and that\n', 'In file included from\n'])
    for k in range(r.randint(2, 5)):
        sub = r.choice(['', 'src/', 'inc/deep/', 'proj/'])
        f = fixgen.File(r, '%sf%d%s' % (sub, k, r.choice(
            ['.cc', '.h', '.cpp', '.hpp'])), odd=r.random() < .5)
        f.enc, f.eol = r.choice(ENC), r.choice(EOL)
        f.fate = r.choice(FATES)
        if f.fate == 'unencodable':
            f.enc = 'latin1'
        pad = r.choice([0] * 40 + [3, 5, 9, 20, 70])
        if pad:
            # A long file with its odd characters at the very end.
            for n in range(pad * 1024 // 24):
                f.add('int padding_%09d;' % n, 'code').n = len(f.ls)
            f.add('// end ' + r.choice(CHARS[f.enc]), 'comment').n = len(f.ls)
            f.marks = 1
        else:
            f.marks = flavour(f, r, f.enc)
        if f.fate == 'unencodable' and not f.marks:
            f.add('int odd;  // \u00e9', 'code').n = len(f.ls) + 1
        if f.fate == 'stale-line' and not any(l.role == 'code'
                                              for l in f.ls):
            f.add('int odd;', 'code').n = len(f.ls) + 1
        f.decide(.4)
        f.rep = f.report()
        if f.fate not in ('edit', 'correct', 'empty', 'none', 'missing',
                          'directory') and 'has correct' in f.rep:
            f.fate = 'none'
        if f.fate == 'correct':
            f.rep = '\n(%s has correct #includes/fwd-decls)\n' % f.name
        elif f.fate == 'empty':
            f.rep = '\n%s should add these lines:\n\n%s should remove these ' \
                'lines:\n\nThe full include-list for %s:\n---\n' % (
                    (f.name,) * 3)
        elif f.fate == 'none':
            f.rep = ''
        else:
            f.rep = broken(f, f.rep, f.fate, r)
        if '\n' not in f.text:
            f.eol = 'lf'
        f.before = encode(f.text, f.enc, f.eol)
        f.selected = True
        c.files.append(f)
        rep += f.rep + r.choice(['', '', '\n', '1 warning generated.\n'])
    c.where = 'cwd'
    k = r.random()
    if k < .2:
        c.where = r.choice(['base', 'base-rel'])
    elif k < .3:
        c.where = 'abs'
    # Selection.
    c.dry = r.random() < .2
    if c.dry:
        c.opts.append(r.choice(['-n', '--dry_run']))
    k = r.random()
    c.named = None
    pats = ['f[01]', r'\.h', 'proj/', r'\.cc$', 'nomatch', 'src/.*[cp]$',
            'deep', 'f3|f0']
    if k < .2:
        p = r.choice(pats)
        c.opts.append('--only_re=' + p)
        for f in c.files:
            f.selected &= bool(re.search(p, f.name))
    if .1 < k < .3:
        p = r.choice(pats)
        c.opts.append('--ignore_re=' + p)
        for f in c.files:
            f.selected &= not re.search(p, f.name)
    if .3 < k < .5:
        c.named = [f for f in c.files if r.random() < .5] or c.files[:1]
        for f in c.files:
            f.selected &= f in c.named
    c.report = rep
    c.upd = upd
    return r, c


def snapshot(d):
    res = {}
    for root, ds, fs in os.walk(d):
        for n in ds:
            res[os.path.relpath(os.path.join(root, n), d)] = 'dir'
        for n in fs:
            p = os.path.join(root, n)
            st = os.lstat(p)
            res[os.path.relpath(p, d)] = (open(p, 'rb').read(), st.st_mtime_ns,
                                          st.st_ino, stat.S_IMODE(st.st_mode))
    return res


def reference(f, tree, opts, cwd, rep):
    """What the fixer makes of the plain UTF-8 version of the file."""
    p = os.path.join(tree, f.name)
    open(p, 'w', newline='', encoding='utf-8').write(f.text)
    o = [x for x in opts if x not in ('-n', '--dry_run') and
         not x.startswith(('--only_re', '--ignore_re'))]
    res = pyrun.call(FIXER, o, rep, cwd)
    return open(p, newline='', encoding='utf-8').read(), res


def one(i):
    r, c = make(i)
    d = pyrun.workdir('fs')
    shutil.rmtree(d)
    os.makedirs(d)
    tree = os.path.join(d, 'tree')
    os.makedirs(tree)
    core.write_tree(tree, {'bystander.cc': '#include "q.h"\nint x;\n',
                           'src/unrelated.h': 'class A;\n'})
    for f in c.files:
        p = os.path.join(tree, f.name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if f.fate == 'directory':
            os.makedirs(p)
        elif f.fate != 'missing':
            open(p, 'wb').write(f.before)
            os.chmod(p, r.choice([0o644, 0o600, 0o755]))
    cwd, rep = tree, c.report
    names = []
    if c.named is not None:
        names = [r.choice([f.name, os.path.join(tree, f.name)])
                 for f in c.named]
    opts = list(c.opts)
    if c.where == 'base':
        cwd = d
        opts += r.choice([['--basedir=' + tree], ['-p', tree]])
        names = [os.path.join(tree, n) for n in names]
    elif c.where == 'base-rel':
        cwd = d
        opts += r.choice([['--basedir=tree'], ['-p', 'tree'], ['-p',
                                                              './tree/']])
        names = [r.choice([os.path.join(tree, n), 'tree/' + n])
                 if not n.startswith('/') else n for n in names]
    elif c.where == 'abs':
        cwd = d
        def absolute(f, rep):
            return re.sub(r'(?m)^(The full include-list for |\(?)%s( should|:'
                         r'| has)' % re.escape(f.name),
                         lambda m: m.group(1) + os.path.join(tree, f.name) +
                         m.group(2), rep)
        for f in c.files:
            rep = absolute(f, rep)
        names = [os.path.join(tree, n) for n in names]
    before = snapshot(tree)
    if i % 97 == 0:
        env = dict(os.environ, PYTHONIOENCODING='utf-8')
        p = subprocess.run([sys.executable, '-B', FIXER] + opts + names,
                           cwd=cwd, input=rep.encode(), timeout=100, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = p.stdout.decode('utf-8', 'replace')
        error = None if p.returncode in (0, 1) or c.dry and \
            p.returncode <= 100 else 'exit %d' % p.returncode
        if 'Traceback' in out:
            error = out
    else:
        res = pyrun.call(FIXER, opts + names, rep, cwd)
        out, error = res.text, res.error
    after = snapshot(tree)
    bad = []
    seen = {}
    if error:
        bad.append('the run failed: ' + error[-500:])
    else:
        for n in sorted(set(before) | set(after)):
            f = [f for f in c.files if f.name == n]
            if n not in before or n not in after:
                bad.append('%s %s' % (n, 'appeared' if n in after
                                      else 'vanished'))
                continue
            if before[n] == 'dir' or not f:
                if before[n] != after[n]:
                    bad.append('%s has nothing to do with the report but '
                               'was written' % n)
                continue
            f = f[0]
            edit = f.selected and not c.dry and f.fate == 'edit' and (
                c.upd or 'has correct' not in f.rep)
            label = '%s (%s, %s, %s%s)' % (
                n, f.fate, f.enc, f.eol, '' if f.selected else
                ', not selected')
            if c.upd and f.selected and f.fate in ('correct', 'empty'):
                continue         # this option also edits such files
            if not edit:
                seen['left'] = seen.get('left', 0) + 1
                if before[n] != after[n]:
                    bad.append(label + ' must not be written')
                continue
            seen['edited'] = seen.get('edited', 0) + 1
            want, rres = reference(
                f, tree, opts, cwd,
                absolute(f, f.rep) if c.where == 'abs' else f.rep)
            if rres.error or 'ERROR' in rres.out:
                continue
            if f.eol == 'mixed':
                bad += mixed(label, f, before[n][0], after[n][0])
                if after[n][0].replace(b'\r\n', b'\n') != encode(
                        want, f.enc, 'lf'):
                    bad.append(label + ': content differs from that of the '
                               'same file in UTF-8 with LF')
            elif after[n][0] != encode(want, f.enc, f.eol):
                bad.append(label + ': bytes differ from those of the same '
                           'edit in UTF-8 with LF')
            if before[n][3] != after[n][3]:
                bad.append(label + ': mode changed')
            seen['enc ' + f.enc] = seen.get('enc ' + f.enc, 0) + 1
            seen['eol ' + f.eol] = seen.get('eol ' + f.eol, 0) + 1
        for f in c.files:
            if not f.selected:
                seen['deselected'] = seen.get('deselected', 0) + 1
            seen['fate ' + f.fate] = seen.get('fate ' + f.fate, 0) + 1
        if c.dry:
            seen['dry'] = 1
    dump = None
    if bad:
        dump = {'report.txt': rep, 'output.txt': out}
        for n in after:
            if after[n] != 'dir':
                dump['after/' + n] = after[n][0].decode('latin-1')
                if before.get(n, 'dir') != 'dir':
                    dump['before/' + n] = before[n][0].decode('latin-1')
    shutil.rmtree(d, ignore_errors=True)
    return i, opts + names, bad, dump, seen, hash(rep)


def mixed(label, f, b, a):
    """Lines that are neither include nor declaration keep their endings."""
    def code(x):
        x = x.decode('latin-1').split('\n')
        return [l for l in x if re.match(r'(int|typedef|static|#define|#pragma'
                                         r'|using|extern|return)', l)]
    left = code(a)
    for l in code(b):
        if l in left:
            left.remove(l)
        elif l.rstrip('\r') in left or l + '\r' in left:
            return [label + ': line %r has another line ending' % l]
    return []


def main():
    c = core.Check('C24', 'distinct by report and command line; every run '
                   'compares content, mode, inode and time of every file of '
                   'a scratch tree')
    c.assumptions = ['a damaged report still has its end marker',
                     'editing is judged by C21; here the same edit must '
                     'commute with encoding and line endings']
    n = core.n_cases(20000, 400000)
    step = 20000
    for lo in range(0, n, step):
        for i, opts, bad, dump, seen, h in pyrun.pmap(
                one, range(lo, min(n, lo + step)), 16):
            for k, v in seen.items():
                c.count(k.replace(' ', '_'), v)
            c.count('runs')
            c.case(key=(h, tuple(map(os.path.basename, opts))),
                   sample='case %d: %s' % (i, ' '.join(opts)))
            if bad:
                c.violation('gen:%d' % i, '\n'.join(bad), files=dump,
                            cmd='fix_includes.py ' + ' '.join(opts))
    c.finish()


if __name__ == '__main__':
    core.main(main)
