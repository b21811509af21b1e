#!/usr/bin/env python3
"""C11: mapping files are loaded completely or rejected loudly."""
import json
import os
import re

import _path  # noqa: F401
from vf import build, core, mapping, mapworld, report


def scalar(r, s, key=False):
    if key and r.random() < .4:
        return s
    if r.random() < .25:
        return "'%s'" % s.replace("'", "''")
    return json.dumps(s)


def style(r, entries):
    """The same entries in one of the spellings mapping files use."""
    kind = r.choice(('plain', 'plain', 'compact', 'spread', 'comments',
                     'objects'))
    out = []
    if r.random() < .3:
        out.append('# Generated; do not edit "anything" [here]')
    out.append('[')
    one = []
    for k, v in entries:
        val = scalar(r, v) if k == 'ref' else '[%s]' % (
            ', ' if kind != 'compact' else ',').join(
                x if x in ('public', 'private') and r.random() < .4
                else scalar(r, x) for x in v)
        if kind == 'spread' and k != 'ref':
            val = val.replace(', ', ',\n      ')
        one.append((scalar(r, k, True), val))
    body = []
    i = 0
    while i < len(one):
        n = r.randint(1, 3) if kind == 'objects' else 1
        # Keys of one object must differ.
        grp = [one[i]]
        names = {entries[i][0]}
        while len(grp) < n and i + len(grp) < len(one) and \
                entries[i + len(grp)][0] not in names:
            names.add(entries[i + len(grp)][0])
            grp.append(one[i + len(grp)])
        i += len(grp)
        body.append('{ %s }' % ', '.join('%s: %s' % g for g in grp))
    sep = '' if kind == 'compact' else '\n'
    for j, b in enumerate(body):
        last = j + 1 == len(body)
        line = '  ' + b + ('' if last and r.random() < .5 else ',')
        if kind == 'comments' and r.random() < .6:
            line += '  # see ] } "there"\n  # and here'
        out.append(line)
    out.append(']')
    if r.random() < .2:
        out.append('# The end')
    text = (sep if kind == 'compact' and '#' not in ''.join(out)
            else '\n').join(out)
    if r.random() < .8:
        text += '\n'
    if r.random() < .15:
        text = text.replace('\n', '\r\n')
    return text


class Files(object):
    """Entries spread over files that refer to each other."""

    def __init__(self, r, w):
        self.r, self.w = r, w
        self.files, self.order = {}, []
        dirs = ['', 'maps/', 'maps/sub/', 'other/', 'conf/deep/er/']
        n = r.choice((1, 2, 3, 3, 4, 5))
        self.names = []
        for i in range(n):
            self.names.append(r.choice(dirs) + 'f%d%s' % (i, r.choice(
                ('.imp', '.imp', '.map', '', '.x.imp'))))
        parts = [[] for _ in range(n)]
        for e in w.entries:
            r.choice(parts).append(e)
        self.tops, self.parent, self.twice = [0], {}, set()
        for i in range(1, n):
            if r.random() < .25:
                self.tops.append(i)
                continue
            p = r.randrange(i)
            self.parent[i] = p
            ref = self.spell(p, i)
            parts[p].insert(r.randint(0, len(parts[p])), ('ref', ref))
            if r.random() < .15 and p:
                # A second reference to the same file does no harm.
                g = self.parent.get(p, p)
                if g != p:
                    parts[g].append(('ref', self.spell(g, i)))
                    self.twice.add(i)
        self.parts = parts
        r.shuffle(self.tops)

    def spell(self, p, i):
        """How file p may name file i."""
        r = self.r
        here = os.path.dirname(self.names[p])
        t = self.names[i]
        forms = [t, os.path.relpath(t, here or '.'), '@ABS@/' + t, './' + t]
        # Relative to what referred to the referring file.
        g = self.parent.get(p)
        if g is not None and p not in self.twice:
            forms.append(os.path.relpath(
                t, os.path.dirname(self.names[g]) or '.'))
        f = r.choice(forms)
        # It must not find another file first; an ancestor's directory is
        # searched too.
        if not f.startswith('@ABS@'):
            look = ['']
            q = p
            while q is not None:
                look.append(os.path.dirname(self.names[q]))
                q = self.parent.get(q)
            hits = {os.path.normpath(os.path.join(d, f)) for d in look}
            if hits & set(self.names) != {os.path.normpath(t)}:
                return '@ABS@/' + t
        return f

    def write(self, d, fs):
        for n, p in zip(self.names, self.parts):
            ents = [(k, v.replace('@ABS@', d)) if k == 'ref' else (k, v)
                    for k, v in p]
            fs[n] = style(self.r, ents)
        return [self.names[i] if self.r.random() < .6 else
                os.path.join(d, self.names[i]) for i in self.tops]


def decoy(r, f, fs, w):
    """A file of the same name next to the referring file must not be taken
    when the working directory has it."""
    for i, p in f.parent.items():
        ref = [v for k, v in f.parts[p] if k == 'ref' and v == f.names[i]]
        here = os.path.dirname(f.names[p])
        if ref and here:
            n = os.path.join(here, f.names[i])
            if os.path.normpath(n) not in fs:
                fs[n] = mapworld.dump(
                    [('symbol', [s.name, 'private', '<decoy.h>', 'public'])
                     for s in w.syms])
                return True
    return False


def spoil(r, f, fs, d, w):
    """Damage one file at its end.  Returns (kind, file, texts of which one
    must be reported) or None."""
    i = r.randrange(len(f.names))
    n = f.names[i]
    text = fs[n]
    while '# see' in text:
        text = style(r, [(k, v.replace('@ABS@', d)) if k == 'ref' else (k, v)
                         for k, v in f.parts[i]])
    end = text.rindex(']')
    crlf = '\r\n' in text
    head = text[:end].rstrip()
    if head.endswith(','):
        pass
    elif not head.endswith('['):
        # The comma goes before a comment that ends the list.
        at = head.rindex('}')
        head = head[:at + 1] + ',' + head[at + 1:]
    nl = '\r\n' if crlf else '\n'
    tail = text[end:]
    good = '["<lib/zz.h>", "private", "<fac/zz.h>", "public"]'
    kinds = {
        'directive': '{ "includes": %s }' % good,
        'directive2': '{ "%s": %s }' % (r.choice(
            ('Include', 'mapping', 'ref ', 'symbols', 'include_next', '',
             'includes from here', 'x')), good),
        'three': '{ "include": ["<lib/zz.h>", "private", "<fac/zz.h>"] }',
        'five': '{ "include": ["<lib/zz.h>", "private", "<fac/zz.h>", '
                '"public", "public"] }',
        'symbol three': '{ "symbol": ["zz", "private", "<fac/zz.h>"] }',
        'symbol five': '{ "symbol": ["zz", "private", "<fac/zz.h>", "public", '
                       '"x"] }',
        'empty': '{ "include": [] }',
        'text': '{ "include": "<lib/zz.h>" }',
        'from visibility': '{ "include": ["<lib/zz.h>", "prviate", '
                           '"<fac/zz.h>", "public"] }',
        'to visibility': '{ "include": ["<lib/zz.h>", "private", '
                         '"<fac/zz.h>", "Public"] }',
        'symbol visibility': '{ "symbol": ["zz", "private", "<fac/zz.h>", '
                             '""] }',
        'unquoted to': '{ "include": ["<lib/zz.h>", "private", "fac/zz.h", '
                       '"public"] }',
        'unquoted from': '{ "include": ["lib/zz.h", "private", '
                         '"<fac/zz.h>", "public"] }',
        'half quoted': '{ "include": ["<lib/zz.h", "private", '
                       '"<fac/zz.h>", "public"] }',
        'half quoted to': '{ "include": ["<lib/zz.h>", "private", '
                          '"\\"fac/zz.h>", "public"] }',
        'symbol unquoted': '{ "symbol": ["zz", "private", "fac/zz.h", '
                           '"public"] }',
        'pattern to': '{ "include": ["<lib/zz.h>", "private", "@<fac/.*>", '
                      '"public"] }',
        'not an object': '[ "include", %s ]' % good,
        'bare': '"include"',
        'ref list': '{ "ref": ["x.imp"] }',
        'ref empty': '{ "ref": "" }',
        'ref missing': '{ "ref": "no/such.imp" }',
        'ref missing absolute': '{ "ref": "%s/no/such.imp" }' % d,
        'contradiction': '{ "include": ["<lib/zz.h>", "private", '
                         '"<fac/zz.h>", "public"] }, { "symbol": ["zz", '
                         '"private", "<fac/zz.h>", "private"] }',
        'contradiction2': '{ "include": ["<lib/zz.h>", "private", '
                          '"<lib/zz.h>", "public"] }',
        'ref self': '{ "ref": "%s/%s" }' % (d, n),
    }
    if w.dialect == 'llvm':
        kinds['regex'] = '{ "include": ["@<lib/(zz.h>", "private", ' \
            '"<fac/zz.h>", "public"] }'
        kinds['regex2'] = '{ "include": ["@<lib/[zz.h>", "private", ' \
            '"<fac/zz.h>", "public"] }'
    up = f.parent.get(i)
    if up is not None:
        kinds['ref cycle'] = '{ "ref": "%s/%s" }' % (d, f.names[up])
    syntax = ['no end', 'no comma', 'no brace', 'second list',
              'trailing text', 'truncated', 'no root', 'not a list',
              'missing file']
    kind = r.choice(sorted(kinds) + syntax)
    names = [os.path.basename(n)]
    if kind in kinds:
        fs[n] = head + nl + '  ' + kinds[kind] + nl + tail
        if 'ref missing' in kind:
            names = ['no/such.imp']
        elif kind == 'ref cycle':
            names = [os.path.basename(f.names[up])]
        return kind, names, None
    if kind == 'no end':
        fs[n] = text[:end]
    elif kind == 'no comma':
        fs[n] = head + nl + '  { "include": %s } { "include": %s }' % (
            good, good) + nl + tail
    elif kind == 'no brace':
        fs[n] = head + nl + '  { "include": %s' % good + nl + tail
    elif kind == 'second list':
        fs[n] = text[:end] + ']' + nl + '[' + nl + '  { "include": %s }' % \
            good + nl + ']' + nl
    elif kind == 'trailing text':
        fs[n] = text[:end] + '] and more' + nl
    elif kind == 'truncated':
        # Inside an entry that is not needed otherwise.
        e = '  { "include": %s },' % good
        fs[n] = head + nl + e[:r.randint(4, len(e) - 4)]
    elif kind == 'missing file':
        fs.pop(n)
        return kind, [os.path.basename(n)], i
    elif kind == 'no root':
        fs[n] = '# nothing' + nl
        return kind, names, i
    else:
        fs[n] = '{ "include": %s }' % good + nl
        return kind, names, i
    return kind, names, None


def fuzz(r, text):
    """Small textual accidents."""
    out = list(text)
    for _ in range(r.choice((1, 1, 2, 4))):
        if not out:
            break
        i = r.randrange(len(out))
        k = r.randrange(4)
        if k == 0:
            j = min(len(out), i + r.choice((1, 1, 2, 9, 40)))
            del out[i:j]
        elif k == 1:
            out.insert(i, r.choice('[]{}",:#<> @\n\'x'))
        elif k == 2:
            out[i] = r.choice('[]{}",:#<> @\n\'x')
        else:
            j = r.randrange(len(out))
            out[i], out[j] = out[j], out[i]
    return ''.join(out)


def dubious(text):
    """Whether some wildcard in a damaged file is not a regex."""
    for m in re.finditer(r'@((?:\\.|[^"\\\n])*)', text):
        try:
            re.compile(m.group(1).replace('\\\\', '\\'))
        except re.error:
            return True
        if '{' in m.group(1):
            return True
    return False


def main():
    ck = core.Check('C11', 'mapping entries spread over files in all accepted '
                    'spellings, with nested references; their effect is '
                    'compared with a reference resolver, and damaged files '
                    'must be named in a diagnostic without losing the rest')
    binary = build.iwyu('rel')

    def one(i):
        r = core.rng('C11', i)
        mode = r.choice(('good', 'good', 'bad', 'bad', 'bad', 'fuzz'))
        w = mapworld.World(r)
        d = core.newdir('m')
        fs = w.files()
        f = Files(r, w)
        maps = f.write(d, fs)
        lost, names, kind = None, [], ''
        if mode == 'good' and r.random() < .3 and decoy(r, f, fs, w):
            ck.count('decoys')
        if mode == 'bad':
            if r.random() < .05:
                maps.insert(r.randint(0, len(maps)), 'nowhere/none.imp')
                kind, names = 'missing option', ['nowhere/none.imp']
            else:
                kind, names, lost = spoil(r, f, fs, d, w)
        if mode == 'fuzz':
            n = r.choice(f.names)
            fs[n] = fuzz(r, fs[n])
        core.write_tree(d, fs)
        if mode == 'good' and r.random() < .2 and len(f.names) > 1:
            # A path through a symbolic link.
            os.symlink('.', os.path.join(d, 'lnk'))
            maps = [m if m.startswith('/') else 'lnk/' + m for m in maps]
            ck.count('links')
        cmd = mapworld.command(binary, w, maps)
        res = core.run(cmd, cwd=d, timeout=30)
        tag = '%s-%d' % ((kind or mode).replace(' ', '-'), i)

        def bad(text):
            ck.violation(tag, '%s\n\n%s\n%s' % (text, '\n'.join(
                '== %s\n%s' % (n, fs.get(n, '(missing)')) for n in f.names),
                res.text[-3000:]), tree=d, cmd=cmd)
        try:
            if res.timeout:
                # A single small run takes milliseconds; it was retried.
                bad('did not finish within two minutes')
                return
            if res.rc == -6 and mode == 'fuzz' and \
                    w.dialect == 'ecmascript' and '@' in fs[n] and (
                        'std::regex_error' in res.text or
                        dubious(fs[n])):
                ck.violation('ecmascript-regex', res.text[-1000:], tree=d,
                             cmd=cmd)
                return
            if res.rc != 0:
                bad('exit status %s' % res.rc)
                return
            try:
                reports = report.parse(res.text)
            except report.ParseError as e:
                if mode == 'fuzz':
                    ck.count('fuzz unparsed')
                    return
                bad('report: %s' % e)
                return
            said = [l for l in res.text.splitlines() if
                    'error:' in l or 'Cannot open mapping file' in l or
                    'refers to itself' in l]
            ck.count(mode)
            if mode == 'good' and said:
                bad('complaint about well-formed files: %s' % said[:3])
                return
            if mode == 'bad':
                ck.count('bad ' + kind)
                if not any(n in l for n in names for l in said):
                    bad('%s: no message names %s' % (kind, names))
                    return
            if mode == 'fuzz':
                ck.count('fuzz complaint' if said else 'fuzz silent')
                ck.case((i, bool(said)))
                return
            if lost is not None:
                # The entries of this file and of those it refers to.
                gone = {lost}
                for j in range(len(f.names)):
                    if f.parent.get(j) in gone and not any(
                            f.names[j] == os.path.normpath(os.path.join(
                                os.path.dirname(f.names[p]), v)) or
                            v.endswith(f.names[j])
                            for p in range(len(f.names)) if p not in gone
                            for k, v in f.parts[p] if k == 'ref'):
                        gone.add(j)
                w.model = mapping.Model(
                    [e for j, p in enumerate(f.parts) if j not in gone
                     for e in p if e[0] != 'ref'], w.seen)
                if len(gone) > 1:
                    ck.count('unreachable files')
            out = []
            seen = mapworld.judge(w, reports, lambda k, t: out.append((k, t)))
            for k, n in seen.items():
                ck.count(k, n)
            ck.case((i, mode, kind, sorted(seen.items())) if seen else None,
                    'case %d: %s %s, files %s' % (i, mode, kind, f.names))
            if out:
                bad('\n'.join('%s: %s' % o for o in out))
        finally:
            core.rmtree(d)
    d = core.newdir('m')
    core.write_tree(d, {'m.cc': '#include "x.h"\nint i = v;\n',
                        'x.h': 'extern int v;\n', 'bad.imp':
                        '[{ "include": ["@\\"(x.h\\"", "private", '
                        '"<x>", "public"] }]\n'})
    cmd = [binary, '-Xiwyu', '--mapping_file=bad.imp', '-Xiwyu',
           '--regex=ecmascript', 'm.cc']
    res = core.run(cmd, cwd=d)
    ck.case('ecmascript')
    if res.rc != 0 or 'bad.imp' not in res.text:
        ck.violation('ecmascript-regex', 'status %s\n%s' % (
            res.rc, res.text[-1000:]), tree=d, cmd=cmd)
    core.pmap(one, range(core.n_cases(1500, 30000)))
    ck.finish()


core.main(main)
