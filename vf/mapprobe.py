"""Observe what the tool does with mappings, entry by entry.

A batch is one program that uses one thing from each of many headers (or many
symbols); the report tells for each of them which include it leads to.
"""
import os
import re

from . import core, report

KEYWORDS = set('''alignas alignof and asm auto bool break case catch char class
const continue default delete do double else enum explicit export extern false
float for friend goto if inline int long mutable namespace new not operator or
private protected public register return short signed sizeof static struct
switch template this throw true try typedef typeid typename union unsigned
using virtual void volatile wchar_t while xor char8_t char16_t char32_t
nullptr static_assert thread_local constexpr consteval constinit noexcept
decltype concept requires import module final override NULL'''.split())


def sample_regex(r, pattern):
    """A text the pattern matches (the constructs mapping files use)."""
    import re._parser as sp
    import re._constants as sc

    def gen(node):
        out = ''
        for op, av in node:
            if op is sc.LITERAL:
                out += chr(av)
            elif op is sc.NOT_LITERAL:
                out += 'z' if av != ord('z') else 'y'
            elif op is sc.ANY:
                out += r.choice('abcxyz_09')
            elif op is sc.IN:
                if av[0][0] is sc.NEGATE:
                    bad = set(chr(a) for o, a in av if o is sc.LITERAL)
                    out += r.choice([c for c in 'abcxyz' if c not in bad])
                else:
                    o, a = r.choice(av)
                    if o is sc.LITERAL:
                        out += chr(a)
                    elif o is sc.RANGE:
                        out += chr(r.randint(*a))
                    else:
                        out += {sc.CATEGORY_DIGIT: '7', sc.CATEGORY_WORD: 'w',
                                sc.CATEGORY_SPACE: ' '}[a]
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                for _ in range(r.randint(lo, min(lo + 3, hi))):
                    out += gen(sub)
            elif op is sc.SUBPATTERN:
                out += gen(av[3])
            elif op is sc.BRANCH:
                out += gen(r.choice(av[1]))
            elif op is sc.AT:
                pass
            else:
                raise ValueError(op)
        return out
    for _ in range(20):
        s = gen(sp.parse(pattern))
        if '<' in s[:1] and not s.endswith('>') or \
                s[:1] == '"' and not s.endswith('"'):
            s = s[:-1] + ('>' if s[0] == '<' else '"')
        if re.fullmatch(pattern, s) and re.fullmatch(
                r'<[\w+./-]+>|"[\w+./-]+"', s) and '//' not in s and \
                '..' not in s and s[1] != '/' and s[-2] not in '/.':
            return s
    return None


class Tree(object):
    """File names that can exist next to each other."""

    def __init__(self, sep='/'):
        self.sep, self.files, self.dirs = sep, set(), set()

    def add(self, name):
        parts = name.split(self.sep)
        ups = {self.sep.join(parts[:i]) for i in range(1, len(parts))}
        if name in self.files or name in self.dirs or ups & self.files:
            return False
        self.files.add(name)
        self.dirs |= ups
        return True


class Probe(object):
    """kind: header (name is the quoted include), var or macro (symbol)."""

    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.got = None

    def usable(self):
        if self.kind == 'header':
            return bool(re.fullmatch(r'<[\w+./-]+>|"[\w+./-]+"', self.name)) \
                and '..' not in self.name
        parts = self.name.split('::')
        ok = all(re.fullmatch(r'[A-Za-z_]\w*', p) and p not in KEYWORDS
                 for p in parts)
        return ok and (self.kind != 'macro' or len(parts) == 1)

    def __repr__(self):
        return '%s %s' % (self.kind, self.name)


def batches(probes, size):
    """Group probes so that no two of a group collide."""
    res = []
    for p in probes:
        for b in res[-4:]:
            if len(b[0]) < size and \
                    (p.kind == 'macro') == (b[0][0].kind == 'macro'):
                if b[1].add(p.name[1:-1]) if p.kind == 'header' else \
                        b[2].add(p.name):
                    b[0].append(p)
                    break
        else:
            b = ([p], Tree(), Tree('::'))
            if p.kind == 'header':
                b[1].add(p.name[1:-1])
            else:
                b[2].add(p.name)
            res.append(b)
    return [b[0] for b in res]


def build(probes):
    files, inc, use = {}, [], []
    for i, p in enumerate(probes):
        if p.kind == 'header':
            n = p.name[1:-1]
            files[('sys/' if p.name[0] == '<' else 'usr/') + n] = \
                'extern int vf_v%d;\n' % i
            inc.append(p.name)
            use.append('int vf_u%d() { return vf_v%d; }' % (i, i))
            continue
        h = 'vf_defs/s%d.h' % i
        parts = p.name.split('::')
        if p.kind == 'macro':
            files['usr/' + h] = '#define %s 1\n' % p.name
        else:
            files['usr/' + h] = '%sextern int %s;%s\n' % (
                ''.join('namespace %s { ' % n for n in parts[:-1]),
                parts[-1], ' }' * (len(parts) - 1))
        inc.append('"%s"' % h)
        use.append('int vf_u%d() { return %s%s; }' % (
            i, '' if p.kind == 'macro' else '::', p.name))
    files['usr/vf_all.h'] = ''.join('#include %s\n' % q for q in inc)
    files['m.cc'] = '#include "vf_all.h"\n' + '\n'.join(use) + '\n'
    return files


def run(binary, probes, args, d=None, cc=('-nostdinc',)):
    """Fill in p.got for each probe; returns (directory, result)."""
    d = d or core.newdir('p')
    core.write_tree(d, build(probes))
    cmd = [binary] + list(cc) + ['-fno-builtin', '-isystem', 'sys', '-I',
                                  'usr']
    for a in args + ['--verbose=3', '--comment_style=long',
                     '--max_line_length=100000000']:
        cmd += ['-Xiwyu', a]
    r = core.run(cmd + ['m.cc'], cwd=d, timeout=120)
    for p in probes:
        p.got = None
    if r.timeout or r.rc:
        return d, r
    try:
        rep = [x for x in report.parse(r.text) if x.filename == 'm.cc']
    except report.ParseError:
        return d, r
    if len(rep) != 1:
        return d, r
    where = {}
    for l in rep[0].full:
        for s in l.symbols or []:
            where.setdefault(s, []).append(l.include)
    for i, p in enumerate(probes):
        p.got = where.get(p.name if p.kind != 'header' else 'vf_v%d' % i, [])
    return d, r
