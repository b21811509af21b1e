"""Mapping files: an independent reader and a reference resolver.

The resolver states what docs/IWYUMappings.md promises: an include mapping
says that anything reachable from its left side may be had from its right
side, visibility decides which of those may be suggested, and a symbol mapping
overrides the place of definition.
"""
import os
import re


class Bad(Exception):
    pass


TOK = re.compile(r'''\s+|\#[^\n]*|(?P<p>[\[\]{},:])
    |"(?P<d>(?:[^"\\]|\\.)*)"|'(?P<s>(?:[^']|'')*)'
    |(?P<b>[^\s\[\]{},:#"'][^\[\]{},:#\n]*)''', re.X)
ESC = {'n': '\n', 't': '\t', '"': '"', '\\': '\\', '/': '/', 'r': '\r'}


def tokens(text):
    at, res = 0, []
    while at < len(text):
        m = TOK.match(text, at)
        if not m:
            raise Bad('at offset %d: %r' % (at, text[at:at + 30]))
        at = m.end()
        if m.group('p'):
            res.append(('p', m.group('p')))
        elif m.group('d') is not None:
            def esc(e):
                if e.group(1) not in ESC:
                    raise Bad('escape \\' + e.group(1))
                return ESC[e.group(1)]
            res.append(('s', re.sub(r'\\(.)', esc, m.group('d'))))
        elif m.group('s') is not None:
            res.append(('s', m.group('s').replace("''", "'")))
        elif m.group('b') is not None:
            res.append(('s', m.group('b').strip()))
    return res


def parse(text):
    """List of (directive, value) of a well-formed mapping text."""
    tok = tokens(text)
    pos = [0]

    def peek(p):
        return pos[0] < len(tok) and tok[pos[0]] == ('p', p)

    def need(p):
        if not peek(p):
            raise Bad('expected %s at token %d: %r' % (
                p, pos[0], tok[pos[0]:pos[0] + 3]))
        pos[0] += 1

    def value():
        if peek('['):
            need('[')
            res = []
            while not peek(']'):
                res.append(value())
                if not peek(']'):
                    need(',')
            need(']')
            return res
        if peek('{'):
            need('{')
            res = []
            while not peek('}'):
                k = value()
                need(':')
                res.append((k, value()))
                if not peek('}'):
                    need(',')
            need('}')
            return res
        if pos[0] >= len(tok) or tok[pos[0]][0] != 's':
            raise Bad('value at token %d' % pos[0])
        pos[0] += 1
        return tok[pos[0] - 1][1]
    root = value()
    if pos[0] != len(tok):
        raise Bad('text after the list')
    if not isinstance(root, list):
        raise Bad('not a list')
    res = []
    for item in root:
        if not isinstance(item, list) or not item:
            raise Bad('entry %r' % (item,))
        for k, v in item:
            if k in ('include', 'symbol'):
                if len(v) != 4 or v[3] not in ('public', 'private') or \
                        not quoted(v[2]):
                    raise Bad('entry %r' % (v,))
                if k == 'include' and (v[1] not in ('public', 'private') or
                                       not (quoted(v[0]) or
                                            v[0].startswith('@'))):
                    raise Bad('entry %r' % (v,))
            elif k != 'ref' or not v or not isinstance(v, str):
                raise Bad('directive %r' % (k,))
            res.append((k, v))
    return res


def quoted(s):
    return len(s) >= 3 and (s[0] + s[-1] in ('""', '<>'))


def load(path, seen=()):
    """Entries of a file with its references expanded in place."""
    path = os.path.realpath(path)
    if path in seen:
        raise Bad('reference cycle')
    res = []
    for k, v in parse(open(path, encoding='utf-8').read()):
        if k == 'ref':
            res += load(os.path.join(os.path.dirname(path), v),
                        seen + (path,))
        else:
            res.append((k, v))
    return res


class Model(object):
    """What a set of entries means for a set of headers seen in a run."""

    def __init__(self, entries, seen=()):
        self.edges, self.vis, self.symbols = {}, {}, {}
        self.conflicts = []
        self.regex = {}
        for kind, v in entries:
            if kind == 'include':
                self.mark(v[0], v[1])
                self.mark(v[2], v[3])
                if v[0].startswith('@'):
                    self.regex.setdefault(v[0], []).append(v[2])
                else:
                    self.edge(v[0], v[2])
            else:
                self.mark(v[2], v[3])
                self.symbols.setdefault(v[0], []).append(v[2])
        for h in seen:
            self.see(h)

    def mark(self, key, vis):
        if self.vis.setdefault(key, vis) != vis:
            self.conflicts.append((key, self.vis[key], vis))

    def edge(self, a, b):
        if b not in self.edges.setdefault(a, []):
            self.edges[a].append(b)

    def see(self, header):
        for key, targets in self.regex.items():
            m = re.fullmatch(key[1:], header)
            if m and header not in targets:
                for t in targets:
                    self.edge(header, re.sub(
                        r'[\\$](\d)', lambda g: m.group(int(g.group(1))) or '',
                        t))
                self.mark(header, self.vis[key])

    def reach(self, starts):
        res, work = [], list(starts)
        while work:
            h = work.pop(0)
            if h not in res:
                res.append(h)
                work += self.edges.get(h, [])
        return res

    def public(self, h):
        return self.vis.get(h, 'public') == 'public'

    def headers(self, header):
        """Headers that may be suggested for something defined in header."""
        res = [h for h in self.reach(self.edges.get(header, []))
               if self.public(h) and h != header]
        if self.public(header) or not res:
            res.insert(0, header)
        return res

    def symbol(self, name):
        """Headers a symbol mapping gives; empty if there is none."""
        return [h for h in self.reach(self.symbols.get(name, []))
                if self.public(h)]
