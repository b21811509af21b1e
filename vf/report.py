"""Independent parser for include-what-you-use reports."""
import re


class Line(object):
    """One line of a report section."""

    def __init__(self, raw):
        self.raw = raw
        body = raw
        if body.startswith('- '):
            body = body[2:]
        m = re.match(r'(.*?)\s*(//.*|/\*.*\*/\s*)?$', body)
        # Includes never contain a comment opener in the generated worlds.
        self.code = m.group(1).rstrip()
        self.comment = (m.group(2) or '').strip()
        c = re.match(r'(?:// |/\* )lines (\d+)-(\d+)', self.comment)
        self.span = (int(c.group(1)), int(c.group(2))) if c else None
        m = re.match(r'#include (\S.*)$', self.code)
        self.include = m.group(1) if m else None
        self.symbols = None
        w = re.search(r'(?:// |/\* |^)for (.*?)(?: \*/)?$', self.comment)
        if w:
            self.symbols = [s.strip() for s in w.group(1).split(', ')]

    def __repr__(self):
        return 'Line(%r)' % self.raw


class Report(object):
    def __init__(self, filename):
        self.filename = filename
        self.correct = False
        self.adds, self.removes, self.full = [], [], []
        self.closed = False

    def includes(self, section='full'):
        return [l.include for l in getattr(self, section) if l.include]

    def fwds(self, section='full'):
        return [l.code for l in getattr(self, section) if not l.include]


class ParseError(Exception):
    pass


ADD = re.compile(r'^(.*) should add these lines:$')
REM = re.compile(r'^(.*) should remove these lines:$')
FULL = re.compile(r'^The full include-list for (.*):$')
OK = re.compile(r'^\((.*) has correct #includes/fwd-decls\)$')


def parse(text):
    """Return a list of Reports in order of appearance (strict)."""
    res, cur, sect = [], None, None
    for line in text.split('\n'):
        m = OK.match(line)
        if m:
            if cur:
                raise ParseError('report inside report: ' + line)
            r = Report(m.group(1))
            r.correct = r.closed = True
            res.append(r)
            continue
        m = ADD.match(line)
        if m:
            if cur:
                raise ParseError('nested report: ' + line)
            cur = Report(m.group(1))
            sect = cur.adds
            res.append(cur)
            continue
        m = REM.match(line)
        if m:
            if not cur or cur.filename != m.group(1) or sect is not cur.adds:
                raise ParseError('misplaced: ' + line)
            sect = cur.removes
            continue
        m = FULL.match(line)
        if m:
            if not cur or cur.filename != m.group(1) or \
                    sect is not cur.removes:
                raise ParseError('misplaced: ' + line)
            sect = cur.full
            continue
        if line == '---':
            if not cur or sect is not cur.full:
                raise ParseError('misplaced ---')
            cur.closed = True
            cur = sect = None
            continue
        if cur is not None and line.strip():
            sect.append(Line(line))
    if cur:
        raise ParseError('unterminated report for ' + cur.filename)
    return res


def norm_fwd(code):
    return re.sub(r'\s+', ' ', code.strip())
