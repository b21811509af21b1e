"""Checks a report against the source file it describes."""
import re

COND = re.compile(r'^\s*#\s*(if|ifdef|ifndef|elif|else|endif)\b')
INC = re.compile(r'^\s*#\s*(?:include|import|include_next)\s*'
                 r'(<[^>]*>|"[^"]*")')


def logical_lines(text):
    """[(first line, last line, text)] with continuations joined and comments
    blanked (string literals respected)."""
    out, res = [], []
    i, n = 0, len(text)
    state = None
    buf = []
    while i < n:
        ch = text[i]
        two = text[i:i + 2]
        if state is None:
            if two == '//':
                state = '//'
                buf.append('  ')
                i += 2
                continue
            if two == '/*':
                state = '/*'
                buf.append('  ')
                i += 2
                continue
            if ch in '"\'' and not _is_directive(buf):
                state = ch
            buf.append(ch)
        elif state == '//':
            if ch == '\n' and not _continued(text, i):
                state = None
            buf.append(ch if ch in '\n\\' else ' ')
        elif state == '/*':
            if two == '*/':
                state = None
                buf.append('  ')
                i += 2
                continue
            if ch == '\n':
                buf.append('\\\n' if _is_directive(buf) else '\n')
            else:
                buf.append(' ')
        else:
            if ch == '\\' and i + 1 < n:
                buf.append(two)
                i += 2
                continue
            if ch == state or ch == '\n':
                state = None
            buf.append(ch)
        i += 1
    lines = ''.join(buf).split('\n')
    k = 0
    while k < len(lines):
        first = k
        cur = lines[k]
        ends = []
        while cur.endswith('\\') and k + 1 < len(lines):
            k += 1
            cur = cur[:-1]
            ends.append(len(cur))
            cur += lines[k]
        l = Logical((first + 1, k + 1, cur))
        l.ends = ends
        res.append(l)
        k += 1
    return res


class Logical(tuple):
    def line_at(self, pos):
        """Physical line holding the character before offset pos."""
        return self[0] + sum(1 for e in self.ends if e < pos)


def _is_directive(buf):
    s = ''.join(buf[-200:])
    s = s[s.rfind('\n') + 1:]
    return re.match(r'\s*#', s) is not None


def _continued(text, i):
    return i > 0 and text[i - 1] == '\\'


class Source(object):
    def __init__(self, text):
        self.text = text
        self.lines = text.split('\n')
        self.includes = []          # (spelling, first, last)
        self.simple = True          # no conditionals besides a guard
        depth, guard = 0, False
        cond = [l for l in logical_lines(text) if COND.match(l[2])]
        body = [l for l in logical_lines(text) if l[2].strip()]
        guard = (len(cond) == 2 and body and cond[0] == body[0] and
                 re.match(r'\s*#\s*ifndef', cond[0][2]) and
                 cond[1] == body[-1])
        if cond and not guard:
            self.simple = False
        self.computed = set()       # lines of '#include MACRO'
        for ll in logical_lines(text):
            m = INC.match(ll[2])
            if m:
                self.includes.append((m.group(1), ll[0], ll.line_at(m.end(1))))
            elif re.match(r'\s*#\s*include\s*\w', ll[2]):
                self.computed.add(ll[0])

    def span(self, a, b):
        return '\n'.join(self.lines[a - 1:b])


def _order_key(spelling, quoted_first):
    if quoted_first and spelling.endswith('"'):
        return 1
    if spelling.endswith('.h>'):
        return 2
    if spelling.endswith('>'):
        return 3
    return 4


def check(rep, text, active=None, quoted_first=False, front=(),
          known_fwds=None, conserve=True, loose=False):
    """Violations of self-consistency of rep against the file's text.

    active: list of include spellings known to be live in the file (in
    order); computed when the file has no conditionals.  front: spellings that
    may come first (associated headers, precompiled headers).
    """
    bad = []
    src = Source(text)
    if rep.correct:
        return bad
    if not rep.closed:
        bad.append('report is not terminated')
    full_i, add_i, rem_i = [rep.includes(s)
                            for s in ('full', 'adds', 'removes')]
    if not rep.adds and not rep.removes and not loose:
        bad.append('report without edits is not called correct')
    written = [s for s, _, _ in src.includes]
    if any(full_i.count(s) > max(1, written.count(s)) for s in full_i) or \
            (conserve and len(set(full_i)) != len(full_i)):
        bad.append('full list repeats an include: %s' % full_i)
    fw = [l.code for l in rep.full if not l.include]
    if len(set(fw)) != len(fw):
        bad.append('full list repeats a declaration: %s' % fw)
    full_codes = {l.code for l in rep.full}
    for l in rep.adds:
        if l.code not in full_codes and l.include:
            bad.append('added line missing from the full list: %s' % l.raw)
        if l.span:
            bad.append('added line has a position: %s' % l.raw)
        if l.raw.startswith('- '):
            bad.append('added line marked as removal: %s' % l.raw)
    for l in rep.removes:
        if not l.raw.startswith('- '):
            bad.append('removal without dash: %s' % l.raw)
        if not l.span and not loose:
            bad.append('removal without line range: %s' % l.raw)
    # Where the present lines are.
    spans = {}
    by_span = {}
    for sp, a, b in src.includes:
        by_span[(a, b)] = sp
    for l in rep.removes + [x for x in rep.full if x.span]:
        if not l.span:
            continue
        a, b = l.span
        if not 1 <= a <= b <= len(src.lines):
            bad.append('line range outside the file: %s' % l.raw)
            continue
        if l.span in spans and spans[l.span] != l.code and l.include:
            bad.append('two entries claim lines %d-%d: %s / %s' % (
                a, b, spans[l.span], l.raw))
        if l in rep.removes:
            if (l.span, l.code) in by_span:
                bad.append('line removed twice: %s' % l.raw)
            by_span[(l.span, l.code)] = True
        spans[l.span] = l.code
        if l.include:
            at = by_span.get((a, b))
            if at != l.include and a not in src.computed:
                bad.append('lines %d-%d hold %r, not %s' % (
                    a, b, src.span(a, b), l.code))
        else:
            t = src.span(a, b)
            toks = re.findall(r'[A-Za-z_]\w*', l.code)
            name = [x for x in toks if x not in ('final', 'namespace')]
            nm = re.search(r'(?:class|struct|union|enum(?: class| struct)?)'
                           r'\s+(?:\w+::)*([A-Za-z_]\w*)\s*(?::[^;:{}]*)?;',
                           l.code)
            if nm and nm.group(1) not in t and '##' not in text and \
                    not re.search(r'\b[A-Z_0-9]{3,}\s*\(', t) and name:
                bad.append('lines %d-%d do not declare %s: %r' % (
                    a, b, nm.group(1), t))
    # Conservation of includes.
    if active is None and src.simple and conserve:
        active = [s for s, _, _ in src.includes]
    if active is not None:
        kept = list(full_i)
        for s in add_i:
            if s in kept:
                kept.remove(s)
        have = sorted(active)
        got = sorted(kept + rem_i)
        if have != got:
            bad.append('present %s but kept+removed is %s' % (have, got))
    if known_fwds is not None:
        add_f = rep.fwds('adds')
        kept = [c for c in rep.fwds('full') if c not in add_f]
        got = sorted(kept + rep.fwds('removes'))
        if sorted(known_fwds) != got:
            bad.append('declarations present %s but kept+removed is %s' % (
                sorted(known_fwds), got))
        for l in rep.full:
            if not l.include and l.code not in add_f and not l.span:
                bad.append('kept declaration without line range: ' + l.raw)
    # Order.
    for sec in ('adds', 'removes', 'full'):
        ls = getattr(rep, sec)
        incs = [l.include for l in ls if l.include]
        k = 0
        while k < len(incs) and incs[k] in front:
            k += 1
        keys = [(_order_key(s, quoted_first), '#include ' + s)
                for s in incs[k:] if s not in front]
        if keys != sorted(keys):
            bad.append('%s not in order: %s' % (sec, incs))
        kinds = [bool(l.include) for l in ls]
        if kinds != sorted(kinds, reverse=True):
            bad.append('%s: declarations before includes' % sec)
        codes = [l.code for l in ls if not l.include]
        if codes != sorted(codes):
            bad.append('%s: declarations not sorted: %s' % (sec, codes))
    return bad


def one_report_each(reports):
    names = [r.filename for r in reports]
    return ['several reports for %s' % n for n in sorted(set(names))
            if names.count(n) > 1]
