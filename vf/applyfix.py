"""Edits a source text as a report says, independently of fix_includes.py."""
import re

from . import consistency


def apply(text, rep):
    """The text with exactly the reported full list, or None if the report
    cannot be applied literally."""
    if rep.correct:
        return text
    src = consistency.Source(text)
    lines = text.split('\n')
    top, bottom = None, 0
    depth = 0
    guard = _guard(text)
    for ll in consistency.logical_lines(text):
        first, last, l = ll
        m = consistency.COND.match(l)
        if m:
            if first in guard:
                continue
            k = m.group(1)
            if k in ('if', 'ifdef', 'ifndef'):
                depth += 1
                if depth == 1:
                    opened, had = first, False
            elif k == 'endif':
                depth -= 1
                if depth == 0 and had:
                    bottom = last
        elif re.match(r'\s*#\s*(include|import)', l):
            if depth:
                had = True
                if top is None:
                    top = opened
            else:
                if top is None:
                    top = first
                bottom = last
    if top is None:
        top = 1
        for first, last, l in consistency.logical_lines(text):
            if first in guard or re.match(r'\s*#\s*pragma\s+once', l):
                top = last + 1
                m = re.match(r'\s*#\s*ifndef\s+(\w+)', l)
                if m:
                    for f2, l2, t2 in consistency.logical_lines(text):
                        if f2 > first and re.match(
                                r'\s*#\s*define\s+%s\b' % m.group(1), t2):
                            top = l2 + 1
                            break
                break
        bottom = top - 1
    dead = set()
    for l in rep.removes:
        if not l.span:
            return None
        dead.update(range(l.span[0], l.span[1] + 1))
    adds_i = [l.code for l in rep.adds if l.include]
    adds_f = [l.code for l in rep.adds if not l.include]
    out = []
    for n, line in enumerate(lines, 1):
        if n == top:
            out += adds_i
            if bottom < top:
                out += adds_f
        if n not in dead:
            out.append(line)
        if n == bottom and bottom >= top:
            out += adds_f
    if top > len(lines):
        out += adds_i + adds_f
    return '\n'.join(out)


def _guard(text):
    """Line numbers of an include guard's opening and closing directives."""
    ls = [l for l in consistency.logical_lines(text) if l[2].strip()]
    if len(ls) < 2 or not re.match(r'\s*#\s*ifndef\s+\w+', ls[0][2]) or \
            not re.match(r'\s*#\s*endif', ls[-1][2]):
        return set()
    return {ls[0][0], ls[-1][0]}
