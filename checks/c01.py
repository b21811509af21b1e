#!/usr/bin/env python3
"""C01: every used symbol is covered by the final list."""
import _path  # noqa: F401
from vf import build, core, corpus, worldcheck

CATS = {'broken', 'inc_missing', 'inc_fwdonly', 'fwd_missing'}


def main():
    c = core.Check('C01', 'a generated world or corpus program is non-trivial '
                   'when the tool produced a parsable report for it; distinct '
                   'by the set of (entity kind, use form) and layout')
    c.assumptions = ['the installed Clang 20 (with the header overlay) stands '
                     'in for the Clang the tool is written against']
    b = build.iwyu('rel')
    worldcheck.snippets(c, b, 'c01', CATS, per=core.n_cases(2, 12))
    worldcheck.batch(c, b, 'c01', core.n_cases(1500, 20000),
                     ['plain', 'assoc', 'bulky', 'direct', 'c', 'cxx11',
                      'forward', 'plain'], CATS)
    corpus.monitor(c, b, 'C01', ['inc_missing', 'fwd_missing', 'crash'])
    c.finish()


if __name__ == "__main__":
    core.main(main)
