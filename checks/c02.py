#!/usr/bin/env python3
"""C02: superfluous includes and declarations go, nothing unused comes."""
import _path  # noqa: F401
from vf import build, core, corpus, worldcheck

CATS = {'broken', 'inc_unused', 'fwd_unused', 'dup'}


def main():
    c = core.Check('C02', 'a generated world or corpus program is non-trivial '
                   'when the tool produced a parsable report for it; distinct '
                   'by the set of (entity kind, use form) and layout')
    b = build.iwyu('rel')
    worldcheck.batch(c, b, 'c02', core.n_cases(2000, 24000),
                     ['lean', 'direct', 'plain', 'lean', 'c', 'assoc',
                      'forward', 'bulky'], CATS)
    worldcheck.snippets(c, b, 'c02', CATS)
    corpus.monitor(c, b, 'C02', ['inc_extra', 'fwd_extra', 'crash'])
    c.finish()


if __name__ == "__main__":
    core.main(main)
