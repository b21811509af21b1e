"""Stand-in analysers for iwyu_tool.py (native/standin.c)."""
import os
import subprocess

from . import core


def build():
    exe = os.path.join(core.scratch(), 'standin')
    subprocess.run(['gcc', '-O1', '-w', '-o', exe, os.path.join(
        core.VERIF, 'native', 'standin.c')], check=True)
    return exe


def plan(dir, tag, data, steps=None):
    os.makedirs(dir, exist_ok=True)
    with open(os.path.join(dir, tag + '.bin'), 'wb') as f:
        f.write(data)
    with open(os.path.join(dir, tag + '.plan'), 'w') as f:
        f.write(steps or 'o 0 %d\n' % len(data))
