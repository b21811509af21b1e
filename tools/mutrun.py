#!/usr/bin/env python3
"""mutrun.py SPEC.py CHECK...: try small changes on a scratch copy of /repo.

SPEC.py defines MUTANTS = [(name, file, old, new), ...]; each is applied alone
to a copy and the checks are run against it (VERIF_REPO)."""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = os.environ.get('ONLY', '').split()
top = tempfile.mkdtemp(prefix='mut-')
repo = os.path.join(top, 'repo')
subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
try:
    for name, f, old, new in ns['MUTANTS']:
        if only and name not in only:
            continue
        p = os.path.join(repo, f)
        text = open(p).read()
        if text.count(old) != 1:
            print('%-28s %d occurrences' % (name, text.count(old)))
            continue
        open(p, 'w').write(text.replace(old, new))
        res = []
        for c in sys.argv[2:]:
            e = dict(os.environ, VERIF_REPO=repo)
            q = subprocess.run(
                [sys.executable, os.path.join(VERIF, 'checks/%s.py' % c)],
                env=e, capture_output=True, text=True)
            key = [l.strip() for l in q.stdout.splitlines()
                   if l.startswith('  key:')]
            res.append('%s rc=%d %d %s%s' % (
                c, q.returncode, len(key), key[:3],
                '' if q.returncode in (0, 1) else
                (q.stdout + q.stderr)[-600:]))
        print('%-28s %s' % (name, '; '.join(res)), flush=True)
        open(p, 'w').write(text)
finally:
    shutil.rmtree(top)
