#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE <spec: python file defining OLD, NEW, NEEDS,
BREAKS, DEMO[, EXTRA={name: text}]>: create /verif/seeded/ID."""
import json, os, subprocess, sys, tempfile, shutil
id, prop, spec = sys.argv[1:4]
ns = {}
exec(open(spec).read(), ns)
d = '/verif/seeded/' + id
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp()
edits = ns.get('EDITS') or [(ns['FILE'], ns['OLD'], ns['NEW'])]
for f, old, new in edits:
    for side in 'ab':
        os.makedirs(os.path.join(w, side, os.path.dirname(f)), exist_ok=True)
        p = os.path.join(w, side, f)
        if not os.path.exists(p):
            shutil.copy('/repo/' + f, p)
    p = os.path.join(w, 'b', f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a', 'b'],
                   cwd=w, capture_output=True, text=True)
open(d + '/patch.diff', 'w').write(r.stdout)
open(d + '/demo.sh', 'w').write(ns['DEMO'])
for n, t in ns.get('EXTRA', {}).items():
    open(os.path.join(d, n), 'w').write(t)
json.dump({'property': prop, 'needs': ns['NEEDS'],
           'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'),
          indent=1)
shutil.rmtree(w)
