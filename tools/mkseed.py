#!/usr/bin/env python3
"""mkseed.py: writes seeded/<id>/ (patch.diff, demo.sh, meta.json, demo*.c, env.sh) from the list in seeds.py."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from seeds import SEEDS
for s in SEEDS:
    if len(sys.argv) > 1 and s['id'] not in sys.argv[1:]:
        continue
    d = V + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    t = '/tmp/mkseed'
    shutil.rmtree(t, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', t])
    for f, old, new in s['edits']:
        p = t + '/' + f
        x = open(p).read()
        assert x.count(old) == 1, (s['id'], f, x.count(old), old)
        open(p, 'w').write(x.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', t, 'diff'], text=True))
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    shutil.copy(V + '/tools/seedlib/env.sh', d)
    shutil.copy(V + '/tools/seedlib/' + s.get('src', 'demo.c'), d)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")"; pwd)\n. "$D/env.sh"\nrc=0\n' + ''.join('run %s || { echo "rc=$?: %s"; rc=1; }\n' % (r, r.replace('"', '')) for r in s['runs']) + 'exit $rc\n')
    shutil.rmtree(t)
