#!/usr/bin/env python3
"""Applies planted bugs to /repo one after the other and runs the check of their property.
   catch.py [id ...]   results are appended to work/caught.txt"""
import json, os, subprocess, sys
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--porcelain'])
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--whitespace=nowarn', d + '/patch.diff'])
    try:
        r = subprocess.run(['python3', 'check.py', m['property'], 'quick'], cwd='/verif', capture_output=True, text=True, timeout=1500, env=dict(os.environ, VERIF_SEED='1'))
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    n = r.stdout.count('VIOLATION property=%s' % m['property'])
    l = '%s %s %s rc=%d' % ('caught' if r.returncode == 1 and n else 'MISSED', i, m['property'], r.returncode)
    print(l, flush=True)
    open('/verif/work/caught.txt', 'a').write(l + '\n')
