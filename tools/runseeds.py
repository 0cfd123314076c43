#!/usr/bin/env python3
"""runseeds.py [ID...]: apply each planted bug to /repo, run its property's check, undo; prints caught/missed."""
import json, os, subprocess, sys, time
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    d = '/verif/seeded/' + i
    m = json.load(open(d + '/meta.json'))
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    t = time.time()
    try:
        r = subprocess.run(['python3-vt', 'check.py', m['property']], cwd='/verif', capture_output=True, text=True)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    ob = [l for l in r.stdout.split('\n') if l.startswith('obligation')]
    print('%-32s %s exit %d %s %.0fs %s' % (i, m['property'], r.returncode, ('CAUGHT' if r.returncode == 1 and v else 'MISSED') + (' (nfif)' if v and 'no-failing' in v[0] else ''), time.time() - t, ob[:1] + ([] if v else [r.stderr[-300:]])), flush=True)
