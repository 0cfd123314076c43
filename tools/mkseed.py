#!/usr/bin/env python3
"""mkseed.py SPEC.py... : turn bug descriptions into seeded/<id>/ after confirming them in a scratch copy.

A spec is a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (text of demo.sh) and FILES={name: text}.
It is kept only when it builds, passes the stable tests, and the demo tells the two trees apart."""
import json, os, shutil, subprocess, sys, tempfile
SCR = '/tmp/seedscratch'
COMMON_C = '''#!/bin/bash
# builds demo.c against the library sources of the tree it runs in
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -g -w -std=gnu99 -D_GNU_SOURCE -DHAVE_CONFIG_H -fsanitize=address,undefined -fno-sanitize-recover=undefined -I_build -I_build/src -Isrc "$d/demo.c" %s -lm -lpthread -o "$t/demo"
export ASAN_OPTIONS=detect_leaks=0 TZ=UTC
cd "$t" && timeout 120 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def sources(dirs):
    return ' '.join('$(ls src/%s/*.c | grep -v /main.c)' % d for d in dirs)
def scratch():
    if not os.path.exists(SCR):
        subprocess.check_call(['cp', '-a', '/repo', SCR])
def main(spec):
    ns = {'sources': sources}
    exec(open(spec).read(), ns)
    ID = ns['ID']
    d = '/verif/seeded/' + ID
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    scratch()
    sh('git -C /repo diff --quiet') 
    sh('cd %s && git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD' % SCR)
    for f, old, new in ns['EDITS']:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(ID, 'EDIT does not match uniquely:', f, s.count(old)); shutil.rmtree(d); return False
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git -C %s diff' % SCR).stdout
    open(d + '/patch.diff', 'w').write(diff)
    if 'DEMO' in ns:
        open(d + '/demo.sh', 'w').write(ns['DEMO'])
    else:
        open(d + '/demo.sh', 'w').write(COMMON_C % sources(ns['LINK']))
    os.chmod(d + '/demo.sh', 0o755)
    for n, t in ns.get('FILES', {}).items():
        open(os.path.join(d, n), 'w').write(t)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    base = sh('cd /repo && bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo.sh' % d)
    ok = True
    if base.returncode != 0:
        print(ID, 'demo fails on the unchanged tree:', base.stdout[-800:], base.stderr[-1500:]); ok = False
    # build and test the changed tree in place of /repo (the build scripts name /repo): apply, run, undo
    if ok:
        a = sh('git -C /repo apply %s/patch.diff' % d)
        try:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                print(ID, 'does not build', b.stdout[-1500:], b.stderr[-500:]); ok = False
            else:
                c = sh('cd /repo && bash %s/demo.sh' % d)
                if c.returncode == 0:
                    print(ID, 'demo does not notice the change'); ok = False
                t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
                R = json.load(open('/tmp/seedtest.json')); BL = json.load(open('/opt/vp/BASELINE.json'))
                stable = BL.get('stable') or BL.get('passed') or BL.get('tests')
                bad = [x for x in stable if x not in R['passed']]
                if bad:
                    print(ID, 'existing tests notice:', bad[:4]); ok = False
                demo = (c.stdout + c.stderr)[-200:]
        finally:
            sh('git -C /repo checkout -q -- . && bash /opt/vp/build.sh')
    if not ok:
        os.makedirs('/tmp/seedfail', exist_ok=True)
        shutil.rmtree('/tmp/seedfail/' + ID, ignore_errors=True)
        shutil.move(d, '/tmp/seedfail/' + ID)
    else:
        print(ID, 'kept; demo with change says:', demo.strip()[-150:])
    return ok
if __name__ == '__main__':
    for s in sys.argv[1:]:
        main(s)
