#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SPEC.py : makes /verif/seeded/ID from a spec file that defines
edits=[(file, old, new)], demo (C++ text), needs, breaks, optional: sources, flags; verifies it in a scratch copy of /repo."""
import os, sys, json, subprocess, shutil, runpy, tempfile
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def make(id, s):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed')
    sh('cp -a /repo/. %s' % w)
    try:
        for f, o, n in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(o) == 1, (f, o, t.count(o))
            open(p, 'w').write(t.replace(o, n))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % w).stdout)
        open(d + '/demo.cpp', 'w').write(s['demo'])
        fl = s.get('flags', '') ; src = ' '.join('"$R/%s"' % x for x in s.get('sources', []))
        std = s.get('std', 17)
        inc = ''
        if s.get('ros'):
            shutil.rmtree(d + '/ros', ignore_errors=True)
            shutil.copytree('/verif/stubs/ros', d + '/ros')
            import importlib; sys.path.insert(0, '/verif')
            check = importlib.import_module('check'); check.gen_cfg(d + '/ros')
            inc = '-I"$H/ros" ' + ' '.join('-I"$R/%s"' % x for x in check.INC['all']) + ' -I"$R" '
        open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository; exit 0 when the property holds for the case below
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
g++ -std=c++%d -O1 -g -w %s %s-I"$R/planner_cspace/include" -I"$R/trajectory_tracker/include" -I"$R/track_odometry/include" -I/usr/include/eigen3 \\
  "$H/demo.cpp" %s -fopenmp -lboost_chrono -lboost_system -lpthread -o "$T/demo" || exit 3
timeout 60 "$T/demo"
''' % (std, fl, inc, src))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo')
        b = sh('bash %s/demo.sh' % d, cwd=w)
        # the build scripts name /repo: run the tests with the patch applied there
        assert sh('git -C /repo status --porcelain').stdout == ''
        sh('git -C /repo apply %s/patch.diff' % d)
        t = sh('bash /opt/vp/test.sh /tmp/seedt.json')
        sh('git -C /repo checkout -- .')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        got = json.load(open('/tmp/seedt.json'))
        miss = base - set(got['passed'])
        print(id, 'demo clean', a.returncode, 'patched', b.returncode, 'tests missing', sorted(miss), 'failed', got['failed'], 'build ok' if got['passed'] else t.stdout[-800:])
        if a.returncode: print(a.stdout[-1500:])
        if b.returncode == 3: print(b.stdout[-1500:])
    finally:
        shutil.rmtree(w)
if __name__ == '__main__':
    S = runpy.run_path(sys.argv[1])['SEEDS']
    for k, s in S.items():
        if len(sys.argv) < 3 or k in sys.argv[2:]: make(k, s)
