#!/usr/bin/env python3
"""mkseed.py <file.py>: creates and validates planted bugs.
The file defines SEEDS = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo)].
Each is applied to /repo, built, tested, its demo run with and without it; kept under /verif/seeded only when confirmed."""
import sys, os, json, subprocess, runpy, shutil, tempfile
SH = '''#!/bin/bash
# builds demo.cc against the library built in /repo (cwd) and runs it
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=gnu++17 -O1 -w -fopenmp -DHAVE_CONFIG_H -I lib -I _build/obj "$here/demo.cc" -L _build/obj/lib/.libs -lhnco -Wl,-rpath,"$PWD/_build/obj/lib/.libs" -lboost_serialization -lgmpxx -lgmp -ldl -o "$d/demo" || exit 3
timeout 200 "$d/demo"
'''
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    p = sh('bash /opt/vp/build.sh')
    return p.returncode == 0, p.stdout[-1500:]
def tests():
    sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    r = json.load(open('/tmp/seedtest.json'))
    b = json.load(open('/opt/vp/BASELINE.json'))
    want = set(b.get('stable') or b.get('passed') or b.get('tests') or [])
    got = set(r.get('passed', []))
    return want - got
def main():
    S = runpy.run_path(sys.argv[1])['SEEDS']
    only = sys.argv[2:]
    for s in S:
        if only and s['id'] not in only: continue
        d = '/verif/seeded/' + s['id']
        if not only and os.path.exists(d + '/patch.diff'): continue
        assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), 'dirty'
        tmp = tempfile.mkdtemp()
        open(tmp + '/demo.sh', 'w').write(SH)
        os.chmod(tmp + '/demo.sh', 0o755)
        open(tmp + '/demo.cc', 'w').write(s['demo'])
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
        why = None
        try:
            build()
            p = sh('bash %s/demo.sh' % tmp, cwd='/repo')
            if p.returncode: why = 'demo fails on the unchanged tree: %d %s' % (p.returncode, p.stdout[-1500:])
            else:
                for f, old, new in s['edits']:
                    t = open('/repo/' + f).read()
                    if t.count(old) != 1: why = 'edit text occurs %d times in %s' % (t.count(old), f); break
                    open('/repo/' + f, 'w').write(t.replace(old, new))
                if not why:
                    open(tmp + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
                    ok, out = build()
                    if not ok: why = 'build fails ' + out
                    else:
                        miss = tests()
                        if miss: why = 'tests fail: %s' % sorted(miss)[:5]
                        else:
                            p = sh('bash %s/demo.sh' % tmp, cwd='/repo')
                            if p.returncode == 0 or p.returncode == 3: why = 'demo rc %d with the patch %s' % (p.returncode, p.stdout[-800:])
        finally:
            sh('git -C /repo checkout -- .')
        if why: print(s['id'], 'REJECTED', why)
        else:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            print(s['id'], 'kept;', p.stdout.strip()[-150:])
        shutil.rmtree(tmp)
    build()
main()
