"""Make planted bugs: mkseed.py [id...]  (specs in seeds.py). Applies each to
/repo, confirms build, stable tests and demo, writes seeded/<id>/, undoes it."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the property holds on /repo (cwd), non-zero when the demonstration fails
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp="$(mktemp -d)"
mod="$PWD/%(mod)s"
cp "$mod/go.mod" "$tmp/go.mod"
[ -f "$mod/go.sum" ] && cp "$mod/go.sum" "$tmp/go.sum"
printf '{"Replace":{"%%s":"%%s"%(extra)s}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
sed -i "s|@REPO@|$PWD|g" "$tmp/overlay.json"
cd "$mod" || exit 3
export GOFLAGS="-mod=mod -modfile=$tmp/go.mod"
exec timeout 200 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestZZDemo$' "%(rel)s"
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def stable_ok():
    sh('bash /opt/vp/build.sh')
    sh('bash /opt/vp/test.sh /tmp/seed_out.json')
    r = json.load(open('/tmp/seed_out.json'))
    want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set(r.get('passed', r if isinstance(r, list) else []))
    return want <= passed, want - passed
def make(s):
    d = os.path.join(ROOT, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    pkg = s['pkg']; mod = 'nurbs' if pkg == 'nurbs' else '.'
    rel = '.' if pkg == 'nurbs' else './' + pkg
    extra = ''
    if pkg == 'triangulate3':
        extra = ',"@REPO@/triangulate3/englober_test.go":""'
    open(d + '/demo.sh', 'w').write(DEMO % dict(mod=mod, pkg=pkg, rel=rel, extra=extra))
    open(d + '/demo_test.go', 'w').write(s['demo'])
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
    assert sh('git -C /repo status --short').stdout == '', 'repo dirty'
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode != 0:
        print(s['id'], 'DEMO FAILS ON CLEAN TREE'); print(r.stdout[-1500:]); return False
    try:
        for f, a, b in s['edits']:
            t = open('/repo/' + f).read()
            assert t.count(a) == 1, (s['id'], f, a, t.count(a))
            open('/repo/' + f, 'w').write(t.replace(a, b))
        diff = sh('git -C /repo diff').stdout
        open(d + '/patch.diff', 'w').write(diff)
        import re
        for f in {e[0] for e in s['edits']}:
            bl = {}
            for ln, l in enumerate(sh('git -C /repo blame -s HEAD -- ' + f).stdout.splitlines(), 1):
                bl[ln] = l.startswith('^')
            cur = 0
            for l in sh('git -C /repo diff -U0 -- ' + f).stdout.splitlines():
                m = re.match(r'@@ -(\d+)', l)
                if m: cur = int(m.group(1))
                elif l.startswith('-') and not l.startswith('---'):
                    if not bl.get(cur): print(s['id'], 'WARNING: changes a line that is not original:', l)
                    cur += 1
        ok, miss = stable_ok()
        if not ok:
            print(s['id'], 'STABLE TESTS FAIL', miss); return False
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode == 0 or 'build failed' in r.stdout or 'setup failed' in r.stdout:
            print(s['id'], 'DEMO DOES NOT FAIL WITH PATCH' if r.returncode == 0 else 'BUILD'); print(r.stdout[-1500:]); return False
        c = sh('bash %s/check.sh %s' % (ROOT, s['prop']))
        R = ROOT + '/gen/seed_results.json'
        db = json.load(open(R)) if os.path.exists(R) else {}
        db[s['id']] = dict(prop=s['prop'], result='caught' if c.returncode == 1 and 'VIOLATION property=' + s['prop'] in c.stdout else 'not caught (undecided)' if ' 0 undecided' not in c.stdout else 'not caught')
        json.dump(db, open(R, 'w'), indent=1, sort_keys=True)
        print(s['id'], s['prop'], 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + s['prop'] in c.stdout else 'MISSED rc=%d' % c.returncode)
        if c.returncode != 1 or '-v' in sys.argv: print(c.stdout[-1500:])
    finally:
        sh('git -C /repo checkout -- .')
    return True
if __name__ == '__main__':
    ids = [a for a in sys.argv[1:] if not a.startswith('-')]
    for s in SEEDS:
        if not ids or s['id'] in ids or any(s['id'].startswith(i) for i in ids):
            make(s)
