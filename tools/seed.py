#!/usr/bin/env python3
"""Development aid: builds /verif/seeded/<id>/ from tools/seeds/*.py (S = [dict(id, prop, needs,
breaks, edits=[(file, old, new)...], pkg, test)]), checking in scratch copies that the change
applies to original lines, builds, passes the stable tests, and that the demonstration passes
without it and fails with it.   usage: seed.py [-k substring]"""
import os, sys, json, glob, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=readonly', GOPROXY='off')
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# run with cwd = the repository; passes when the property holds
export GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=readonly GOPROXY=off
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
printf '{"Replace":{"%%s/%(pkg)s/seed_demo_test.go":"%%s/demo_test.go"}}' "$repo" "$here" > "$tmp/overlay.json"
cd "$repo/%(mod)s" || exit 2
go test -short -vet=off -overlay "$tmp/overlay.json" -count=1 -timeout 120s -run '^TestSeedDemo$' %(rel)s
rc=$?
rm -f "$tmp/overlay.json"
rmdir "$tmp"
exit $rc
'''
def sh(c, cwd, t=600):
    return subprocess.run(c, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
def one(s):
    sid = s['id']
    out = '/verif/seeded/'+sid
    d = tempfile.mkdtemp(prefix='seed-')
    try:
        for n in ('clean', 'bug'):
            shutil.copytree('/repo', d+'/'+n, symlinks=True)
        for f, o, n in s['edits']:
            p = d+'/bug/'+f
            t = open(p).read()
            if t.count(o) < 1: return sid, 'STALE '+f+': '+o[:60]
            open(p, 'w').write(t.replace(o, n, 1))
        diff = sh(['git', 'diff'], d+'/bug').stdout
        # removed lines must be original
        for f in sorted({e[0] for e in s['edits']}):
            bl = sh(['git', 'blame', '-s', '-l', 'HEAD', '--', f], d+'/clean').stdout.splitlines()
            cur = open(d+'/clean/'+f).read().splitlines()
            new = open(d+'/bug/'+f).read().splitlines()
            import difflib
            orig = 0
            for tag, i1, i2, j1, j2 in difflib.SequenceMatcher(None, cur, new, False).get_opcodes():
                if tag == 'equal': continue
                for i in range(i1, i2):
                    if bl[i].lstrip('^')[:39] == BASE[:39]: orig += 1
                    elif cur[i].strip(): return sid, 'NOTORIGINAL %s:%d %s' % (f, i+1, cur[i].strip())
                if i1 == i2: orig += 1
            if not orig: return sid, 'no original lines'
        for m in ('msk', 'streams'):
            b = sh(['go', 'build', './...'], d+'/bug/'+m)
            if b.returncode: return sid, 'NOBUILD '+b.stderr[:300]
        passed = set()
        for m in ('msk', 'streams'):
            for l in sh(['go', 'test', '-json', '-short', '-vet=off', '-count=1', '-timeout', '5m', './...'], d+'/bug/'+m).stdout.splitlines():
                try: e = json.loads(l)
                except ValueError: continue
                if e.get('Test') and e.get('Action') == 'pass': passed.add(e['Package']+'/'+e['Test'])
        if STABLE-passed: return sid, 'TESTSFAIL '+str(sorted(STABLE-passed))
        h = d+'/demo'
        os.mkdir(h)
        mod = s['pkg'].split('/')[0]
        rel = './'+'/'.join(s['pkg'].split('/')[1:])
        open(h+'/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'], mod=mod, rel=rel))
        os.chmod(h+'/demo.sh', 0o755)
        open(h+'/demo_test.go', 'w').write(s['test'])
        for i in range(3):
            a = sh(['bash', h+'/demo.sh'], d+'/clean', 300)
            if a.returncode: return sid, 'DEMO FAILS ON CLEAN '+(a.stdout+a.stderr)[-900:]
            b = sh(['bash', h+'/demo.sh'], d+'/bug', 300)
            if b.returncode == 0: return sid, 'DEMO PASSES WITH BUG'
            if 'build failed' in b.stdout: return sid, 'DEMO DOES NOT BUILD '+(b.stdout+b.stderr)[-600:]
        os.makedirs(out, exist_ok=True)
        open(out+'/patch.diff', 'w').write(diff)
        for n in ('demo.sh', 'demo_test.go'): shutil.copy(h+'/'+n, out+'/'+n)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out+'/meta.json', 'w'), indent=1)
        os.makedirs(d+'/home/evidence')
        shutil.copy('/verif/known_findings.txt', d+'/home/')
        r = sh(['/verif/bin/checker', '-rule', '*', '-repo', d+'/bug'], '/verif')
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOL')]
        own = [l.split()[1] for l in v if s['prop'] in l]
        oth = [l.split()[1] for l in v if s['prop'] not in l]
        return sid, ('caught by '+', '.join(own) if own else 'NOT CAUGHT')+(' (others: '+', '.join(oth)+')' if oth else '')+' :: '+b.stdout.strip()[:160].replace('\n', ' | ')
    except subprocess.TimeoutExpired:
        return sid, 'TIMEOUT'
    finally:
        shutil.rmtree(d)
S = []
for f in sorted(glob.glob('/verif/tools/seeds/*.py')):
    ns = {}
    exec(open(f).read(), ns)
    S += ns['S']
if '-k' in sys.argv:
    k = sys.argv[sys.argv.index('-k')+1]
    S = [s for s in S if k in s['id']]
with ThreadPoolExecutor(3) as ex:
    for sid, msg in ex.map(one, S):
        print(sid, msg, flush=True)
        C = json.load(open('/verif/tools/seeds.caught')) if os.path.exists('/verif/tools/seeds.caught') else {}
        if 'caught by ' in msg or 'NOT CAUGHT' in msg:
            C[sid] = msg.split(' :: ')[0].replace('caught by ', '') if 'NOT CAUGHT' not in msg else 'NOT CAUGHT'
            json.dump(dict(sorted(C.items())), open('/verif/tools/seeds.caught', 'w'), indent=1)
