#!/usr/bin/env python3
"""Development aid: applies source mutations (or behaviour preserving edits) to scratch
copies of /repo and reports which properties' checks raise an alarm.
usage: mut.py FILE... [-k substring]   (FILE: python file defining M = [(id, file, old, new), ...])
Entries whose id starts with 'ok-' must stay quiet, the others must be caught."""
import os, sys, shutil, subprocess, tempfile, re
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=readonly', GOPROXY='off')
def run(m):
    mid, f, old, new = m[:4]
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree('/repo', d+'/repo', ignore=shutil.ignore_patterns('.git'))
        edits = [(f, old, new)] + [(f, m[i], m[i+1]) for i in range(4, len(m), 2)] if isinstance(f, str) else f
        for (ff, o, nw) in edits:
            p = d+'/repo/'+ff
            s = open(p).read()
            if s.count(o) < 1:
                return mid, 'STALE: text not found in '+ff
            s = s.replace(o, nw, 1)
            open(p, 'w').write(s)
        for mod in ('streams', 'msk'):
            b = subprocess.run(['go', 'build', './...'], cwd=d+'/repo/'+mod, env=env, capture_output=True, text=True)
            if b.returncode:
                return mid, 'NOBUILD: '+b.stderr[:300]
        os.makedirs(d+'/home/evidence')
        if os.path.exists('/verif/known_findings.txt'):
            shutil.copy('/verif/known_findings.txt', d+'/home/')
        r = subprocess.run(['/verif/bin/checker', '-rule', '*', '-repo', d+'/repo'], env=env, capture_output=True, text=True)
        out = []
        cur = ''
        for l in (r.stdout+r.stderr).splitlines():
            if l.startswith('VIOL'):
                cur = ' '.join(l.split()[1:2]) + re.search(r'\[(.*?)\]', l).group(0)
            elif l.startswith('     ') and cur:
                out.append(cur+' '+l.strip()[:230]); 
            elif not l.startswith('ok') and 'rules,' not in l:
                out.append('?? '+l[:300])
        return mid, out
    finally:
        shutil.rmtree(d)
ms = []
k = None
fs = []
a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == '-k': k = a.pop(0)
    else: fs.append(x)
for f in fs:
    ns = {}
    exec(open(f).read(), ns)
    ms += ns['M']
if k: ms = [m for m in ms if k in m[0]]
bad = 0
with ThreadPoolExecutor(6) as ex:
    for mid, out in ex.map(run, ms):
        ok = mid.startswith('ok-')
        if isinstance(out, str):
            print('!!', mid, out); bad += 1
        elif ok and out:
            print('FALSE ALARM', mid); bad += 1
            for o in out[:6]: print('      ', o)
        elif not ok and not out:
            print('MISSED', mid); bad += 1
        else:
            print('good', mid, '|', (out[0] if out else '')[:170])
print(len(ms), 'run,', bad, 'bad')
