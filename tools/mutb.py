#!/usr/bin/env python3
"""Development aid: like mut.py, but analyses the variants in batch mode (much faster; imports which the
package did not have before cannot be type-checked there: use mut.py for those).
usage: mutb.py FILE... [-k substring]"""
import os, sys, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=readonly', GOPROXY='off', GOMAXPROCS='2')
k = None; fs = []; a = sys.argv[1:]
while a:
    x = a.pop(0)
    if x == '-k': k = a.pop(0)
    else: fs.append(x)
ms = []
for f in fs:
    ns = {}; exec(open(f).read(), ns); ms += ns['M']
if k: ms = [m for m in ms if k in m[0]]
d = tempfile.mkdtemp(prefix='mutb-')
names = {}; bad = 0
for i, m in enumerate(ms):
    mid, f, old, new = m[:4]
    edits = [(f, old, new)] + [(f, m[j], m[j+1]) for j in range(4, len(m), 2)] if isinstance(f, str) else f
    ov = {}; err = None
    for (ff, o, nw) in edits:
        p = '/repo/'+ff
        s = ov.get(p) or open(p).read()
        if o not in s: err = 'STALE '+ff; break
        ov[p] = s.replace(o, nw, 1)
    if err: print('!!', mid, err); bad += 1; continue
    p = '%s/%04d.json' % (d, i); json.dump(ov, open(p, 'w')); names[p] = mid
ps = sorted(names)
n = max(1, min(40, len(ps)//7+1))
def go(c):
    return subprocess.run([os.environ.get('CHECKER', '/verif/bin/checker'), '-batch', '-first'] if False else [os.environ.get('CHECKER', '/verif/bin/checker'), '-batch'], input='\n'.join(c)+'\n', env=env, capture_output=True, text=True)
seen = set()
def one(c):
    global bad
    r = go(c)
    for l in r.stdout.splitlines():
        q = l.split('\t')
        if len(q) < 2 or q[0] not in names: continue
        seen.add(q[0]); mid = names[q[0]]; ok = mid.startswith('ok-')
        if q[1] == 'nobuild': print('!!', mid, 'NOBUILD', q[2][:300]); bad += 1
        elif q[1] == 'caught':
            print('FALSE ALARM' if ok else 'good', mid, q[2][:200])
            if ok:
                bad += 1
                for x in q[3].split('\x01')[:6]: print('      ', x[:250])
            else: print('good      ', q[3].replace('\x01', ' | ')[:250])
        else:
            print('good' if ok else 'MISSED', mid)
            if not ok: bad += 1
        sys.stdout.flush()
    for f in set(c)-seen: print('!! LOST', names[f], r.stderr[-200:])
with ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex: list(ex.map(one, [ps[i:i+n] for i in range(0, len(ps), n)]))
shutil.rmtree(d)
print(len(ps), 'variants,', bad, 'to look at')
