#!/usr/bin/env python3
"""Development aid: runs all rules on behaviour preserving variants of the source (tools/refac),
through file overlays. usage: refac.py DIR [-k glob] [-o OUT]; every alarm is a false alarm."""
import os, sys, subprocess, re, json, glob, fnmatch
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=readonly', GOPROXY='off', GOMAXPROCS='2')
d = sys.argv[1]; k = '*'; o = '/tmp/refac.out'
a = sys.argv[2:]
while a:
    x = a.pop(0)
    if x == '-k': k = a.pop(0)
    if x == '-o': o = a.pop(0)
def run(f):
    try:
        r = subprocess.run([os.environ.get('CHECKER','/verif/bin/checker'), '-rule', '*', '-overlay', f], env=env, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return f, ['TIMEOUT']
    out = []; cur = ''
    for l in (r.stdout+r.stderr).splitlines():
        if l.startswith('load:'): return f, 'nobuild '+l[:200]
        if l.startswith('VIOL'): cur = l.split()[1] + re.search(r'\[(.*?)\]', l).group(0)
        elif l.startswith('     ') and cur: out.append(cur+' '+l.strip()[:230])
        elif not l.startswith('ok') and 'rules,' not in l: out.append('?? '+l[:300])
    return f, out
fs = sorted(f for f in glob.glob(d+'/*.json') if fnmatch.fnmatch(os.path.basename(f), k))
n = nb = bad = 0
with open(o, 'w') as w, ThreadPoolExecutor(int(os.environ.get("J","7"))) as ex:
    for f, out in ex.map(run, fs):
        n += 1
        b = os.path.basename(f)[:-5]
        if isinstance(out, str):
            nb += 1; print('NOBUILD', b, out, file=w)
        elif out:
            bad += 1; print('ALARM', b, file=w)
            for x in out[:8]: print('      ', x, file=w)
        w.flush()
print(n, 'variants,', nb, 'do not build,', bad, 'alarms')
