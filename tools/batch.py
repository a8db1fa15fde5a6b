#!/usr/bin/env python3
"""Development aid: runs all rules on file variants, in batches (checker -batch).
usage: batch.py refac|automut DIR [-k glob] [-o OUT]    env: CHECKER, J
refac: every alarm is a false alarm. automut: survivors are listed as diffs, to be read by hand."""
import os, sys, subprocess, json, glob, fnmatch, difflib, random
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=readonly', GOPROXY='off', GOMAXPROCS='2')
mode, d = sys.argv[1:3]; k = '*'; o = '/tmp/batch.out'
a = sys.argv[3:]
while a:
    x = a.pop(0)
    if x == '-k': k = a.pop(0)
    if x == '-o': o = a.pop(0)
C = os.environ.get('CHECKER', '/verif/bin/checker')
fs = sorted(f for f in glob.glob(d+'/*.json') if fnmatch.fnmatch(os.path.basename(f), k))
n = max(1, min(120, len(fs)//8+1))
chunks = [fs[i:i+n] for i in range(0, len(fs), n)]
w = open(o, 'w'); cnt = {}
def run(c):
    p = subprocess.Popen([C, '-batch']+(['-first'] if mode == 'automut' else []), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
    out = p.communicate('\n'.join(c)+'\n')[0]
    seen = set()
    for l in out.splitlines():
        q = l.split('\t')
        if len(q) < 2: continue
        seen.add(q[0])
        cnt[q[1]] = cnt.get(q[1], 0)+1
        b = os.path.basename(q[0])[:-5]
        if mode == 'refac' and q[1] == 'caught':
            w.write('ALARM %s %s\n' % (b, q[2])+''.join('       %s\n' % x for x in q[3].split('\x01')))
        if mode == 'refac' and q[1] == 'nobuild': w.write('NOBUILD %s %s\n' % (b, q[2][:150]))
        if mode == 'automut' and q[1] == 'quiet':
            (p2, new), = json.load(open(q[0])).items()
            df = [x[:200] for x in difflib.unified_diff(open(p2).read().splitlines(), new.splitlines(), n=0, lineterm='') if not x.startswith(('---','+++','@@'))]
            w.write('SURVIVES %s\n%s\n' % (b, '\n'.join(df)))
        w.flush()
    for f in set(c)-seen:
        cnt['lost'] = cnt.get('lost', 0)+1
        w.write('LOST %s %s\n' % (f, out[-300:])); w.flush()
with ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex: list(ex.map(run, chunks))
print(cnt)
