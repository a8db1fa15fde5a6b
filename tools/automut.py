#!/usr/bin/env python3
"""Development aid: runs all rules on single-edit mutants (tools/automut) through file overlays and
lists the survivors (neither rejected by the type checker nor reported by a rule nor failing the
stable tests) as diffs to be read by hand. usage: automut.py DIR [-k glob] [-o OUT]"""
import os, sys, re, subprocess, json, glob, fnmatch, difflib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOWORK='off', GOFLAGS='-mod=readonly', GOPROXY='off', GOMAXPROCS='2')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
d = sys.argv[1]; k = '*'; o = '/tmp/automut.out'
a = sys.argv[2:]
while a:
    x = a.pop(0)
    if x == '-k': k = a.pop(0)
    if x == '-o': o = a.pop(0)
RF = {}
for l in subprocess.run([os.environ.get('CHECKER','/verif/bin/checker'), '-rule', '*', '-full'], env=env, capture_output=True, text=True).stdout.splitlines():
    if l.startswith('funcs '):
        w = l.split()
        for fn in w[2:]:
            RF.setdefault(re.sub(r'\$.*', '', fn.split('.', 1)[1] if fn.split('.')[0] in ('sak','stores','msk') else fn), set()).add(w[1])
def run(f):
    fn = os.path.basename(f).split('~')[2]
    rs = RF.get(fn, set())
    if rs:
        r = subprocess.run([os.environ.get('CHECKER','/verif/bin/checker'), '-rule', ' || '.join(sorted(rs)), '-first', '-overlay', f], env=env, capture_output=True, text=True, timeout=600)
        t = r.stdout+r.stderr
        if 'load:' in t: return f, 'nobuild', ''
        if 'VIOL' in t: return f, 'caught', ''
    try:
        r = subprocess.run([os.environ.get('CHECKER','/verif/bin/checker'), '-rule', '*', '-first', '-overlay', f], env=env, capture_output=True, text=True, timeout=600)
    except subprocess.TimeoutExpired:
        return f, 'TIMEOUT', ''
    t = r.stdout+r.stderr
    if 'load:' in t: return f, 'nobuild', ''
    if 'VIOL' in t: return f, 'caught', ' '.join(sorted({l.split()[1].split('[')[0] for l in t.splitlines() if l.startswith('VIOL')}))
    # survivors: do they fail the stable tests?
    (p, new), = json.load(open(f)).items()
    old = open(p).read()
    df = [l for l in difflib.unified_diff(old.splitlines(), new.splitlines(), n=0, lineterm='') if not l.startswith(('---','+++'))]
    if os.environ.get('NOTEST'): return f, 'SURVIVES', '\n'.join(x[:180] for x in df)
    td = tempfile.mkdtemp(prefix='am-')
    try:
        open(td+'/f.go', 'w').write(new)
        json.dump({'Replace': {p: td+'/f.go'}}, open(td+'/o.json', 'w'))
        mod = '/repo/msk' if '/msk/' in p else '/repo/streams'
        e = dict(env, HOME=td) if False else env
        try:
            q = subprocess.run(['go', 'test', '-json', '-short', '-vet=off', '-count=1', '-timeout', '60s', '-overlay', td+'/o.json', './...'], cwd=mod, env=e, capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired:
            return f, 'tests', ''
        ps = set()
        for l in q.stdout.splitlines():
            try: ev = json.loads(l)
            except ValueError: continue
            if ev.get('Test') and ev.get('Action') == 'pass': ps.add(ev['Package']+'/'+ev['Test'])
        pre = 'github.com/aws/go-kafka-event-source/'+('msk' if '/msk/' in p else 'streams')
        if {s for s in STABLE if s.startswith(pre)}-ps: return f, 'tests', ''
    finally:
        shutil.rmtree(td)
    old = open(p).read()
    df = [l for l in difflib.unified_diff(old.splitlines(), new.splitlines(), n=0, lineterm='') if not l.startswith(('---','+++'))]
    return f, 'SURVIVES', '\n'.join(x[:180] for x in df)
fs = sorted(f for f in glob.glob(d+'/*.json') if fnmatch.fnmatch(os.path.basename(f), k))
c = {}
with open(o, 'w') as w, ThreadPoolExecutor(int(os.environ.get("J","7"))) as ex:
    for f, s, x in ex.map(run, fs):
        c[s] = c.get(s, 0)+1
        if s in ('SURVIVES', 'TIMEOUT'):
            print(s, os.path.basename(f)[:-5], file=w); print(x, file=w); w.flush()
print(c)
