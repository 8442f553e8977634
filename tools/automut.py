#!/usr/bin/env python3
"""automut.py FILE.jsonl OUT [k/n]: applies each listed edit (analyzer/automut) to a copy of /repo; prints those that build, pass the
tests and raise no alarm of any property."""
import sys, os, subprocess, shutil, tempfile, re, json, random
from concurrent.futures import ThreadPoolExecutor
AZ=os.environ.get('AZ','/tmp/az')
E=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
PK='./authorization ./assertion ./basic_auth ./bridge ./flow ./grant ./id_token ./io ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope'
def one(x):
    t=tempfile.mkdtemp(); r=t+'/repo'
    try:
        sh(f'cp -a /repo {r}')
        p=f"{r}/{x['file']}"; s=open(p,'rb').read()
        old=s[x['off']:x['end']].decode()
        open(p,'wb').write(s[:x['off']]+x['new'].encode()+s[x['end']:])
        tag=f"{x['file']}:{x['line']} {x['op']} {old[:70]!r} -> {x['new'][:90]!r}"
        c=sh(f'go build {PK} && go vet $(ls *.go | grep -v _test | grep -v jwk_endpoint)', cwd=r, env=E)
        if c.returncode: return 'build '+tag
        z=sh(f'timeout 900 {AZ} specs', env=dict(os.environ,VERIF_REPO=r,VERIF_FAST='1'))
        if 'time' not in z.stdout: return 'NORESULT '+tag+' '+z.stdout[-200:]
        hits=[l for l in z.stdout.splitlines() if l.startswith('   [') and 'hash encoding' not in l]
        if hits: return 'caught '+tag+' BY '+hits[0].strip()[:160]
        c=sh(f'go test -vet=off {PK}', cwd=r, env=E)
        if 'FAIL' in c.stdout: return 'tests '+tag
        return 'MISSED '+tag
    finally: shutil.rmtree(t)
L=[json.loads(l) for l in open(sys.argv[1])]
random.seed(int(os.environ.get('SEED','1'))); random.shuffle(L)
seen={}; P=[]
per=int(os.environ.get('PER','1'))
for x in L:
    op='str' if x['op']=='str-empty' else x['op']
    k=(x['file'],x['line'],op)
    seen[k]=seen.get(k,0)+1
    if seen[k]<=per: P.append(x)
print(len(L),len(P),file=sys.stderr)
with ThreadPoolExecutor(int(os.environ.get('J','6'))) as ex, open(sys.argv[2],'a') as o:
    for y in ex.map(one, P): o.write(y+'\n'); o.flush()
