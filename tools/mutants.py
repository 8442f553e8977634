#!/usr/bin/env python3
"""mutants.py FILE...: applies each breaking edit of the files to a copy of /repo and reports those no check of the
property sees. A file calls M(name, property) and then sub/resub/app/imp/fn_in edits for that mutant."""
import sys, os, subprocess, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
AZ=os.environ.get('AZ','/tmp/az'); V='/verif'
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def parse(path):
    ms=[]
    def M(name, prop): ms.append((name, prop, []))
    env={'M':M}
    for op in ('sub','resub','app','imp','fn'):
        env[op]=(lambda op: lambda *a: ms[-1][2].append((op,a)))(op)
    exec(open(path).read(), env)
    return ms
def one(m):
    name, prop, ops = m
    t=tempfile.mkdtemp(); r=t+'/repo'
    try:
        sh(f'cp -a /repo {r}')
        def rd(f): return open(f'{r}/{f}').read()
        def wr(f,s): open(f'{r}/{f}','w').write(s)
        for op,a in ops:
            f=a[0]; s=rd(f)
            if op=='sub':
                n=a[3] if len(a)>3 else None   # n-th occurrence (0-based); None: must be unique
                if n is None:
                    if s.count(a[1])!=1: return f'{name}: EDIT {s.count(a[1])} times {a[1]!r}'
                    s=s.replace(a[1],a[2])
                else:
                    p=-1
                    for _ in range(n+1):
                        p=s.find(a[1],p+1)
                        if p<0: return f'{name}: EDIT no occurrence {n} of {a[1]!r}'
                    s=s[:p]+a[2]+s[p+len(a[1]):]
            elif op=='resub':
                s,k=re.subn(a[1],a[2],s)
                if not k: return f'{name}: EDIT none {a[1]!r}'
            elif op=='app': s=s.rstrip('\n')+'\n\n'+a[1]
            elif op=='fn':
                i=s.find(a[1])
                if i<0: return f'{name}: EDIT no function {a[1]!r}'
                e=s.index('\n}\n',i)+3; s=s[:i]+a[2]+s[e:]
            elif op=='imp':
                q='"'+a[1]+'"'
                if q not in s:
                    s=s.replace('import (\n','import (\n\t'+q+'\n',1) if 'import (\n' in s else re.sub(r'(package \w+\n)',r'\1\nimport '+q+'\n',s,count=1)
            wr(f,s)
        e=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
        c=sh('go build ./authorization ./assertion ./basic_auth ./bridge ./flow ./grant ./id_token ./io ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope && go vet $(ls *.go | grep -v _test | grep -v jwk_endpoint) && gofmt -e crypto/*.go jwk_endpoint.go >/dev/null && go test -vet=off ./authorization ./basic_auth ./flow ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope ./grant', cwd=r, env=e)
        if c.returncode or 'FAIL' in c.stdout: return f'{name}: BUILD/TEST\n'+" | ".join([l for l in c.stdout.splitlines() if not l.startswith("ok")][:8])
        z=sh(f'timeout 600 {AZ} specs {prop}', env=dict(os.environ,VERIF_REPO=r))
        hits=[l for l in z.stdout.splitlines() if l.startswith('   [') and re.search(r'\[[^]]*\b'+prop+r'\b',l) and 'hash encoding' not in l]
        if 'time' not in z.stdout: return f'{name}: NO RESULT '+z.stdout[-400:]
        return f'{name}: '+('caught '+hits[0].strip()[:230] if hits else 'MISSED')
    finally: shutil.rmtree(t)
ms=[]
only=None
for a in sys.argv[1:]:
    if a.startswith('='): only=a[1:]
    else: ms+=parse(a)
if only: ms=[m for m in ms if only in m[0]]
with ThreadPoolExecutor(5) as ex:
    for x in ex.map(one, ms): print(x, flush=True)
