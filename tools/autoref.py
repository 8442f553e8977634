#!/usr/bin/env python3
"""autoref.py [MODE...]: applies each mechanical rewriting (analyzer/autoref) to one file at a time and to all files together, and reports every alarm. -a: all files together only."""
import sys, os, subprocess, shutil, tempfile, re
from concurrent.futures import ThreadPoolExecutor
AZ=os.environ.get('AZ','/tmp/az')
V='/verif'
MODES='inv elseif elseret nest condvar initout swap notless demorgan andif boolvar args retvar closure helper namedres deferres once sw2if if2sw idx ptr empty nonempty false lit2map structlit litconst vardecl retif swtrue reorder pred outline'.split()
DIRS='. authorization assertion basic_auth bridge crypto flow grant id_token io log oauth_error pkce prompt response_mode scope'.split()
E=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def one(j):
    modes,dirs=j
    t=tempfile.mkdtemp(); r=t+'/repo'; out=[]; n=0
    try:
        sh(f'cp -a /repo {r}')
        for m in modes:
            for d in dirs:
                c=sh(f'/tmp/autoref {m} {r}/{d}', cwd=r, env=E)
                k=re.search(r'(\d+) sites',c.stdout)
                if not k: return f'{modes} {dirs}: TOOL '+c.stdout[-400:]
                n+=int(k[1])
        if n==0: return f'{modes} {dirs}: none'
        c=sh('go build ./authorization ./assertion ./basic_auth ./bridge ./flow ./grant ./id_token ./io ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope && go build -o /dev/null $(ls *.go | grep -v _test | grep -v jwk_endpoint) && gofmt -e crypto/*.go jwk_endpoint.go >/dev/null && go test -vet=off ./authorization ./basic_auth ./flow ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope ./grant', cwd=r, env=E)
        if c.returncode or 'FAIL' in c.stdout:
            sh(f'rm -rf /tmp/arbad; cp -a {r} /tmp/arbad')
            return f'{modes} {dirs}: BUILD\n'+c.stdout[-1500:]
        z=sh(f'timeout 600 {AZ} specs', env=dict(os.environ,VERIF_REPO=r))
        for l in z.stdout.splitlines():
            if re.search(r'violations 0$',l) or 'hash encoding' in l or re.match(r'I02 .*violations 1$',l) or l.startswith('time'): continue
            out.append('  '+l[:420])
        if 'time' not in z.stdout: out.append('  NO RESULT '+z.stdout[-300:])
        if out: sh(f'rm -rf /tmp/ar_{modes[0]}; cp -a {r} /tmp/ar_{modes[0]}')
    finally: shutil.rmtree(t)
    return f'{modes} {dirs}: {n} sites '+('clean' if not out else f'{len(out)} lines')+'\n'+'\n'.join(out[:25])
a=sys.argv[1:]
jobs=[([m],DIRS) for m in (a or MODES)] if a[:1]!=['+'] else [(a[1:],DIRS)]
with ThreadPoolExecutor(4) as ex:
    for x in ex.map(one, jobs): print(x, flush=True)
