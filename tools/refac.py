#!/usr/bin/env python3
"""refac.py [-d] FILE...: applies edits that keep the behaviour to a copy of /repo and reports every alarm.
-d also runs the demonstrations of all planted bugs, which must pass on such a tree.
An edit file is Python; it calls sub(file, old, new[, n]), resub(file, regexp, new[, n]), app(file, text), imp(file, path)."""
import sys, os, subprocess, shutil, tempfile, re, glob
from concurrent.futures import ThreadPoolExecutor
AZ=os.environ.get('AZ','/tmp/az')
V='/verif'
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def one(path, demos):
    n=os.path.basename(path)[:-3]
    t=tempfile.mkdtemp(); r=t+'/repo'; out=[]
    try:
        sh(f'cp -a /repo {r}')
        def rd(f): return open(f'{r}/{f}').read()
        def wr(f,s): open(f'{r}/{f}','w').write(s)
        def sub(f,o,nw,cnt=None):
            s=rd(f)
            if s.count(o)<1 or cnt is None and s.count(o)!=1 or cnt and s.count(o)!=cnt: raise Exception(f'{f}: {s.count(o)} times: {o!r}')
            wr(f,s.replace(o,nw))
        def resub(f,o,nw,cnt=None):
            s,k=re.subn(o,nw,rd(f))
            if k<1 or cnt and k!=cnt: raise Exception(f'{f}: {k} times: {o!r}')
            wr(f,s)
        def app(f,x): wr(f,rd(f).rstrip('\n')+'\n\n'+x)
        def imp(f,p):
            s=rd(f); q='"'+p+'"'
            if q in s: return
            if 'import (\n' in s: s=s.replace('import (\n','import (\n\t'+q+'\n',1)
            else: s=re.sub(r'(package \w+\n)',r'\1\nimport '+q+'\n',s,count=1)
            wr(f,s)
        try: exec(open(V+"/tools/refactors/_lib.py").read()+"\n"+open(path).read(), dict(sub=sub,resub=resub,app=app,imp=imp,rd=rd,wr=wr,re=re))
        except Exception as e: return f'{n}: EDIT {e!r}'
        e=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
        c=sh('go build ./authorization ./assertion ./basic_auth ./bridge ./flow ./grant ./id_token ./io ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope && go vet $(ls *.go | grep -v _test | grep -v jwk_endpoint) && gofmt -e crypto/*.go jwk_endpoint.go >/dev/null && go test -vet=off ./authorization ./basic_auth ./flow ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope ./grant', cwd=r, env=e)
        if c.returncode or 'FAIL' in c.stdout: return f'{n}: BUILD\n'+c.stdout[-1500:]
        if demos:
            for d in sorted(glob.glob(V+'/seeded/*/demo.sh')):
                m=sh(f'bash {d}', cwd=r)
                if m.returncode: out.append(f'  DEMO {d}\n'+m.stdout[-800:])
        z=sh(f'timeout 600 {AZ} specs', env=dict(os.environ,VERIF_REPO=r))
        for l in z.stdout.splitlines():
            if re.search(r'violations 0$',l) or 'hash encoding' in l or re.match(r'I02 .*violations 1$',l): continue
            if l.startswith('time'): out.append('  '+l[:20]); continue
            out.append('  '+l[:420])
        if 'time' not in z.stdout: out.append('  NO RESULT '+z.stdout[-300:])
    finally: shutil.rmtree(t)
    return f'{n}: '+('clean' if len(out)==1 else f'{len(out)-1} lines')+'\n'+'\n'.join(out[:40])
a=sys.argv[1:]; d='-d' in a; a=[x for x in a if x!='-d']
with ThreadPoolExecutor(int(os.environ.get("J","4"))) as ex:
    for x in ex.map(lambda p: one(p,d), a): print(x, flush=True)
