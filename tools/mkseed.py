#!/usr/bin/env python3
"""mkseed.py FILE...: builds /verif/seeded/<id>/ from seed descriptions and confirms them.

A description is a Python file that defines id, prop, needs, breaks, edits = [(file, old, new)], demo = Go test
source of package goidc (or demos = {name: source})."""
import sys, os, subprocess, shutil, json, tempfile
V='/verif'; D=V+'/tools/demo'
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def demo(d, repo):
    return sh(f'bash {d}/demo.sh', cwd=repo, timeout=300)
def make(path):
    ns={}
    exec(open(path).read(), ns)
    out=f"{V}/seeded/{ns['id']}"
    shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    t=tempfile.mkdtemp(); r=t+'/repo'
    sh(f'cp -a /repo {r}')
    ok=True
    for f,o,n in ns['edits']:
        s=open(f'{r}/{f}').read()
        if s.count(o)!=1:
            print(ns['id'],f,'old text occurs',s.count(o),'times'); ok=False
        open(f'{r}/{f}','w').write(s.replace(o,n,1))
    sh('gofmt -l .',cwd=r)
    p=sh('git diff',cwd=r).stdout
    open(out+'/patch.diff','w').write(p)
    bf=None
    for l in p.splitlines():
        if l.startswith('--- a/'): bf=set(x.strip() for x in sh('git show 4d0476f:'+l[6:],cwd='/repo').stdout.splitlines())
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:].strip() not in bf: print(ns['id'],'not an original line:',l)
    for f in ['common_test.go','helpers_test.go','go.mod.txt','go.sum.txt']:
        shutil.copy(f'{D}/{f}', out)
    shutil.copy(f'{D}/run.sh', out+'/demo.sh')
    ds=ns.get('demos') or {'seed_test.go': ns['demo']}
    for k,v in ds.items(): open(f'{out}/{k}','w').write(v)
    json.dump(dict(property=ns['prop'],needs=ns['needs'],what_it_breaks=ns['breaks']), open(out+'/meta.json','w'), indent=1)
    # stable tests with the change
    b=json.load(open('/opt/vp/BASELINE.json'))
    a=demo(out,'/repo')
    if a.returncode: ok=False; print(ns['id'],'demo fails on the unchanged tree\n',a.stdout[-1500:])
    m=demo(out,r)
    if m.returncode==0: ok=False; print(ns['id'],'demo passes with the change')
    elif 'build failed' in m.stdout or 'setup failed' in m.stdout: ok=False; print(ns['id'],m.stdout[-1500:])
    bl=sh(f'sed "s#/repo#{r}#g" /opt/vp/build.sh > {t}/b.sh; cp /opt/vp/env.sh {t}/; grep -l /repo /opt/vp/env.sh')
    c=sh('go build ./authorization ./assertion ./basic_auth ./bridge ./flow ./grant ./id_token ./io ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope && go vet ./scope >/dev/null; go test -vet=off ./authorization ./basic_auth ./flow ./log ./oauth_error ./pkce ./prompt ./response_mode ./scope ./grant', cwd=r, env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local'))
    if 'FAIL' in c.stdout: ok=False; print(ns['id'],'tests fail\n',c.stdout[-800:])
    shutil.copy(V+'/known-findings.txt', t)
    z=sh(f'timeout 300 {os.environ.get("AZ","/tmp/az")} check {ns["prop"]} {t}', env=dict(os.environ,VERIF_REPO=r))
    hit=[l for l in z.stdout.splitlines() if l.startswith('VIOLATION')]
    print(ns['id'], 'ok' if ok else 'BAD', 'caught' if hit else 'MISSED', z.stdout.splitlines()[0][:230] if hit else z.stdout[-200:])
    shutil.rmtree(t)
for f in sys.argv[1:]: make(f)
