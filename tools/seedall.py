#!/usr/bin/env python3
"""seedall.py [ID...]: applies every planted bug to a copy of /repo and prints those their property's check misses."""
import sys, os, json, glob, subprocess, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor
AZ=os.environ.get('AZ','/tmp/az')
def one(d):
    n=os.path.basename(d); p=json.load(open(d+'/meta.json'))['property']
    t=tempfile.mkdtemp(); r=t+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',r],check=True)
        a=subprocess.run(['git','-C',r,'apply',d+'/patch.diff'],capture_output=True,text=True)
        if a.returncode: return n,p,'DOES NOT APPLY '+a.stderr[:200],''
        z=subprocess.run(['timeout','600',AZ,'specs',p],env=dict(os.environ,VERIF_REPO=r),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace').stdout
        v=[l for l in z.splitlines() if l.startswith('   [') and p in l.split(']')[0] and 'hash encoding' not in l]
        return n,p,'caught' if v else 'MISSED'+('' if 'time' in z else ' (no result)'),(v[0][:200] if v else z[-300:])
    finally: shutil.rmtree(t)
ds=sorted(glob.glob('/verif/seeded/*')) if len(sys.argv)<2 else ['/verif/seeded/'+x for x in sys.argv[1:]]
k=0
with ThreadPoolExecutor(int(os.environ.get("J","4"))) as ex:
    for n,p,s,v in ex.map(one,ds):
        if s!='caught': print(n,p,s,v,flush=True)
        else: k+=1
print(k,'of',len(ds),'caught')
