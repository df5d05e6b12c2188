#!/usr/bin/env python3
"""Behaviour-preserving refactorings: every check must stay quiet on each of them.
usage: run.py MODULE [name-regex] [PREFIX...]   (MODULE is r1, r2, ...; GEGOV_BIN or /verif/bin/gegov)
Not part of any check."""
import sys,os,subprocess,shutil,re,tempfile,concurrent.futures as cf
here=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,here)
BIN=os.environ.get('GEGOV_BIN','/verif/bin/gegov')
mod=__import__(sys.argv[1]); rx=sys.argv[2] if len(sys.argv)>2 else '.'; pre=sys.argv[3:]
CL=int(os.environ.get('CL','700'))
def one(x):
    name,edits=x
    d=tempfile.mkdtemp(prefix='gegovrf'); r0=d+'/repo'
    subprocess.run(['cp','-a','/repo',r0],check=True)
    try:
        for f,o,n in edits:
            p=f'{r0}/{f}'; s=open(p).read() if os.path.exists(p) else ''
            if o=='' : s=s+n
            else:
                if s.count(o)<1: return f'?? {name}: not found {f}: {o[:50]!r}'
                s=s.replace(o,n,1)
            open(p,'w').write(s)
        r=subprocess.run('. /opt/vp/env.sh; cd %s && go build ./... ; (cd nurbs && go build ./... && go test . 2>&1|grep -v "^ok"); go test ./... 2>&1 | grep -- "--- FAIL"'%r0,shell=True,capture_output=True,text=True,executable='/bin/bash')
        msg=(r.stdout+r.stderr).replace('--- FAIL: TestRectangle (0.00s)\n','').replace('--- FAIL: TestParseBunny (0.00s)\n','')
        e=dict(os.environ,GEGOV_CLIP=str(CL),GEGOV_REPO=r0,GEGOV_HOME=d+'/h')
        r=subprocess.run([BIN,'checkall']+([','.join(pre)] if pre else []),capture_output=True,text=True,env=e,timeout=1500)
        out=[l[:CL] for l in (r.stdout+r.stderr).split('\n') if l and not '0 undecided, 0 violated' in l and 'took' not in l]
        out=[l for l in out if not('N04' in l and '1 undecided, 0 violated' in l) and 'dersBasisFuns: nurbs/basis.go:104' not in l]
        n=r.stdout.count('obligations')
        return f'## {name} [{n} checks]: {msg[:600]}\n   '+'\n   '.join(out)
    finally:
        shutil.rmtree(d,ignore_errors=True)
with cf.ThreadPoolExecutor(3) as ex:
    for r in ex.map(one,[x for x in mod.R if re.search(rx,x[0])]): print(r,flush=True)
