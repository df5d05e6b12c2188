#!/usr/bin/env python3
"""Self test of the analyser: every case edits a scratch copy of /repo and says
which check must raise an alarm (V) or stay quiet (Q). Not part of any check.
usage: run.py [-v] [filter]      (uses GEGOV_BIN or /verif/bin/gegov)"""
import os,sys,shutil,subprocess,tempfile,re
from concurrent.futures import ThreadPoolExecutor
here=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,here)
import cases
BIN=os.environ.get('GEGOV_BIN','/verif/bin/gegov')
verbose='-v' in sys.argv
flt=[a for a in sys.argv[1:] if a!='-v']
def one(ix):
    k,(expect,checks,edits)=ix
    d=tempfile.mkdtemp(prefix='gegovself')
    try:
        r=d+'/repo'; shutil.copytree('/repo',r,ignore=shutil.ignore_patterns('.git'))
        for f,o,n in edits:
            p=r+'/'+f
            s=open(p).read() if os.path.exists(p) else ''
            if o=='' : s+=n
            elif s.count(o)<1: return k,expect,'NOTFOUND '+o,''
            else: s=s.replace(o,n,1)
            open(p,'w').write(s)
        out='';st=[]
        b=subprocess.run(['go','vet','-vettool=/bin/true','./...'],cwd=r,capture_output=True,text=True) if False else None
        for c in checks.split(','):
            h=d+'/h'
            p=subprocess.run([BIN,'check',c],env=dict(os.environ,GEGOV_REPO=r,GEGOV_HOME=h),capture_output=True,text=True)
            out+=p.stdout+p.stderr
            st.append(p.returncode)
        got='V' if 1 in st else 'Q' if all(x==0 for x in st) else 'ERR'
        und=len(re.findall('undecided: ',out))
        return k,expect,got+('(%d undecided)'%und if und else ''),out
    finally:
        shutil.rmtree(d)
todo=[(i,c) for i,c in enumerate(cases.CASES) if not flt or any(c[1].startswith(f) for f in flt)]
bad=0
with ThreadPoolExecutor(8) as ex:
    for k,e,g,out in ex.map(one,todo):
        ok=g.startswith(e)
        bad+=not ok
        _,ch,ed=cases.CASES[k]
        if verbose or not ok or 'undecided' in g:
            print(('ok  ' if ok else 'BAD ')+f'{ch} want {e} got {g} :: {ed[0][1][:60]!r} -> {ed[0][2][:70]!r}')
            if not ok or verbose: print('\n'.join('      '+l[:300] for l in out.splitlines() if 'violated:' in l or 'undecided:' in l or not l.strip().startswith(ch[:1]) and 'ERR' in g))
print(len(todo),'cases,',bad,'bad')
