#!/usr/bin/env python3
"""Applies small faulty edits, one at a time, to a scratch copy of /repo, runs
there (with a copy of /verif as it is now) the quick check of the property each
breaks, and undoes them. usage: mutants.py [-refs] [-j N] [PATTERN...]
With -refs the edits of refs.list.py, which break nothing.
Results go to tools/mutants.txt or refs.txt."""
import json,subprocess,sys,os,re,time,tempfile,shutil
M=[]
def m(prop,name,*edits): M.append((prop,name,edits))
KIND='mutants'
if '-refs' in sys.argv: sys.argv.remove('-refs'); KIND='refs'
J=8
if '-j' in sys.argv:
    i=sys.argv.index('-j'); J=int(sys.argv[i+1]); del sys.argv[i:i+2]
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),KIND+'.list.py')).read())
if KIND=='refs': M=[(p,n,e) for ps,n,e in M for p in ps.split()]
W=tempfile.mkdtemp(prefix='mut')
R=W+'/repo'; V=W+'/verif'
ENV='. /opt/vp/env.sh; export GOFLAGS=-mod=mod GOPROXY=off; '
def sh(c,t=1200):
    p=subprocess.run(['bash','-c',ENV+c],capture_output=True,text=True,timeout=t); return p.returncode,p.stdout+p.stderr
sh(f'mkdir -p {R} {V}/evidence && git -C /repo archive HEAD | tar -x -C {R} && cp -a /verif/engine /verif/harness /verif/known-findings.txt {V}/ && sed -i "s#=> /repo#=> {R}#" {V}/harness/go.mod')
rc,o=sh(f'cd {V}/engine && go build -o {W}/gosym .'); assert rc==0,o
pats=sys.argv[1:]
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),KIND+'.txt')
def load():
    res={}
    if os.path.exists(out):
        for l in open(out):
            k,v=l.rstrip('\n').split('\t',1); res[k]=v
    return res
have=load()
try:
  for prop,name,edits in M:
    key=f'{prop} {name}'
    if pats and not any(re.search(p,key) for p in pats): continue
    if not pats and key in have: continue
    saved={}
    bad=None
    for f,o,n in edits:
        p=f'{R}/{f}'; s=open(p).read(); saved.setdefault(p,s)
        if s.count(o)!=1: bad=f'edit matches {s.count(o)} times in {f}'; break
        open(p,'w').write(s.replace(o,n))
    if not bad:
        rc,o=sh(f'cd {R} && go build ./...')
        if rc: bad='does not build: '+o[-300:]
    if not bad:
        rc,o=sh(f'cd {R} && go test -vet=off -count=1 -v ./tests/ | grep -c "^--- PASS"')
        if o.strip()!='12': bad='fails the tests '+o.strip()
    if bad: r='INVALID '+bad
    else:
        t=time.time()
        rc,o=sh(f'{W}/gosym check -root {V} -j {J} -prop {prop} -tier quick')
        v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
        if KIND=='refs': r=('quiet' if rc==0 and not v else f'ALARM rc={rc}')+('' if json.load(open(f'{V}/evidence/{prop}.json'))['coverage']['exhaustive'] else ' INCOMPLETE')+f' {time.time()-t:.0f}s'
        else: r=('caught' if rc==1 and v else f'MISSED rc={rc}')+f' {time.time()-t:.0f}s'
        if 'caught' not in r and 'quiet' not in r: print(o[-1500:],flush=True)
    for p,s in saved.items(): open(p,'w').write(s)
    print(key,'\t',r.replace('\n',' '),flush=True)
    have=load(); have[key]=r.replace('\n',' ')
    with open(out,'w') as f:
        for k in sorted(have): f.write(f'{k}\t{have[k]}\n')
finally:
    shutil.rmtree(W)
