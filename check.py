#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]
Proves the contracts of the property's functions over /repo's current source.
Exit 0: every obligation discharged.  Exit 1 with a VIOLATION line otherwise."""
import os, sys
ROOT=os.path.dirname(os.path.abspath(__file__))
VT='/opt/veriftools/pyvenv/bin/python'
if os.path.exists(VT) and os.path.realpath(sys.prefix)!=os.path.realpath('/opt/veriftools/pyvenv') and not os.environ.get('NDV_PY'):
    os.environ['NDV_PY']='1'; os.execv(VT,[VT,os.path.abspath(__file__)]+sys.argv[1:])
sys.path.insert(0,os.path.join(ROOT,'ndv'))
import json, time, tempfile, shutil, subprocess, re, pickle
sys.setrecursionlimit(20000)
REPO=os.environ.get('NDV_REPO','/repo')
def main():
    t0=time.time(); pid=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else os.environ.get('VERIF_TIER','quick')
    if tier not in('quick','thorough'): tier='quick'
    seed=int(os.environ.get('VERIF_SEED','1') or 1)
    import lib, props, run
    P=props.PROPS[pid]
    work=tempfile.mkdtemp(prefix='ndv.')
    try: rc=check(pid,tier,seed,P,work,t0,lib,run)
    finally: shutil.rmtree(work,ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
def known():
    f=os.path.join(ROOT,'known-findings.txt'); out=[]
    if os.path.exists(f):
        for l in open(f):
            m=re.match(r'^finding: property=(\S+) \[(.*?)\] (.*)$',l)
            if m: out.append((m[1],m[2],m[3]))
    return out
def check(pid,tier,seed,P,work,t0,lib,run):
    rep=os.path.join(ROOT,'replays'); os.makedirs(rep,exist_ok=True)
    berr=None; res=[]; builderr=''
    own=lambda s:s.group==pid or any(re.search(r,s.name) for r in P.get('also',()))
    dep=lambda s:any(re.search(r,s.name) for r in P.get('uses',()))
    try:
        b=run.prep(os.path.join(work,'b'))
        proofs=lib.proofs()
        O=[s for s in proofs if own(s)]; D=[s for s in proofs if not own(s) and dep(s)]
        if tier=='quick':
            O=[s for s in O if not getattr(s,'thorough',False)]; D=[s for s in D if not getattr(s,'thorough',False)]
        lim,tot=(480,600) if tier=='quick' else (3000,10800)
        print(f'{pid}: {len(O)} function contracts of this property, {len(D)} it relies on; built in {time.time()-t0:.1f}s',flush=True)
        names={s.name for s in O}
        res=run.run_specs(b['bc'],O+D,lib.contracts(),limit=lim,total=tot)
    except run.build.BuildError as e: berr=str(e); O=D=[]; names=set()
    kf=known()
    def bad(r):
        l=[(o[0],o[1],o[4],o[5]) for o in r['obs'] if o[1]!='proved' and not any(k[0]==pid and k[1]==f'{r["name"]}: {o[0]}' for k in kf)]
        if r['error']: l.append((r['error'],'error',None,None))
        return l
    obad=[(r,bad(r)) for r in res if r['name'] in names and bad(r)]
    dbad=[(r,bad(r)) for r in res if r['name'] not in names and bad(r)]
    for k in kf:
        if k[0]==pid: print(f'KNOWN-FINDING: property={pid} {k[2]}')
    viol=0; lines=[]; rinfo=None; bounded=None
    if P.get('bounded'):
        # functions out of the verifier's reach: a bounded run of the real code stands in (never counted as proved)
        found,rinfo=replay(pid,tier,seed,P,work,t0,P.get('bounded_s',90) if tier=='quick' else 1500)
        m=re.search(r'CASES (\d+) DISTINCT (\d+)',rinfo or ''); smp=re.findall(r'^SAMPLE (.*)$',rinfo or '',re.M)
        bounded=dict(label='bounded',what=P['bounded'],evaluations=int(m[1]) if m else 0,distinct_nontrivial=int(m[2]) if m else 0,samples=smp[:5])
        print(f"{pid}: bounded stand-in: {bounded['evaluations']} cases, {'a failing input' if found else 'no failing input'}",flush=True)
    else: found=None
    if obad or dbad or berr or found:
        for r,l in obad+dbad:
            for o in l[:6]: lines.append(f'{r["name"]} ({r["fn"]}): {o[1]}: {o[0]}'+(f' at line {o[2]}' if o[2] else '')+(f' path {o[3][-8:]}' if o[3] else ''))
        if berr: lines.append('the verified text could not be built: '+berr[:3000])
        print('\n'.join('  open: '+x[:300] for x in lines[:20]),flush=True)
        if found is None: found,rinfo=replay(pid,tier,seed,P,work,t0)
        path=os.path.join(rep,f'{pid}.txt')
        if found or obad or berr:
            viol=1
            with open(path,'w') as f:
                f.write(f'property {pid}\nobligations that the verifier did not discharge on the current tree:\n'+'\n'.join(lines)+'\n\n')
                for r,l in obad+dbad:
                    for o in r['obs']:
                        if o[1]!='proved' and o[6]: f.write(f'{r["name"]}: {o[0]}\n{o[6]}\n')
                f.write('\nreplay against the real code ('+P.get('replay',pid)+'):\n'+(rinfo or '')+'\n')
            print(f'VIOLATION property={pid} replay={path}'+('' if found else ' no-failing-input-found'))
        else: print(f'{pid}: contracts of other properties are open (listed above); no failing input for {pid} itself found')
    nobs=sum(len(r['obs']) for r in res); nok=sum(1 for r in res for o in r['obs'] if o[1]=='proved')
    bnd=[r['name'] for r in res if r.get('bounded')]
    be=dict(solver='z3 (bit-vectors, and as integers with explicit wrap-around) and cvc5 --solve-bv-as-int=sum',solver_s=round(sum(r.get('solver_s',0) or 0 for r in res),2),queries=sum(r.get('queries',0) or 0 for r in res))
    trusted=sorted({t for r in res for t in (r['stats'].get('handled') or [])})
    import stdlib
    ev=dict(property=pid,tier=tier,seed=seed,level=P.get('level','proof'),wall_s=round(time.time()-t0,2),violations=viol,
      coverage=dict(obligations=nobs,discharged=nok,
        checker_cmd=f'python3 check.py {pid} {tier}',
        trusted_base=['clang-18 front end (C++ to LLVM IR of /repo headers)','ndv verification condition generator (/verif/ndv)','z3 4.8.12','cvc5 1.1.2']+[f'assumed contract: {x}' for x in trusted],
        explanation=P.get('explain',''),
        functions_under_contract=sorted({(r['fn'] or r['name']) for r in res}),
        per_contract=[dict(contract=r['name'],property=r['group'],function=r['fn'],obligations=len(r['obs']),discharged=sum(1 for o in r['obs'] if o[1]=='proved'),seconds=round(r.get('time',0),2),contracts_used=r['stats'].get('contracts') or [],**({'bounded':r['bounded']} if r.get('bounded') else {}),**({'error':r['error']} if r['error'] else {})) for r in sorted(res,key=lambda r:r['name'])],
        back_end=be, bounded_contracts=bnd, **({'bounded_stand_in':bounded,'evaluations':bounded['evaluations'],'distinct_nontrivial':bounded['distinct_nontrivial'],'rule':P.get('rule',''),'samples':bounded['samples']} if bounded else {}), **({'replay':rinfo[:4000]} if rinfo else {}), open=lines[:40]),
      assumptions=P.get('assume',[])+GENERAL)
    os.makedirs(os.path.join(ROOT,'evidence'),exist_ok=True)
    with open(os.path.join(ROOT,'evidence',pid+'.json'),'w') as f: json.dump(ev,f,indent=1,default=str)
    print(f'{pid}: {nok}/{nobs} obligations discharged in {len(res)} contracts, {time.time()-t0:.1f}s')
    return viol
GENERAL=['partial correctness: termination is not proved',
 'memory allocation either succeeds or throws; exceptions of the standard library end the operation and are not followed further',
 'distinct allocations and distinct unrelated arguments do not overlap',
 'the code is verified as compiled for x86-64 Linux by clang 18 with assertions enabled']
def replay(pid,tier,seed,P,work,t0,budget=None):
    src=os.path.join(ROOT,'replay',P.get('replay',pid)+'.cpp')
    if not os.path.exists(src): return False,'no replay program'
    exe=os.path.join(work,'replay'); d=os.path.join(work,'scratch'); os.makedirs(d,exist_ok=True)
    c=subprocess.run(['g++','-std=c++14','-g','-O1','-w','-fsanitize=address,undefined','-fno-sanitize=alignment','-fno-sanitize-recover=undefined','-I'+os.path.join(REPO,'include'),'-I'+os.path.join(ROOT,'replay'),src,'-o',exe,'-lboost_system','-lboost_filesystem','-lboost_thread','-lpthread']+P.get('ldflags',[]),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if c.returncode: return False,'replay program does not compile:\n'+c.stdout[-3000:]
    left=840-(time.time()-t0) if tier=='quick' else 1800
    budget=max(10,min(budget or P.get('budget',150),left-60)); out=os.path.join(work,'case.txt'); info=''
    env=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1',UBSAN_OPTIONS='print_stacktrace=1')
    try:
        r=subprocess.run([exe,str(seed),str(int(budget)),d,out],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=budget+45,env=env,cwd=d)
        rc=r.returncode; txt=r.stdout.decode('latin1')[-6000:]
    except subprocess.TimeoutExpired as e: rc=99; txt='no progress: time limit of the replay exceeded\n'
    if os.path.exists(out): info=open(out,errors='replace').read()[-8000:]
    info+=txt
    if rc==0: return False,'no failing input found (seed %d)\n'%seed+info
    return True,f'failing input (seed {seed}, exit {rc}):\n'+info
main()
