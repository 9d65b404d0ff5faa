"""Proof driver: verifies a list of specs against the current tree, in parallel."""
import os, sys, time, re, pickle, traceback, multiprocessing as mp, tempfile, shutil, signal
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE)
import build
def prep(work):
    import spec
    b=build.load(work)
    spec.OFF.update(b['OFF']); spec.E.update(b['E']); spec.V.update(b['V'])
    return b
def find(mod,sp):
    rx=re.compile(sp.fn)
    c=[n for n,d in mod.dem.items() if mod.defined(n) and rx.search(d)]
    if not c: c=[n for n in mod.fh if mod.defined(n) and rx.search(n)]
    return c
def verify_one(bc,sp,contracts,limit,verbose=0):
    "in a child process"
    import execu, loops, ll, stdlib, terms
    t=time.time(); res={'name':sp.name,'group':sp.group,'obs':[],'error':None,'fn':None,'stats':{}}
    try:
        mod=ll.Module(bc if not getattr(sp,'ndebug',False) else os.path.join(os.path.dirname(bc),'vn.bc'))
        c=find(mod,sp) if sp.fn else ['-']
        if not c: res['error']=f'function under contract not found: {sp.fn}'; return res
        if len(c)>1: 
            c=sorted(c,key=len)
        res['fn']=mod.dem[c[0]] if sp.fn else 'lemma'
        X=execu.Exec(mod,stdlib.handlers(),[c for c in contracts if c.name not in getattr(sp,'nocontract',())])
        X.deadline=t+limit
        for k,v in getattr(sp,'opts',{}).items(): setattr(X.inc if k=='z3first' else X,k,v)
        try: sp.verify(X,c[0])
        except terms.Unsupported as e: res['error']='outside the verifier\'s reach: '+str(e)
        except TimeoutError as e: res['error']='time limit: '+str(e)
        except Exception as e: res['error']='verifier error: '+''.join(traceback.format_exception_only(type(e),e)).strip()+' @ '+'|'.join(f'{f.filename.split("/")[-1]}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)[-4:])
        res['obs']=[(o.label,o.status,round(o.time,3),o.fn,o.line,o.trace if o.status!='proved' else None,o.info) for o in X.obs]
        res['stats']={k:(sorted(v) if isinstance(v,set) else v) for k,v in X.stats.items()}
        res['solver_s']=X.inc.t; res['queries']=X.inc.q
    except Exception as e:
        res['error']='verifier error: '+traceback.format_exc()[-1500:]
    res['time']=time.time()-t
    return res
def _child(conn,*a):
    try:
        sys.setrecursionlimit(20000)
        r=verify_one(*a)
    except BaseException as e: r={'name':a[1].name,'group':a[1].group,'obs':[],'error':repr(e),'fn':None,'stats':{}}
    conn.send_bytes(pickle.dumps(r)); conn.close()
def run_specs(bc,specs,contracts,limit=300,total=600,jobs=8):
    import threading; threading.stack_size(256<<20)
    todo=sorted(specs,key=lambda s:-getattr(s,'cost',1)); run=[]; out=[]; t0=time.time()
    ctx=mp.get_context('fork')
    while todo or run:
        while todo and len(run)<jobs:
            sp=todo.pop(0); a,b=ctx.Pipe(False)
            p=ctx.Process(target=_child,args=(b,bc,sp,contracts,limit)); p.start(); b.close(); run.append((p,a,sp,time.time()))
        for x in list(run):
            p,a,sp,ts=x
            if a.poll(0.02):
                try: out.append(pickle.loads(a.recv_bytes()))
                except EOFError: out.append({'name':sp.name,'group':sp.group,'obs':[],'error':'verifier process died','fn':None,'stats':{}})
                p.join(); run.remove(x)
            elif time.time()-ts>limit+60 or time.time()-t0>total:
                p.kill(); p.join(); run.remove(x)
                out.append({'name':sp.name,'group':sp.group,'obs':[],'error':'time limit','fn':None,'stats':{}})
        if time.time()-t0>total and todo:
            for sp in todo: out.append({'name':sp.name,'group':sp.group,'obs':[],'error':'time limit (not started)','fn':None,'stats':{}})
            todo=[]
    return out
def summary(res,all=False):
    for r in sorted(res,key=lambda r:r['name']):
        n=len(r['obs']); bad=[o for o in r['obs'] if o[1]!='proved']
        print(f"{r['name']:34s} {n:4d} obligations, {len(bad)} open, {r.get('time',0):6.1f}s {('ERR '+r['error']) if r['error'] else ''}")
        for o in bad[:12 if not all else 999]: print('     ',o[1],o[0],'@',o[4],o[5][-6:] if o[5] else '',(o[6] or '')[:300] if all else '')
if __name__=='__main__':
    # developer entry: run.py <spec name regex> 
    import importlib
    w='/tmp/w/bld'
    if os.environ.get('NB') and os.path.exists(w+'/v.bc'):
        import json,spec
        d=pickle.load(open(w+'/b.pkl','rb')); spec.OFF.update(d['OFF']); spec.E.update(d['E']); spec.V.update(d['V'])
    else:
        d=prep(w); pickle.dump(d,open(w+'/b.pkl','wb'))
    import lib
    rx=re.compile(sys.argv[1])
    sps=[s for s in lib.proofs() if rx.search(s.name) or rx.search(s.group)]
    if len(sps)==1 and os.environ.get('INPROC'):
        sys.setrecursionlimit(20000)
        res=[verify_one(d['bc'],sps[0],lib.contracts(),3000)]
    else: res=run_specs(d['bc'],sps,lib.contracts(),limit=int(os.environ.get('LIM','600')),total=3600)
    summary(res,all='-v' in sys.argv)
