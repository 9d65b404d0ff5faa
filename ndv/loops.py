"""Loop cutting: havoc what the loop changes, assume the candidate invariants
that survive (entry + every back edge, for every iteration), continue."""
import z3
from terms import *
import mem as MM, ll, lia
from execu import Exec, PathEnd, Ob, dbg, fpsort, rname, Watch as WatchT
import time, sys

def gconst(v): return not isinstance(v,(int,bool,z3.ExprRef,MM.Base,MM.Cells,MM.Sto,MM.Cpy,MM.Fil,MM.Fill0))

def cut(s,S,h,work,depth,capture):
    f=S.frames[-1]; F=f.fn; d=len(S.frames)
    key=(f.site,h)
    s.stats['loops']+=0 if s.quiet else 1
    entry=S
    if s.spec is not None: s.spec.at_loop_head(s,entry)
    name=f'{F.dem.split("(")[0][-50:]}:loop@{loopline(F,h)}'
    phis=[i for i in F.blocks[h].ins if i.op=='phi']
    H=set(('phi',i.id) for i in phis)
    def runbody(head):
        caught=[]
        def cap(n,b,T):
            if n==d and b==h:
                if s.spec is not None: s.spec.at_loop_head(s,T)
                caught.append(T)
        T=head.copy(); T.frames[-1].cuts[h]='quiet'
        s.quiet+=1
        try: s.loop([T],d,[],cap)
        finally: s.quiet-=1
        return caught
    def shape(T):
        sg=[]
        for l in sorted(H,key=str):
            v=get(T,l)
            if isinstance(v,Ptr): sg.append((l,v.r,v.nul if isinstance(v.nul,bool) else 'sym'))
            elif isinstance(v,FPtr): sg.append((l,v.name))
        for k,v in sorted(T.g.items(),key=lambda kv:str(kv[0])):
            if gconst(v) and not(isinstance(k,tuple) and k[0]=='inv'): sg.append((k,v if not isinstance(v,(list,dict)) else repr(v)))
        return tuple(sg)
    def get(T,l):
        if l[0]=='phi': return T.frames[d-1].regs.get(l[1])
        if l[0]=='cell':
            m=T.mem.get(l[1])
            if m is None: return None
            c=m.d.get(l[2]) if isinstance(m,MM.Cells) else None
            if c and c[0]==l[3]:
                v=c[1]
                if isinstance(v,MM.Lazy):
                    return MM.read(v.mem,v.o,l[3],s.mustq(T)) if l[3]<=8 else v
                return v
            try: return MM.read(m,l[2],l[3],s.mustq(T))
            except Unsupported:
                try: return MM.readp(m,l[2],s.mustq(T))
                except Unsupported: return None
        if l[0]=='size': return T.rsize.get(l[1])
        if l[0]=='g': return T.g.get(l[1])
        return None
    def havoc(tmpl,vals):
        "head state from the template's regions with everything in H fresh"
        T=entry.copy()
        for r in tmpl.mem:
            if r not in T.mem and r not in tmpl.dead:
                b=tmpl.mem[r]
                T.mem[r]=MM.Base(f'h.{rname(r)}',basekind(b)); 
                z=tmpl.rsize[r]; T.rsize[r]=z if isinstance(z,int) or z is None else fresh('hsz')
                if isinstance(z,int) and False: pass
        T.dead=frozenset(x for x in tmpl.dead if x in T.mem or x in entry.dead)
        for l in H:
            if l[0]=='phi':
                v=vals(l) if tmpl is None else get(tmpl,l)
                T.frames[d-1].regs[l[1]]=hv(v,tyw(F,l[1]),str(l[1]))
            elif l[0]=='reg':
                if l[1] in T.mem: T.mem[l[1]]=MM.Base(f'h.{rname(l[1])}',basekind(T.mem[l[1]]),ptrat=baseptr(T.mem[l[1]]))
            elif l[0]=='cell':
                if l[1] not in T.mem: continue
                v=get(tmpl,l)
                if isinstance(v,MM.Lazy) or l[3] not in(1,2,4,8) and not isinstance(v,(Ptr,FPtr)):
                    nv=MM.Lazy(MM.Base('hl','arr'),0)
                else: nv=hv(v,l[3]*8,f'{rname(l[1])}.{l[2]}')
                T.mem[l[1]]=MM.write(T.mem[l[1]],l[2],l[3],nv)
            elif l[0]=='size': 
                if l[1] in T.rsize: T.rsize[l[1]]=fresh('hsz')
            elif l[0]=='g':
                v=tmpl.g.get(l[1])
                if v is None and l[1] not in tmpl.g: T.g.pop(l[1],None)
                elif isinstance(v,(MM.Base,MM.Cells,MM.Sto,MM.Cpy,MM.Fil,MM.Fill0)): T.g[l[1]]=MM.Base('hg','arr')
                elif isinstance(v,(bool,z3.BoolRef)): T.g[l[1]]=freshb('hg')
                elif isinstance(v,(int,z3.ExprRef)): T.g[l[1]]=fresh('hg_'+(l[1] if isinstance(l[1],str) else '_'.join(map(str,l[1]))),v.size() if isinstance(v,z3.BitVecRef) else 64)
        # python-constant ghosts come from the template; invariant tokens: intersection later
        for k,v in tmpl.g.items():
            if gconst(v): T.g[k]=v
        for k in list(T.g):
            if isinstance(k,tuple) and k[0]=='inv' and (k not in tmpl.g or k in droptok): del T.g[k]
        T.terms={k:list(v) for k,v in entry.terms.items()}
        if s.spec is not None: s.spec.loop_terms(s,T,d,F,h)
        return T
    def diff(head,be):
        out=set()
        for i in phis:
            pass
        for r in head.mem:
            if r in be.dead or r in head.dead: continue
            a=head.mem[r]; b=be.mem[r]
            if a is b: pass
            else:
                ch=celldiff(a,b)
                if ch is None: out.add(('reg',r))
                else:
                    for (o,n) in ch: out.add(('cell',r,o,n))
            if not eqv(head.rsize.get(r),be.rsize.get(r)) and head.rsize.get(r) is not be.rsize.get(r): out.add(('size',r))
        for k in set(head.g)|set(be.g):
            if isinstance(k,tuple) and k[0]=='inv': continue
            x=head.g.get(k); y=be.g.get(k)
            if x is y or eqv(x,y): continue
            if gconst(x) and gconst(y): continue
            out.add(('g',k))
        return out
    droptok=set()
    s.phaseA+=1; t0=time.time()
    try:
        while True:
            heads={shape(entry):(entry,havoc(entry,None))}
            todo=list(heads); grown=False; edges=[]
            while todo:
                sg=todo.pop(); head=heads[sg][1]
                for be in runbody(head):
                    for k in head.g:
                        if isinstance(k,tuple) and k[0]=='inv' and k not in be.g and k not in droptok: droptok.add(k); grown=True
                    nd=merge(H,diff(head,be))
                    if nd: grown=True; break
                    sb=shape(be); edges.append((head,be))
                    if sb not in heads:
                        if len(heads)>8: raise Unsupported('too many loop shapes in '+name+' '+str(sb))
                        heads[sb]=(be,havoc(be,None)); todo.append(sb)
                if grown: break
            if not grown: break
    finally: s.phaseA-=1
    dbg(1,'  '*d+f'loop {name}: {len(H)} locs, {len(heads)} shapes, {time.time()-t0:.1f}s')
    if VERBL: 
        for l in sorted(H,key=str): dbg(2,'      mod',l)
    if s.phaseA:
        for sg,(t,hd) in heads.items():
            hd.frames[-1].cuts[h]='final'; work.append(hd)
        return
    # affine relations between modified scalars, read off the back edges
    affine(s,entry,heads,edges,H,get,lambda T,l,v:put(T,l,v,d))
    # substitutions proposed by the specification (proved like invariants, but not droppable)
    subst=[]
    if s.spec is not None and hasattr(s.spec,'loop_subst'):
        for l,fn in s.spec.loop_subst(s,entry,d,F,h,[l for l in sorted(H,key=str) if l[0]!='reg'],get):
            if all(isinstance(get(hd,l),(int,z3.BitVecRef)) for _,hd in heads.values()):
                vs=[fn(hd) for _,hd in heads.values()]
                if any(v is None for v in vs): continue
                for (sg,(tm,hd)),v in zip(heads.items(),vs): put(hd,l,v,d)
                subst.append((f'subst {lname(F,l)}',(lambda l,fn:lambda T:eq(get(T,l),fn(T)) if fn(T) is not None else None)(l,fn)))
    if s.spec is not None:
        for _,hd in heads.values():
            hd.terms={k:list(v) for k,v in entry.terms.items()}; s.spec.loop_terms(s,hd,d,F,h)
    # candidates
    def G(l): return lambda T: get(T,l)
    sh0=shape(entry)
    locs=[l for l in sorted(H,key=str) if l[0]!='reg']
    init={l:get(entry,l) for l in locs}
    cands=[]
    ints=[]
    for l in locs:
        v=init[l]
        if isinstance(v,(bool,z3.BoolRef)) :
            cands.append((f'{lname(F,l)}==init',(lambda l:lambda T:Iff(get(T,l),init[l]) if isinstance(get(T,l),(bool,z3.BoolRef)) else None)(l)))
        elif isinstance(v,Ptr):
            ints.append((lname(F,l),64,(lambda l:lambda T:(lambda p:p.o if isinstance(p,Ptr) and p.r==init[l].r else None)(get(T,l)))(l),v.o))
        elif v is None or v is UNDEF or isinstance(v,(FPtr,MM.Lazy,z3.FPRef)) or not isinstance(v,(int,z3.BitVecRef)): 
            if l[0]!='size' and not(l[0]=='cell' and l[3]==8): continue
            ints.append((lname(F,l),64,(lambda l:lambda T:(lambda x:x if isinstance(x,(int,z3.BitVecRef)) else None)(get(T,l)))(l),None))
        else:
            w=v.size() if isinstance(v,z3.BitVecRef) else (tyw(F,l[1])[1] if l[0]=='phi' else l[3]*8 if l[0]=='cell' else 64)
            ints.append((lname(F,l),w,(lambda l:lambda T:(lambda x:x if isinstance(x,(int,z3.BitVecRef)) else None)(get(T,l)))(l),v))
    extra=[]
    if s.spec is not None:
        for (nm,w,fn) in s.spec.loop_scalars(s,entry,d,F,h):
            try: v=fn(entry)
            except Unsupported: v=None
            ints.append((nm,w,fn,v))
        for (nm,w,v) in s.spec.loop_bounds(s,entry,d,F,h): extra.append((nm,w,v))
    # bounds appearing in comparisons of the loop
    body=F.loops[h]
    for b in body:
        for i in F.blocks[b].ins:
            if i.op=='icmp':
                for o in i.ops:
                    try:
                        if isinstance(o,ll.Ref):
                            v=entry.frames[-1].regs.get(o.id)
                            if any(q.id==o.id for q in phis): continue
                            w=s.tyof(entry.frames[-1],o).w
                        elif isinstance(o,ll.Const): v=o.v; w=o.ty.w
                        else: continue
                    except Exception: continue
                    if isinstance(v,(int,z3.BitVecRef)) and not isinstance(v,bool) and w>1 and not any(eqv(v,e[2]) for e in extra):
                        extra.append((f'k{str(v)[:20]}',w,v))
    def N(fn,g): # None-propagating
        def r(T):
            xs=[a(T) for a in fn]
            return None if any(x is None for x in xs) else g(*xs)
        return r
    for (nm,w,fn,v0) in ints:
        if v0 is not None:
            cands.append((f'{nm}==init',N([fn],lambda x,v0=v0,w=w:eq(x,v0,w))))
            cands.append((f'{nm}>=init',N([fn],lambda x,v0=v0,w=w:uge(x,v0,w))))
            cands.append((f'{nm}<=init',N([fn],lambda x,v0=v0,w=w:ule(x,v0,w))))
        for (bn,bw,bvv) in extra:
            if bw==w:
                cands.append((f'{nm}<={bn}',N([fn],lambda x,b=bvv,w=w:ule(x,b,w))))
                if bn.startswith('='): cands.append((f'{nm}=={bn}',N([fn],lambda x,b=bvv,w=w:eq(x,b,w))))
    lim=ints if len(ints)<=16 else ints[:16]
    for a in range(len(lim)):
        for b in range(len(lim)):
            if a==b or lim[a][1]!=lim[b][1]: continue
            w=lim[a][1]
            if a<b:
                cands.append((f'{lim[a][0]}=={lim[b][0]}',N([lim[a][2],lim[b][2]],lambda x,y,w=w:eq(x,y,w))))
                if lim[a][3] is not None and lim[b][3] is not None:
                    df=sub(lim[a][3],lim[b][3],w)
                    cands.append((f'{lim[a][0]}-{lim[b][0]} const',N([lim[a][2],lim[b][2]],lambda x,y,df=df,w=w:eq(sub(x,y,w),df,w))))
            if a<b and lim[a][3] is not None and lim[b][3] is not None:
                sm=add(lim[a][3],lim[b][3],w)
                cands.append((f'{lim[a][0]}+{lim[b][0]} const',N([lim[a][2],lim[b][2]],lambda x,y,sm=sm,w=w:eq(add(x,y,w),sm,w))))
            cands.append((f'{lim[a][0]}<={lim[b][0]}',N([lim[a][2],lim[b][2]],lambda x,y,w=w:ule(x,y,w))))
    if s.spec is not None:
        cands+= s.spec.loop_inv(s,entry,d,F,h,[(n,w,fn) for n,w,fn,_ in ints])
    cands=subst+cands
    ck=(key,sh0)
    if ck in s.loopcache and s.quiet:
        keep=s.loopcache[ck]; cands=[c for c in cands if c[0] in keep.get(None,())]
    # evaluate per shape
    surv={}
    for sg in heads:
        surv[sg]=dict()
    def ev(c,T):
        try: return c(T)
        except Unsupported: return None
    for sg,(tm,hd) in heads.items():
        for (nm,c) in cands:
            v=ev(c,hd)
            if (v is None or v is True) and not nm.startswith('subst '): continue
            surv[sg][nm]=c
    t1=time.time()
    # initiation
    filt(s,entry,surv[sh0],ev)
    dbg(2,'  '*d+f'   initiation: {len(surv[sh0])}/{len(cands)} {time.time()-t1:.1f}s')
    rounds=0
    while True:
        rounds+=1
        changed=False
        prevpres=[]
        for sg,(tm,hd) in heads.items():
            T=hd.copy(); dead=False
            for nm,c in surv[sg].items():
                v=ev(c,T)
                if v is None: continue
                try: s.assume(T,v)
                except PathEnd: dead=True
            if dead: continue
            for be in runbody(T):
                nd=merge(set(H),diff(T,be))
                if nd: raise Unsupported(f'loop {name} modifies more than discovered: {list(nd)[:3]}')
                sb=shape(be)
                if sb not in heads: raise Unsupported('new loop shape late: '+name)
                for k in T.g:
                    if isinstance(k,tuple) and k[0]=='inv' and k not in be.g: raise Unsupported('token lost in loop '+name)
                n0=len(surv[sb])
                filt(s,be,surv[sb],ev)
                prevpres.append((sb,len(surv[sb])))
                if len(surv[sb])<n0:
                    changed=True
        dbg(2,'  '*d+f'   round {rounds}: {[len(x) for x in surv.values()]} {time.time()-t1:.1f}s')
        if not changed: break
    for nm,_ in subst:
        if any(nm not in x for x in surv.values()): raise Unsupported(f'loop {name}: {nm} is not inductive')
    s.loopcache[ck]={None:set().union(*[set(x) for x in surv.values()])}
    dbg(1,'  '*d+f'loop {name}: inv {[len(x) for x in surv.values()]} of {len(cands)}, {rounds} rounds, {time.time()-t0:.1f}s')
    for sg in surv: dbg(2,'      inv:',sorted(surv[sg])[:120])
    if not s.quiet:
        for sb,n in prevpres:
            for nm in surv[sb]:
                s.obs.append(Ob(f'loop invariant preserved: {nm}','proved',0,s.cur,name,None,None))
        for nm in surv[sh0]: s.obs.append(Ob(f'loop invariant initially: {nm}','proved',0,s.cur,name,None,None))
    for sg,(tm,hd) in heads.items():
        T=hd.copy(); ok=True
        for nm,c in surv[sg].items():
            v=ev(c,T)
            if v is None: continue
            try: s.assume(T,v)
            except PathEnd: ok=False
        if not ok: continue
        T.frames[-1].cuts[h]='final'
        T.trace.append(('loop',loopline(F,h),'iter'))
        work.append(T)
Exec.cut=cut

def put(T,l,v,d):
    if l[0]=='phi':
        o=T.frames[d-1].regs[l[1]]
        T.frames[d-1].regs[l[1]]=Ptr(o.r,v,o.nul) if isinstance(o,Ptr) else v
    elif l[0]=='cell':
        m=T.mem[l[1]]; o=m.d[l[2]][1]
        T.mem[l[1]]=MM.write(m,l[2],l[3],Ptr(o.r,v,o.nul) if isinstance(o,Ptr) else v)
    elif l[0]=='size': T.rsize[l[1]]=v
    elif l[0]=='g': T.g[l[1]]=v
def affine(s,entry,heads,edges,H,get,put):
    import math
    def val(T,l,r=None):
        v=get(T,l)
        if isinstance(v,Ptr): return (v.o,64,v.r)
        if isinstance(v,bool): return None
        if isinstance(v,int): return (v,None,None)
        if isinstance(v,z3.BitVecRef): return (v,v.size(),None)
        return None
    cls={}
    for l in sorted(H,key=str):
        if l[0]=='reg': continue
        i0=val(entry,l)
        if i0 is None: continue
        w=i0[1]; sig=[]
        ok=True
        for hd,be in edges:
            a=val(hd,l); b=val(be,l)
            if a is None or b is None or a[2]!=i0[2] or b[2]!=i0[2]: ok=False; break
            w=w or a[1] or b[1]
            if not w: ok=False; break
            try: x=sub(b[0],a[0],w)
            except Exception: ok=False; break
            sig.append(x)
        if not ok or not w or not edges: continue
        if any(val(hd,l) is None or not isinstance(val(hd,l)[0],z3.ExprRef) for _,hd in heads.values()): continue
        if all(isinstance(x,int) for x in sig):
            sv=[sgn(x,w) for x in sig]; g=0
            for x in sv: g=math.gcd(g,x)
            if g==0: key=(w,'zero'); c=0
            else:
                sg=1 if [x for x in sv if x][0]>0 else -1
                c=sg*g; key=(w,'k',tuple(x//c for x in sv))
        else:
            key=(w,'e',tuple(str(x) for x in sig)); c=1
            neg=(w,'e',tuple(str(sub(0,x,w)) for x in sig))
            if neg in cls and key not in cls: key=neg; c=-1
        cls.setdefault(key,[]).append((l,c,i0[0]))
    for sg,(tm,hd) in heads.items():
        for key,ls in cls.items():
            w=key[0]
            if key[1]=='zero':
                for l,c,i in ls: put(hd,l,i)
                continue
            t=fresh('it',w)
            for l,c,i in ls: put(hd,l,add(i,mul(c&M(w),t,w),w))

def quick(s,T,ins,v):
    "is v valid in T (bounded effort)"
    q=lia.solve(T.pc+ins+[Not(v)],400)
    if q.st=='unsat': return True
    if q.st=='sat' and q.exact: return False
    r=s.inc.check(T.pc,ins+[Not(v)],timeout=400)[0]
    if r!='unsat': dbg(3,'     dropped',str(v)[:60].replace('\n',' '),r,q.st,len(ins),len(T.pc))
    return r=='unsat'
Exec.quick=quick
def filt(s,T,cs,ev):
    "drop the candidates not provable in T"
    live={}
    alls={}
    for nm,c in list(cs.items()):
        v=ev(c,T)
        if v is None:
            if not nm.startswith('subst '): del cs[nm]
            continue
        if v is True: continue
        if v is False: del cs[nm]; continue
        if isinstance(v,Forall): alls[nm]=v
        else: live[nm]=v
    ins=s.insts(T)
    if live and s.inc.check(T.pc,ins,timeout=3000)[0]=='unsat': return
    while live:
        q=lia.solve(T.pc+ins+[Or(*[Not(v) for v in live.values()])],1000,[tb(v) for v in live.values()])
        if q.st=='unsat': break
        if q.st=='sat':
            bad=[nm for (nm,v),x in zip(live.items(),q.m) if x is False]
            if not q.exact: bad=[nm for nm in bad if not s.quick(T,ins,live[nm])]
            if bad:
                for nm in bad: del live[nm]; del cs[nm]
                continue
        bad=[nm for nm,v in live.items() if not s.quick(T,ins,v)]
        for nm in bad: del live[nm]; del cs[nm]
        break
    for nm,v in alls.items():
        st,_=s.valid(T,v,timeout=15000,full=False)
        if st!='proved': 
            dbg(3,'     dropped',nm,st); del cs[nm]

VERBL=True
def lname(F,l):
    if l[0]=='phi': return f'%{l[1]}'
    if l[0]=='cell': return f'{rname(l[1])[-24:]}+{l[2]}'
    return '_'.join(map(str,l))[:60]
def loopline(F,h):
    for i in F.blocks[h].ins:
        if i.line: return i.line
    return 0
def tyw(F,id):
    if not hasattr(F,'tym'): F.tym={i.id:i.ty for b in F.blocks for i in b.ins}
    t=F.tym[id]; return (t.k,t.w)
def hv(v,w,name):
    k='i'
    if isinstance(w,tuple): k,w=w
    if isinstance(v,FPtr): return v
    if isinstance(v,Ptr):
        if v.r is None: return NULL
        return Ptr(v.r,fresh('h_'+name),v.nul if isinstance(v.nul,bool) else freshb('hn'))
    if isinstance(v,z3.FPRef) or k=='f': return z3.FP(f'h_{name}!{uid()}',fpsort(w))
    if isinstance(v,(bool,z3.BoolRef)) or w==1: return freshb('h_'+name)
    return fresh('h_'+name,w)
def basekind(m):
    while not isinstance(m,(MM.Base,MM.Fill0)): m=m.below
    return m.kind if isinstance(m,MM.Base) else 'arr'
def baseptr(m):
    while not isinstance(m,(MM.Base,MM.Fill0)): m=m.below
    return m.ptrat if isinstance(m,MM.Base) else None
def celldiff(a,b):
    "changed cells of b relative to a; None if not expressible"
    if isinstance(a,MM.Cells) and isinstance(b,MM.Cells) and a.below is b.below: da,db=a.d,b.d
    elif isinstance(b,MM.Cells) and b.below is a: da,db={},b.d
    else: return None
    out=[]
    for o in set(da)|set(db):
        x=da.get(o); y=db.get(o)
        if x is not None and y is not None and x[0]==y[0]:
            u,v=x[1],y[1]
            if u is v or eqv(u,v): continue
            if isinstance(u,MM.Lazy) and isinstance(v,MM.Lazy) and u.mem is v.mem and eqv(u.o,v.o): continue
            out.append((o,x[0]))
        elif y is not None: out.append((o,y[0]))
        else: out.append((o,x[0]))
    return out
def merge(H,new):
    "add to H; returns what was really new"
    res=set()
    for l in new:
        if l in H: continue
        if l[0]=='cell':
            if ('reg',l[1]) in H: continue
            r,o,n=l[1:]
            if any(k[0]=='cell' and k[1]==r and k[2]<=o and o+n<=k[2]+k[3] for k in H): continue
            ov=[k for k in H if k[0]=='cell' and k[1]==r and k[2]<o+n and o<k[2]+k[3]]
            if ov:
                lo=min([o]+[k[2] for k in ov]); hi=max([o+n]+[k[2]+k[3] for k in ov])
                for k in ov: H.discard(k)
                l=('cell',r,lo,hi-lo)
            H.add(l); res.add(l)
        else:
            if l[0]=='reg':
                for k in [k for k in H if k[0]=='cell' and k[1]==l[1]]: H.discard(k)
            H.add(l); res.add(l)
    return res
