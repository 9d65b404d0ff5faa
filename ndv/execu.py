"""Symbolic executor / verification-condition generator over LLVM IR with
function contracts, loop invariants (Houdini-filtered) and ghost state."""
import z3, re, time, os, sys
from terms import *
import mem as MM
import ll, lia

VERB=int(os.environ.get('NDV_VERB','0'))
def dbg(n,*a):
    if VERB>=n: print(*a,file=sys.stderr,flush=True)

class Inc:
    "incremental solver following the depth-first path condition"
    def __init__(s,timeout=4000):
        s.timeout=timeout; s.n=0; s._new()
        s.t=0.0; s.q=0
    def _new(s):
        s.sol=z3.Solver(); s.sol.set('timeout',s.timeout); s.stack=[]; s.n=0
    def sync(s,pc):
        k=0; st=s.stack; m=min(len(st),len(pc))
        while k<m and st[k] is pc[k]: k+=1
        if len(st)>k:
            s.sol.pop(len(st)-k); del st[k:]
        for c in pc[k:]:
            s.sol.push(); s.sol.add(c); st.append(c)
    def check(s,pc,extra=(),timeout=None,watch=None):
        t=time.time(); s.q+=1; s.n+=1
        if s.n>4000: s._new()
        s.sync(pc)
        s.sol.push()
        ex=[tb(e) for e in extra]
        for e in ex: s.sol.add(e)
        full=timeout or s.timeout
        s.sol.set('timeout',min(full,s.z3first))
        r=s.sol.check()
        model=None
        if r==z3.sat:
            try: model=s.sol.model()
            except z3.Z3Exception: model=None
        s.sol.pop()
        r=str(r)
        if r=='unknown' and full>s.z3first and lia.refute(list(pc)+ex,min(full,1000)): r='unsat'
        if r=='unknown' and full>s.z3first:
            s.nc+=1; t1=time.time()
            r,model=cvc5q(list(pc)+ex,full,watch); s.tc+=time.time()-t1
        s.t+=time.time()-t
        return r,model
    z3first=400; nc=0; tc=0.0

import subprocess
CVC5='cvc5'
def cvc5q(cs,timeout,watch=None):
    """second back end: cvc5 with bit-vectors translated to (exact) integer arithmetic.
    returns (status, None | Watch values)"""
    sol=z3.Solver()
    for c in cs: sol.add(tb(c))
    names=[]
    if watch:
        for k,w in enumerate(watch):
            b=z3.Bool(f'watch!{k}'); names.append(f'watch!{k}'); sol.add(b==tb(w))
    txt=sol.to_smt2()
    if 'fp.' in txt or 'FloatingPoint' in txt: opts=[]
    else: opts=['--solve-bv-as-int=sum']
    gv=''
    if names: gv='(get-value ('+' '.join('|'+n+'|' for n in names)+'))'
    txt='(set-logic ALL)\n'+txt+gv
    try:
        r=subprocess.run([CVC5,*opts,'--produce-models',f'--tlimit={int(timeout)}','--lang=smt2'],input=txt,capture_output=True,text=True,timeout=timeout/1000+5)
    except subprocess.TimeoutExpired: return 'unknown',None
    o=r.stdout
    if o.startswith('unsat'): return 'unsat',None
    if o.startswith('sat'):
        vals=None
        if names:
            vals=Watch([re.search(r'\|?'+re.escape(n)+r'\|? (true|false)\)',o) for n in names])
        return 'sat',vals
    return 'unknown',None
class Watch:
    def __init__(s,ms): s.v=[None if m is None else m.group(1)=='true' for m in ms]

class State:
    __slots__=('pc','mem','rsize','dead','g','univ','terms','frames','trace','own','addr')
    def __init__(s):
        s.pc=[]; s.mem={}; s.rsize={}; s.dead=frozenset(); s.g={}; s.univ=[]; s.terms={}; s.frames=[]; s.trace=[]; s.own=frozenset(); s.addr={}
    def copy(s):
        n=State.__new__(State)
        n.pc=list(s.pc); n.mem=dict(s.mem); n.rsize=dict(s.rsize); n.dead=s.dead; n.g=dict(s.g); n.univ=list(s.univ)
        n.terms={k:list(v) for k,v in s.terms.items()}; n.frames=[f.copy() for f in s.frames]; n.trace=list(s.trace); n.own=s.own; n.addr=s.addr
        return n
    def term(s,tag,*ts):
        l=s.terms.setdefault(tag,[])
        for t in ts:
            if not any(eqv(t,x) for x in l): l.append(t)
    def new(s,rid,size,base=None,kind='obj'):
        s.mem[rid]=base if base is not None else MM.Base(str(rid),kind); s.rsize[rid]=size
        return Ptr(rid,0)

class Frame:
    __slots__=('fn','bb','ip','regs','ret','cuts','allocas','site','unroll')
    def __init__(s,fn,site):
        s.fn=fn; s.bb=0; s.ip=0; s.regs={}; s.ret=None; s.cuts={}; s.allocas=[]; s.site=site; s.unroll={}
    def copy(s):
        n=Frame.__new__(Frame)
        n.fn=s.fn; n.bb=s.bb; n.ip=s.ip; n.regs=dict(s.regs); n.ret=s.ret; n.cuts=dict(s.cuts); n.allocas=list(s.allocas); n.site=s.site; n.unroll=dict(s.unroll)
        return n

class Ob:
    __slots__=('label','status','time','fn','line','trace','model','info','backend')
    def __init__(s,label,status,t,fn,line,trace,model,info='',backend='z3'):
        s.label=label; s.status=status; s.time=t; s.fn=fn; s.line=line; s.trace=trace; s.model=model; s.info=info; s.backend=backend

class PathEnd(Exception):
    def __init__(s,kind): s.kind=kind

class Exec:
    def __init__(s,mod,handlers=None,contracts=None,opts=None):
        s.mod=mod; s.inc=Inc(); s.inc2=Inc(); s.obs=[]; s.quiet=0; s.handlers=handlers or []; s.contracts=contracts or []
        s.opts=opts or {}; s.hcache={}; s.cur=None; s.stats={'paths':0,'ins':0,'loops':0,'inlined':set(),'contracts':set(),'handled':set()}
        s.loopcache={}; s.on_abort=None; s.notes=[]; s.fp_opaque=True
        s.deadline=None; s.spec=None; s.phaseA=0
        s.mustcache={}
        s.tl=int(s.opts.get('timeout',60000))
    # ---------- logic
    def insts(s,S,extra_terms=None,filt=None):
        out=[]
        for u in S.univ:
            lists=[list(S.terms.get(t,())) for t in u.tags]
            if extra_terms:
                for i,t in enumerate(u.tags):
                    for x in extra_terms.get(t,()):
                        if not any(eqv(x,y) for y in lists[i]): lists[i].append(x)
            if len(lists)==1:
                for a in lists[0]:
                    k=(id(u),s._tk(a))
                    v=s.icache.get(k)
                    if v is None: v=s.icache[k]=(tb(u.fn(a)),u,a)
                    out.append(v[0])
            elif len(lists)==2:
                for a in lists[0]:
                    for b in lists[1]:
                        k=(id(u),s._tk(a),s._tk(b))
                        v=s.icache.get(k)
                        if v is None: v=s.icache[k]=(tb(u.fn(a,b)),u,a,b)
                        out.append(v[0])
        return [x for x in out if not z3.is_true(x)]
    icache={}; check_align=()
    def _tk(s,a): return a if isinstance(a,int) else ('e',a.get_id(),)
    def feasible(s,S,cond=True):
        if cond is False: return False
        r,_=s.inc.check(S.pc,[cond] if cond is not True else [],timeout=1500)
        return r!='unsat'
    def must(s,S,cond):
        "is cond valid under the path condition (quick)"
        if isinstance(cond,(bool,int)): return bool(cond)
        k=(cond.get_id(),len(S.pc),S.pc[-1].get_id() if S.pc else 0)
        c=s.mustcache.get(k)
        if c is not None and all(a is b for a,b in zip(c[0],S.pc)) : return c[1]
        if lia.refute(S.pc+[Not(cond)],200):
            s.mustcache[k]=(list(S.pc),True,cond); return True
        r,_=s.inc.check(S.pc,[Not(cond)],timeout=1500)
        s.mustcache[k]=(list(S.pc),r=='unsat',cond)
        return r=='unsat'
    def mustq(s,S):
        return lambda c: s.must(S,c)
    def assume(s,S,c):
        if isinstance(c,Forall): S.univ.append(c); return
        if isinstance(c,(bool,int)):
            if not c: raise PathEnd('infeasible')
            return
        c=z3.simplify(c) if False else c
        if z3.is_and(c):
            for x in c.children(): s.assume(S,x)
            return
        if not isinstance(c,z3.ExprRef) or z3.is_true(c): return
        i=c.get_id()
        if any(x.get_id()==i for x in S.pc): return
        S.pc.append(c)
    def valid(s,S,goal,timeout=None,full=True):
        """-> (status, model). status proved/failed/unknown"""
        extra={}
        if isinstance(goal,Forall):
            sk=[fresh('sk_'+t,w) for t,w in zip(goal.tags,goal.ws)]
            for t,k in zip(goal.tags,sk): extra.setdefault(t,[]).append(k)
            g=goal.fn(*sk)
        else: g=goal
        if isinstance(g,(bool,int)):
            if g: return 'proved',None
            ng=[]
        else: ng=[Not(g)]
        ins=s.insts(S,extra)
        if ng:
            if not hasuf(ng[0]):
                lp=[c for c in S.pc+ins if not hasuf(c)]
                if len(lp)<len(S.pc)+len(ins) and lia.refute(lp+ng,300): return 'proved',None
            q=lia.solve(S.pc+ins+ng,700)
            if q.st=='unsat': return 'proved',None
            if q.st=='sat' and q.exact and not full: return 'failed',None
        if len(ins)>2 and ng:
            r,m=s.inc.check(S.pc,ng,timeout=2500)
            if r=='unsat': return 'proved',None
        r,m=s.inc.check(S.pc,ng+ins,timeout=min(8000,timeout or 8000))
        if r=='unsat': return 'proved',None
        if r=='sat': return 'failed',m
        if not full: return 'unknown',None
        return s.hard(S.pc+ins+[tb(x) for x in ng],timeout or s.tl)
    def hard(s,cs,timeout):
        cs=[tb(c) for c in cs]
        t=time.time()
        if lia.refute(cs,10000): return 'proved',None
        r,_=cvc5q(cs,min(timeout,20000))
        if r=='unsat': return 'proved',None
        try:
            rel=relevant(cs[:-1],cs[-1])
            if len(rel)<len(cs)-1:
                r2,_=cvc5q(rel+[cs[-1]],10000)
                if r2=='unsat': return 'proved',None
        except z3.Z3Exception: pass
        if r=='sat' : return 'failed',None
        sol=z3.SolverFor('QF_UFBV'); sol.set('timeout',timeout)
        for c in cs: sol.add(c)
        try: r=sol.check()
        except z3.Z3Exception: r=z3.unknown
        if r==z3.unknown:
            sol=z3.Solver(); sol.set('timeout',timeout)
            for c in cs: sol.add(c)
            r=sol.check()
        dbg(1,'  hard query',r,round(time.time()-t,1),'s')
        if os.environ.get('NDV_DUMP') and r!=z3.unsat:
            open(f"/tmp/w/hard_{uid()}.smt2",'w').write(sol.to_smt2())
        if r==z3.unsat: return 'proved',None
        if r==z3.sat: return 'failed',sol.model()
        return 'unknown',None
    def prove(s,S,cond,label,line=None,keep=True):
        "obligation; afterwards the condition is assumed"
        if isinstance(cond,list):
            for i,c in enumerate(cond): s.prove(S,c,f'{label}.{i}')
            return
        if s.quiet:
            if keep or cond is False: s.assume(S,cond)
            return
        t=time.time()
        st,m=s.valid(S,cond)
        if line is None and S.frames:
            line=s.where(S)
        ob=Ob(label,st,time.time()-t,s.cur,line,list(S.trace) if st!='proved' else None,None,'')
        if st!='proved':
            ob.model=m; ob.info=s.minfo(S,m)
            dbg(1,f'  !! {st}: {label} at {line}')
            if VERB>=2: dbg(2,'     trace',S.trace)
        s.obs.append(ob)
        if st=='proved' and not keep: return
        if st=='proved' or isinstance(cond,Forall): s.assume(S,cond)
        elif cond is False: raise PathEnd('dead')
        else: s.assume(S,cond)
        if st!='proved' and not isinstance(cond,Forall) and not s.feasible(S): raise PathEnd('dead')
    def minfo(s,S,m):
        if m is None: return ''
        out=[]
        try:
            for d in m.decls():
                if d.arity()==0:
                    v=m[d]
                    if z3.is_bv_value(v) or z3.is_true(v) or z3.is_false(v): out.append(f'{d.name()}={v}')
        except Exception: pass
        return '; '.join(sorted(out)[:200])
    def where(s,S):
        for f in reversed(S.frames):
            if f.fn is None: continue
            try:
                i=f.fn.blocks[f.bb].ins[min(f.ip,len(f.fn.blocks[f.bb].ins)-1)]
                return f'{f.fn.dem.split("(")[0][-60:]}:{i.line}'
            except Exception: pass
        return '?'
    # ---------- memory
    def chk(s,S,p,n,what):
        if isinstance(p,int): p=Ptr(None,p,True) if p==0 else p
        if not isinstance(p,Ptr): raise Unsupported(f'{what} through non-pointer {p!r}')
        if p.nul is not False:
            s.prove(S,Not(p.nul) if isinstance(n,int) else Or(eq(n,0),Not(p.nul)),'memory: null dereference')
            if p.r is None: raise PathEnd('dead')
        if p.r in S.dead: s.prove(S,False,f'memory: use after free/scope of {p.r}')
        sz=S.rsize.get(p.r)
        if sz is None: return
        if isinstance(p.o,int) and isinstance(n,int) and isinstance(sz,int):
            if p.o+n<=sz: return
        c=And(ule(p.o,sz),ule(n,sub(sz,p.o)))
        if c is True: return
        s.prove(S,Or(eq(n,0),c) if not(isinstance(n,int) and n>0) else c,f'memory: {what} in bounds of {rname(p.r)}',keep=False)
    def region(s,S,p):
        if p.r not in S.mem:
            if isinstance(p.r,str) and p.r.startswith('@'): s.mkglobal(S,p.r[1:])
            else: S.new(p.r,None,kind='obj')
        return S.mem[p.r]
    def load(s,S,p,ty):
        s.chk(S,p,ty.size,'read')
        m=s.region(S,p); mq=s.mustq(S)
        if ty.k=='p': return s.aspтr(MM.readp(m,p.o,mq)) if False else s.asptr(MM.readp(m,p.o,mq))
        if ty.k=='i':
            v=MM.read(m,p.o,ty.size,mq)
            if isinstance(v,(Ptr,FPtr)): return s.ptrint(S,v)
            return trunc(v,ty.size*8,ty.w) if ty.w!=ty.size*8 else v
        if ty.k=='f':
            v=MM.read(m,p.o,ty.size,mq)
            if isinstance(m,MM.Cells) and isinstance(p.o,int):
                c=m.d.get(p.o)
                if c and c[0]==ty.size and isinstance(c[1],z3.FPRef): return c[1]
            return z3.fpBVToFP(bv(v,ty.w),fpsort(ty.w))
        if ty.k in('s','a'):
            els=[]
            for i in range(len(ty.els) if ty.k=='s' else ty.n):
                et=ty.els[i] if ty.k=='s' else ty.els[0]
                off=ty.offs[i] if ty.k=='s' else i*et.size
                els.append(s.load(S,Ptr(p.r,add(p.o,off)),et))
            return els
        raise Unsupported('load '+repr(ty))
    def asptr(s,v):
        if isinstance(v,(Ptr,FPtr)): return v
        if isinstance(v,int) and v==0: return NULL
        if v is UNDEF: return Ptr('undefptr',0)
        raise Unsupported('int used as pointer')
    def ptrint(s,S,p):
        if isinstance(p,FPtr): return z3.BitVec('addr_'+p.name,64)
        if p.r is None: return p.o
        a=z3.BitVec(f'addr_{p.r}',64)
        return add(If(p.nul,0,a),p.o)
    def store(s,S,p,ty,v):
        s.chk(S,p,ty.size,'write')
        if ty.k in('s','a'):
            for i,e in enumerate(v):
                et=ty.els[i] if ty.k=='s' else ty.els[0]
                off=ty.offs[i] if ty.k=='s' else i*et.size
                s.store(S,Ptr(p.r,add(p.o,off)),et,e)
            return
        m=s.region(S,p)
        if ty.k=='i' and ty.w!=ty.size*8 and v is not UNDEF: v=zext(v,ty.w,ty.size*8)
        S.mem[p.r]=MM.write(m,p.o,ty.size,v)
        s.onwrite(S,p,ty.size)
    def onwrite(s,S,p,n):
        # writing fields of an object drops its invariant token
        toks=[k for k in S.g if isinstance(k,tuple) and k[0]=='inv' and k[1]==p.r]
        for k in toks:
            if isinstance(p.o,int) and isinstance(n,int) and (p.o+n<=k[2] or p.o>=k[2]+k[3]): continue
            del S.g[k]
    def rd(s,S,p,n=8,off=0):
        "spec-level read of an n byte little-endian field (no bounds obligation)"
        return MM.read(s.region(S,p),add(p.o,off),n,s.mustq(S))
    def rdp(s,S,p,off=0):
        return s.asptr(MM.readp(s.region(S,p),add(p.o,off),s.mustq(S)))
    def wr(s,S,p,off,n,v):
        s.region(S,p)
        S.mem[p.r]=MM.write(S.mem[p.r],add(p.o,off),n,v); s.onwrite(S,Ptr(p.r,add(p.o,off)),n)
    def memcpy(s,S,d,src,n,what='memcpy'):
        if isinstance(n,int) and n==0: return
        s.chk(S,d,n,what+' dest'); s.chk(S,src,n,what+' src')
        if d.r is None or src.r is None: return
        m=s.region(S,src); dm=s.region(S,d)
        S.mem[d.r]=MM.copy(dm,d.o,n,m,src.o); s.onwrite(S,d,n)
    def memset(s,S,d,v,n):
        if isinstance(n,int) and n==0: return
        s.chk(S,d,n,'memset dest')
        if d.r is None: return
        S.mem[d.r]=MM.fill(s.region(S,d),d.o,n,v); s.onwrite(S,d,n)
    def mkglobal(s,S,name):
        rid='@'+name
        if name not in s.mod.gh: S.new(rid,None); return
        ty,init,const=s.mod.ginit(name)
        if init is None or not const and not isinstance(init,(ll.Zero,)) and False:
            S.new(rid,None); return
        if init is None: S.new(rid,None); return
        if not const: S.new(rid,ty.size); return
        S.new(rid,ty.size,MM.Fill0(0))
        s.ginit(S,rid,0,ty,init)
    def ginit(s,S,rid,off,ty,v):
        if isinstance(v,ll.Zero): return
        if isinstance(v,ll.Str):
            for i,b in enumerate(v.b): S.mem[rid]=MM.write(S.mem[rid],off+i,1,b)
            return
        if isinstance(v,ll.Agg):
            for i,e in enumerate(v.els):
                et=ty.els[i] if ty.k=='s' else ty.els[0]
                s.ginit(S,rid,off+(ty.offs[i] if ty.k=='s' else i*et.size),et,e)
            return
        if isinstance(v,ll.Undef): return
        try: x=s.const(S,v)
        except Unsupported: return
        S.mem[rid]=MM.write(S.mem[rid],off,ty.size,x)
    # ---------- operands
    def const(s,S,v):
        if isinstance(v,ll.Const):
            if v.ty.k=='f': return z3.FPVal(v.v,fpsort(v.ty.w))
            if v.ty.w==1: return bool(v.v)
            return v.v
        if isinstance(v,ll.Null): return NULL
        if isinstance(v,ll.GRef): return Ptr('@'+v.name,0)
        if isinstance(v,ll.FRef): return FPtr(v.name)
        if isinstance(v,ll.Undef): return s.undef(v.ty)
        if isinstance(v,ll.Zero): return s.zero(v.ty)
        if isinstance(v,ll.CE):
            if v.op=='getelementptr':
                return s.gep([s.const(S,o) for o in v.ops],v.x,[o.ty if hasattr(o,'ty') else None for o in v.ops],v.ops)
            if v.op in('bitcast',): return s.const(S,v.ops[0])
            if v.op=='ptrtoint': return s.ptrint(S,s.const(S,v.ops[0]))
            raise Unsupported('constexpr '+v.op)
        if isinstance(v,ll.Agg): return [s.const(S,e) for e in v.els]
        raise Unsupported('const '+repr(v))
    def undef(s,ty):
        if ty.k in('s',): return [s.undef(e) for e in ty.els]
        if ty.k=='a': return [s.undef(ty.els[0]) for _ in range(ty.n)]
        return UNDEF
    def zero(s,ty):
        if ty.k=='s': return [s.zero(e) for e in ty.els]
        if ty.k=='a': return [s.zero(ty.els[0]) for _ in range(ty.n)]
        if ty.k=='p': return NULL
        if ty.k=='f': return z3.FPVal(0,fpsort(ty.w))
        return False if ty.w==1 else 0
    def op(s,S,v):
        if isinstance(v,ll.Ref): return S.frames[-1].regs[v.id]
        if v is None: return None
        return s.const(S,v)
    def iop(s,S,v,w):
        r=s.op(S,v)
        if r is UNDEF: return freshb('undef') if w==1 else fresh('undef',w)
        if isinstance(r,(Ptr,FPtr)): return s.ptrint(S,r)
        return r
    def gep(s,vals,ty,tys,ops):
        p=vals[0]
        if not isinstance(p,Ptr): raise Unsupported('gep on non pointer')
        off=p.o; t=ty; first=True
        for k,v in enumerate(vals[1:]):
            o=ops[k+1]
            if first: off=add(off,mul(s.idx(v,o),t.size)); first=False
            elif t.k=='s': off=add(off,t.offs[v]); t=t.els[v]
            else: off=add(off,mul(s.idx(v,o),t.els[0].size)); t=t.els[0]
        return Ptr(p.r,off,p.nul)
    def idx(s,v,o):
        w=64
        if isinstance(o,ll.Const): w=o.ty.w
        elif isinstance(v,z3.BitVecRef): w=v.size()
        if isinstance(v,int):
            return sgn(v,w)&M(64) if w<64 else v
        return sext(v,w,64) if w<64 else v
    # ---------- running
    def start(s,S,name,args):
        F=s.mod.fn(name)
        f=Frame(F,(name,)); 
        for i,a in enumerate(args): f.regs[i]=a
        S.frames.append(f)
    def run(s,S):
        "explore all paths of the top frame; yields (kind,state,ret)"
        depth=len(S.frames)
        work=[S]; exits=[]
        s.exits=exits
        s.loop(work,depth,exits)
        return exits
    def loop(s,work,depth,exits,capture=None):
        while work:
            S=work.pop()
            try:
                s.step(S,work,depth,exits,capture)
            except PathEnd as e:
                s.stats['paths']+=1
            except Unsupported as e:
                if s.phaseA: continue
                raise Unsupported(f'{e} [at {s.where(S)} in {s.cur}]') from e
    def step(s,S,work,depth,exits,capture):
        while True:
            if s.deadline and time.time()>s.deadline: raise TimeoutError('verification time limit')
            f=S.frames[-1]
            bb=f.fn.blocks[f.bb]
            i=bb.ins[f.ip]; op=i.op
            s.stats['ins']+=1
            if op=='br':
                if not i.ops: 
                    if not s.goto(S,i.x[0],work,depth,capture): return
                    continue
                c=s.iop(S,i.ops[0],1)
                if isinstance(c,z3.ExprRef): c=simp(c)
                if isinstance(c,(bool,int)):
                    if not s.goto(S,i.x[0] if c else i.x[1],work,depth,capture): return
                    continue
                ft=s.feasible(S,c); ff=s.feasible(S,Not(c))
                if ft and ff:
                    T=S.copy(); T.pc.append(Not(c)); T.trace.append((f.fn.dem.split('(')[0][-30:],i.line,'F'))
                    S.trace.append((f.fn.dem.split('(')[0][-30:],i.line,'T'))
                    try:
                        if s.goto(T,i.x[1],work,depth,capture): work.append(T)
                    except PathEnd: pass
                    S.pc.append(c)
                    if not s.goto(S,i.x[0],work,depth,capture): return
                elif ft:
                    if not s.goto(S,i.x[0],work,depth,capture): return
                elif ff:
                    if not s.goto(S,i.x[1],work,depth,capture): return
                else: return
                continue
            if op=='switch':
                v=s.iop(S,i.ops[0],64)
                w=v.size() if isinstance(v,z3.ExprRef) else 64
                dflt,cases=i.x
                if isinstance(v,int):
                    t=dflt
                    for cv,b in cases:
                        if cv==v: t=b
                    if not s.goto(S,t,work,depth,capture): return
                    continue
                nots=[]
                for cv,b in cases:
                    c=eq(v,cv,w)
                    if s.feasible(S,c):
                        T=S.copy(); T.pc.append(tb(c))
                        try:
                            if s.goto(T,b,work,depth,capture): work.append(T)
                        except PathEnd: pass
                    nots.append(Not(c))
                s.assume(S,And(*nots))
                if not s.feasible(S): return
                if not s.goto(S,dflt,work,depth,capture): return
                continue
            if op=='ret':
                rv=s.op(S,i.ops[0]) if i.ops else None
                S.frames.pop()
                S.dead=S.dead|frozenset(f.allocas)
                if len(S.frames)<depth:
                    s.stats['paths']+=1
                    exits.append(('ret',S,rv)); return
                g=S.frames[-1]
                ci=g.fn.blocks[g.bb].ins[g.ip]
                g.regs[ci.id]=rv
                if not s.aftercall(S,ci,work,depth,capture): return
                continue
            if op=='unreachable':
                return
            if op in('call','invoke'):
                r=s.call(S,i,work,depth,capture,exits)
                if r=='pushed': continue
                if r=='done':
                    if not s.aftercall(S,i,work,depth,capture): return
                    continue
                return
            if op=='resume': return
            if op=='phi': f.ip+=1; continue
            r=s.simple(S,f,i,op,work)
            if r is False: return
            f.ip+=1
    def aftercall(s,S,i,work,depth,capture):
        g=S.frames[-1]
        if i.op=='invoke': return s.goto(S,i.x['normal'],work,depth,capture)
        g.ip+=1
        return True
    def simple(s,S,f,i,op,work):
        R=f.regs
        if op=='load':
            p=s.op(S,i.ops[0])
            if s.check_align and i.x>1 and isinstance(p,Ptr) and p.r in s.check_align:
                s.prove(S,eq(binop('and',s.ptrint(S,p),i.x-1,64),0),f'memory: load aligned to {i.x} bytes')
            R[i.id]=s.load(S,p,i.ty)
        elif op=='store':
            v=s.op(S,i.ops[0])
            o=i.ops[0]
            ty=s.tyof(f,o)
            s.store(S,s.op(S,i.ops[1]),ty,v)
        elif op=='getelementptr':
            vals=[s.op(S,o) for o in i.ops]
            if not isinstance(vals[0],Ptr): raise Unsupported(f'gep base {vals[0]!r}')
            R[i.id]=s.gep(vals,i.x,None,i.ops)
        elif op=='alloca':
            n=s.op(S,i.ops[0])
            rid=('st',)+f.site+(i.id,)
            S.new(rid,mul(n,i.x.size)); S.dead=S.dead-{rid}
            f.allocas.append(rid); R[i.id]=Ptr(rid,0)
        elif op=='icmp':
            a=s.op(S,i.ops[0]); b=s.op(S,i.ops[1])
            if isinstance(a,(Ptr,FPtr)) or isinstance(b,(Ptr,FPtr)): R[i.id]=s.pcmp(S,i.x,a,b)
            else:
                w=s.tyof(f,i.ops[0]).w
                R[i.id]=cmp(i.x,s.iop(S,i.ops[0],w),s.iop(S,i.ops[1],w),w)
        elif op in('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor'):
            w=i.ty.w
            if i.ty.k!='i': raise Unsupported('vector op')
            a=s.iop(S,i.ops[0],w); b=s.iop(S,i.ops[1],w)
            if op in('udiv','urem','sdiv','srem') and not isinstance(b,int):
                s.prove(S,ne(b,0,w),'arithmetic: division by zero')
            elif op in('udiv','urem','sdiv','srem') and b==0: s.prove(S,False,'arithmetic: division by zero')
            if op in('shl','lshr','ashr') and not isinstance(b,int): s.prove(S,ult(b,w,w),'arithmetic: shift amount below the width')
            R[i.id]=binop(op,a,b,w)
        elif op=='zext': 
            w=s.tyof(f,i.ops[0]).w; R[i.id]=zext(s.iop(S,i.ops[0],w),w,i.ty.w)
        elif op=='sext':
            w=s.tyof(f,i.ops[0]).w; R[i.id]=sext(s.iop(S,i.ops[0],w),w,i.ty.w)
        elif op=='trunc':
            w=s.tyof(f,i.ops[0]).w; R[i.id]=trunc(s.iop(S,i.ops[0],w),w,i.ty.w)
        elif op=='select':
            c=s.iop(S,i.ops[0],1); a=s.op(S,i.ops[1]); b=s.op(S,i.ops[2])
            if isinstance(c,z3.ExprRef):
                q=simp(c)
                if isinstance(q,bool): c=q
            if isinstance(c,z3.ExprRef) and i.ty.k=='i' and i.ty.w>1 and not(isinstance(a,int) and isinstance(b,int)) and s.spec is not None and getattr(s.spec,'forksel',False):
                T=S.copy(); s.assume(T,Not(c)); T.frames[-1].regs[i.id]=s.iop(S,i.ops[2],i.ty.w); T.frames[-1].ip+=1
                if s.feasible(T): work.append(T)
                s.assume(S,c); R[i.id]=s.iop(S,i.ops[1],i.ty.w)
                if not s.feasible(S): return False
            elif isinstance(c,(bool,int)): R[i.id]=a if c else b
            elif isinstance(a,(Ptr,FPtr,list)) or isinstance(b,(Ptr,FPtr,list)):
                if eqv(a,b): R[i.id]=a; return
                if isinstance(a,Ptr) and isinstance(b,Ptr) and a.r==b.r and a.r is not None:
                    R[i.id]=Ptr(a.r,If(c,a.o,b.o),If(c,a.nul,b.nul) if not(a.nul is False and b.nul is False) else False); return
                T=S.copy(); T.pc.append(Not(c)); T.frames[-1].regs[i.id]=b; T.frames[-1].ip+=1
                if s.feasible(T): work.append(T)
                S.pc.append(c); R[i.id]=a
                if not s.feasible(S): return False
            elif i.ty.k=='f': R[i.id]=z3.If(c,a,b)
            else:
                a=s.iop(S,i.ops[1],i.ty.w); b=s.iop(S,i.ops[2],i.ty.w)
                R[i.id]=If(c,a,b,i.ty.w) if i.ty.w!=1 else Or(And(c,a),And(Not(c),b))
        elif op=='extractvalue':
            v=s.op(S,i.ops[0])
            for k in i.x: v=v[k]
            R[i.id]=v
        elif op=='insertvalue':
            v=s.op(S,i.ops[0]); e=s.op(S,i.ops[1])
            def ins(v,ks):
                v=list(v) if isinstance(v,list) else v
                if len(ks)==1: v[ks[0]]=e
                else: v[ks[0]]=ins(v[ks[0]],ks[1:])
                return v
            if v is UNDEF: v=s.undef(i.ty)
            R[i.id]=ins(v,i.x)
        elif op=='ptrtoint':
            v=s.op(S,i.ops[0]); R[i.id]=s.ptrint(S,v)
        elif op=='inttoptr':
            v=s.op(S,i.ops[0])
            if isinstance(v,int) and v==0: R[i.id]=NULL
            else: raise Unsupported('inttoptr')
        elif op in('bitcast','freeze'): R[i.id]=s.op(S,i.ops[0])
        elif op=='landingpad': return False
        elif op in('fadd','fsub','fmul','fdiv','fneg','fcmp','fptoui','fptosi','uitofp','sitofp','fptrunc','fpext'): R[i.id]=s.fp(S,f,i,op)
        elif op=='fence': pass
        elif op=='atomicrmw':
            p=s.op(S,i.ops[0]); ty=s.tyof(f,i.ops[1]); old=s.load(S,p,ty); v=s.iop(S,i.ops[1],ty.w)
            nv={0:lambda:v,1:lambda:add(old,v,ty.w),2:lambda:sub(old,v,ty.w),3:lambda:binop('and',old,v,ty.w),5:lambda:binop('or',old,v,ty.w)}[i.x]()
            s.store(S,p,ty,nv); R[i.id]=old
        elif op=='cmpxchg': raise Unsupported('cmpxchg')
        else: raise Unsupported('op '+op)
    def tyof(s,f,o):
        if isinstance(o,ll.Ref):
            if o.id<f.fn.nparams: return f.fn.ptypes[o.id]
            if not hasattr(f.fn,'tym'):
                f.fn.tym={i.id:i.ty for b in f.fn.blocks for i in b.ins}
            return f.fn.tym[o.id]
        if isinstance(o,(ll.GRef,ll.FRef)): return PT
        return o.ty
    def fp(s,S,f,i,op):
        if op=='fcmp':
            a=s.op(S,i.ops[0]); b=s.op(S,i.ops[1]); p=i.x
            lt,le=z3.fpLT,z3.fpLEQ
            un=z3.Or(z3.fpIsNaN(a),z3.fpIsNaN(b))
            d={'oeq':lambda:z3.fpEQ(a,b),'ogt':lambda:z3.fpGT(a,b),'oge':lambda:z3.fpGEQ(a,b),'olt':lambda:lt(a,b),'ole':lambda:le(a,b),
               'one':lambda:z3.And(z3.Not(un),z3.Not(z3.fpEQ(a,b))),'uno':lambda:un,'ord':lambda:z3.Not(un),'ueq':lambda:z3.Or(un,z3.fpEQ(a,b)),
               'ugt':lambda:z3.Not(le(a,b)),'uge':lambda:z3.Not(lt(a,b)),'ult':lambda:z3.Not(z3.fpGEQ(a,b)),'ule':lambda:z3.Not(z3.fpGT(a,b)),'une':lambda:z3.Not(z3.fpEQ(a,b))}
            return simp(d[p]())
        rm=z3.RNE()
        if op in('fptoui','fptosi'):
            a=s.op(S,i.ops[0])
            if s.fp_opaque: return fresh('fpi',i.ty.w)
            return (z3.fpToUBV if op=='fptoui' else z3.fpToSBV)(z3.RTZ(),a,z3.BitVecSort(i.ty.w))
        if op in('uitofp','sitofp'):
            w=s.tyof(f,i.ops[0]).w; a=s.iop(S,i.ops[0],w)
            if s.fp_opaque and not isinstance(a,int): return z3.FP(f'fp!{uid()}',fpsort(i.ty.w))
            if w==1: a=zext(a,1,8); w=8
            return (z3.fpUnsignedToFP if op=='uitofp' else z3.fpSignedToFP)(rm,bv(a,w),fpsort(i.ty.w))
        a=s.op(S,i.ops[0])
        if op in('fptrunc','fpext'):
            if s.fp_opaque: return z3.FP(f'fp!{uid()}',fpsort(i.ty.w))
            return z3.fpFPToFP(rm,a,fpsort(i.ty.w))
        if op=='fneg': return z3.fpNeg(a)
        b=s.op(S,i.ops[1])
        if s.fp_opaque: return z3.FP(f'fp!{uid()}',fpsort(i.ty.w))
        return {'fadd':z3.fpAdd,'fsub':z3.fpSub,'fmul':z3.fpMul,'fdiv':z3.fpDiv}[op](rm,a,b)
    def pcmp(s,S,p,a,b):
        if isinstance(a,int) and a==0: a=NULL
        if isinstance(b,int) and b==0: b=NULL
        if isinstance(a,FPtr) or isinstance(b,FPtr):
            if p not in('eq','ne'): raise Unsupported('fn ptr cmp')
            e=isinstance(a,FPtr) and isinstance(b,FPtr) and a.name==b.name
            return e if p=='eq' else not e
        if not isinstance(a,Ptr) or not isinstance(b,Ptr): raise Unsupported('pointer/int compare')
        if p in('eq','ne'):
            if a.r is None and b.r is None: e=True
            elif a.r is None: e=b.nul
            elif b.r is None: e=a.nul
            elif a.r==b.r: e=And(eq(a.o,b.o),Iff(a.nul,b.nul)) if not(a.nul is False and b.nul is False) else eq(a.o,b.o)
            else: e=And(a.nul,b.nul)
            return e if p=='eq' else Not(e)
        if a.r==b.r: return cmp(p,a.o,b.o)
        return cmp(p,s.ptrint(S,a),s.ptrint(S,b))
    # ---------- calls
    def lookup(s,name):
        k=s.hcache.get(name)
        if k is not None: return k
        dem=s.mod.dem.get(name,name)
        r=None
        for c in s.contracts:
            if c.matches(dem,name): r=('contract',c); break
        if r is None:
            for rx,fn in s.handlers:
                if rx.search(dem): r=('handler',fn); break
        if r is None: r=('inline',None) if s.mod.defined(name) else ('unknown',None)
        s.hcache[name]=r
        return r
    def call(s,S,i,work,depth,capture,exits):
        cal=i.x['callee']
        v=cal
        if isinstance(cal,ll.FRef): name=cal.name
        else:
            p=s.op(S,cal)
            if isinstance(p,FPtr): name=p.name
            else:
                r=s.indirect(S,i,p)
                if r is None: raise Unsupported(f'indirect call through {p!r}')
                return 'done'
        if name.startswith('llvm.'): return s.intrinsic(S,i,name)
        dem=s.mod.dem.get(name,name)
        kind,h=s.lookup(name)
        args=[s.op(S,o) for o in i.ops]
        f=S.frames[-1]
        if kind=='contract':
            if not s.phaseA and not s.quiet: s.stats['contracts'].add(h.name)
            res=h.apply(s,S,args,i)
            return s.branch(S,i,res,work,depth,capture)
        if kind=='handler':
            if not s.quiet: s.stats['handled'].add(dem)
            res=h(s,S,args,i,dem)
            if res is NOTHANDLED:
                if not s.mod.defined(name): raise Unsupported('no model for external '+dem)
            else: return s.branch(S,i,res,work,depth,capture)
        elif kind=='unknown': raise Unsupported('no model for external '+dem)
        # inline
        if len(S.frames)>60: raise Unsupported('inline depth')
        F=s.mod.fn(name)
        if not s.quiet: s.stats['inlined'].add(dem)
        nf=Frame(F,f.site+(i.id,name))
        for k,a in enumerate(args):
            if k in F.byval:
                rid=('bv',)+nf.site+(k,)
                t=F.byval[k]; S.new(rid,t.size); s.memcpy(S,Ptr(rid,0),a,t.size); a=Ptr(rid,0); nf.allocas.append(rid)
                S.dead=S.dead-{rid}
            nf.regs[k]=a
        S.frames.append(nf)
        return 'pushed'
    def branch(s,S,i,res,work,depth,capture):
        """res: a value, None, or a list of (state,value) alternatives wrapped in Alt"""
        if isinstance(res,Alt):
            for T,v in res.l:
                if T is S: continue
                T.frames[-1].regs[i.id]=v
                try:
                    if s.aftercall(T,i,work,depth,capture): work.append(T)
                except PathEnd: pass
            for T,v in res.l:
                if T is S:
                    S.frames[-1].regs[i.id]=v; return 'done'
            return 'end'
        S.frames[-1].regs[i.id]=res
        return 'done'
    def indirect(s,S,i,p): return None
    def intrinsic(s,S,i,name):
        a=i.ops; R=S.frames[-1].regs
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            s.memcpy(S,s.op(S,a[0]),s.op(S,a[1]),s.iop(S,a[2],64),name[5:11].rstrip('.'))
        elif name.startswith('llvm.memset'):
            s.memset(S,s.op(S,a[0]),s.iop(S,a[1],8),s.iop(S,a[2],64))
        elif name.startswith(('llvm.lifetime','llvm.dbg','llvm.stacksave','llvm.stackrestore','llvm.assume','llvm.donothing')): pass
        elif name.startswith('llvm.umul.with.overflow.i64'):
            x=s.iop(S,a[0],64); y=s.iop(S,a[1],64); r=mul(x,y)
            if isinstance(x,int) and isinstance(y,int): o=x*y>=1<<64
            elif isinstance(x,int) or isinstance(y,int):
                c,v=(x,y) if isinstance(x,int) else (y,x)
                o=ugt(v,((1<<64)-1)//c) if c else False
            else: o=Not(z3.BVMulNoOverflow(bv(x),bv(y),False))
            R[i.id]=[r,o]
        elif name.startswith('llvm.uadd.with.overflow.i64'):
            x=s.iop(S,a[0],64); y=s.iop(S,a[1],64); r=add(x,y); R[i.id]=[r,ult(r,x)]
        elif name.startswith(('llvm.ceil','llvm.floor','llvm.round')):
            x=s.op(S,a[0])
            R[i.id]=z3.FP(f'fp!{uid()}',fpsort(i.ty.w)) if s.fp_opaque else z3.fpRoundToIntegral(z3.RTP() if 'ceil' in name else z3.RTN(),x)
        elif name.startswith('llvm.umin') or name.startswith('llvm.umax'):
            x=s.iop(S,a[0],64); y=s.iop(S,a[1],64); w=i.ty.w
            R[i.id]=If(ult(x,y,w),x,y,w) if 'umin' in name else If(ult(x,y,w),y,x,w)
        elif name.startswith('llvm.bswap'):
            R[i.id]=bswap(s.iop(S,a[0],i.ty.w),i.ty.w//8)
        elif name.startswith('llvm.fshl'):
            w=i.ty.w; x=s.iop(S,a[0],w); y=s.iop(S,a[1],w); c=s.iop(S,a[2],w)
            if isinstance(c,int):
                c%=w; R[i.id]=binop('or',binop('shl',x,c,w),binop('lshr',y,w-c,w),w) if c else x
            else: raise Unsupported('fshl')
        elif name.startswith('llvm.expect'): R[i.id]=s.op(S,a[0])
        elif name.startswith('llvm.trap'): s.prove(S,False,'trap'); return 'end'
        else: raise Unsupported('intrinsic '+name)
        return 'done'
    # ---------- control flow
    def goto(s,S,b,work,depth,capture):
        f=S.frames[-1]; F=f.fn; p=f.bb
        # leaving active cut loops
        for h in list(f.cuts):
            if b not in F.loops[h]:
                mode=f.cuts[h]
                if mode=='quiet': return False
                del f.cuts[h]
        for h in list(f.unroll):
            if b not in F.loops[h]: del f.unroll[h]
        # phis
        blk=F.blocks[b]; new={}
        for i in blk.ins:
            if i.op!='phi': break
            for pb,v in i.x:
                if pb==p:
                    new[i.id]=s.op(S,v); break
        f.regs.update(new)
        f.bb=b; f.ip=0
        if b in F.loops:
            if p in F.loops[b] and b in f.cuts:
                # back edge
                mode=f.cuts[b]
                if capture is not None: capture(len(S.frames),b,S)
                return False
            if p in F.loops[b] and b in f.unroll:
                f.unroll[b]+=1
                if f.unroll[b]>s.opts.get('maxunroll',600): raise Unsupported('unroll limit')
                return True
            if p not in F.loops[b]:
                if s.unrollable(S,F,b):
                    f.unroll[b]=0; return True
                s.cut(S,b,work,depth,capture)
                return False
            raise Unsupported('irreducible loop entry')
        return True
    def unrollable(s,S,F,h):
        if s.spec is not None:
            u=s.spec.unroll(s,S,F,h)
            if u is not None: return u
        f=S.frames[-1]
        # exit test must be concrete: icmp of phi(const start, const step) with a constant
        body=F.loops[h]
        phis={i.id:i for i in F.blocks[h].ins if i.op=='phi'}
        ex=[b for b in body for t in F.blocks[b].succ if t not in body]
        for b in ex:
            t=F.blocks[b].ins[-1]
            if t.op!='br' or not t.ops or not isinstance(t.ops[0],ll.Ref): continue
            c=[i for i in F.blocks[b].ins if i.id==t.ops[0].id]
            if not c or c[0].op!='icmp': continue
            def conc(o,seen=0):
                if isinstance(o,ll.Const): return True
                if isinstance(o,ll.Null): return True
                if not isinstance(o,ll.Ref): return False
                if o.id in phis:
                    v=f.regs.get(o.id)
                    if not(isinstance(v,int) or isinstance(v,Ptr) and isinstance(v.o,int)): return False
                    if seen>6: return True
                    # step
                    for pb,v in phis[o.id].x:
                        if pb in body and not(isinstance(v,ll.Ref) and v.id==o.id) and not conc(v,seen+1): return False
                    return True
                for bb in body:
                    for i in F.blocks[bb].ins:
                        if i.id==o.id:
                            if seen>6: return True
                            if i.op in('add','sub','getelementptr','zext','sext','lshr','shl','trunc'): return all(conc(x,seen+1) for x in i.ops)
                            return False
                v=f.regs.get(o.id)
                return isinstance(v,int) or isinstance(v,Ptr) and isinstance(v.o,int)
            if all(conc(o) for o in c[0].ops):
                # trip estimate
                return True
        return False
    from_loops=None

class Alt:
    def __init__(s,l): s.l=l
class _NH: pass
NOTHANDLED=_NH()
PT=ll.Ty(); PT.k='p'; PT.w=64; PT.size=8; PT.align=8; PT.els=None; PT.n=0; PT.name=''
def fpsort(w): return z3.Float32() if w==32 else z3.Float64()
def rname(r):
    if isinstance(r,tuple): return '.'.join(str(x)[:24] for x in r if not isinstance(x,tuple))[:80]
    return str(r)

_symc={}
def syms(e):
    k=e.get_id()
    r=_symc.get(k)
    if r is not None and r[0].eq(e): return r[1]
    out=set(); st=[e]; seen=set()
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.num_args()==0:
                if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            else:
                if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
                st.extend(x.children())
    _symc[k]=(e,out)
    return out
_UF={}
def hasuf(e):
    "does the term apply an uninterpreted function (memory contents, spec functions)"
    k=e.get_id(); v=_UF.get(k)
    if v is not None: return v[0]
    st=[e]; seen=set(); r=False
    while st:
        x=st.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i); c=_UF.get(i)
        if c is not None:
            if c[0]: r=True; break
            continue
        d=x.decl()
        if d.kind()==z3.Z3_OP_UNINTERPRETED and d.arity()>0: r=True; break
        st+=x.children()
    _UF[k]=(r,e)
    return r
def dedup(cs):
    seen=set(); out=[]
    for c in cs:
        i=c.get_id()
        if i not in seen: seen.add(i); out.append(c)
    return out
def relevant(cs,goal,depth=3):
    want=set(syms(goal)); left=list(cs); out=[]
    for _ in range(depth):
        ch=False; rest=[]
        for c in left:
            sy=syms(c)
            if not sy or sy&want: out.append(c); ch=True
            else: rest.append(c)
        for c in out: want|=syms(c)
        left=rest
        if not ch: break
    return out
