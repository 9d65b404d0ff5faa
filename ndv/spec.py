"""Contract base class.  One object gives both sides of a contract: the proof of
the body (setup/pre assumed, post/frame proved at every return) and the use at a
call site (pre proved, modified state havocked, post assumed)."""
import re, z3
from terms import *
import mem as MM
from execu import *
import execu

class Spec:
    name='?'; group='?'; fn=None; pats=(); cases=(None,); expect_throw=False; cost=1
    maxpaths=4000
    ghost_const=()          # ghost keys the body may not change unless listed in mods
    trusted=False           # assumed contract (no body proof)
    def __init__(s): s.rx=[re.compile(p) for p in s.pats]
    def matches(s,dem,name): return any(r.search(dem) for r in s.rx)
    # --- to override
    def setup(s,X,S): raise NotImplementedError
    def pre(s,X,S,a): return []
    def mods(s,X,S,a,case): return []
    def result(s,X,S,a,case,i): return defret(X,i)
    def expect(s,X,S0,S,a,case): return {}
    def effect(s,X,S0,S,a,ret,case): pass
    def post(s,X,S0,S,a,ret,case): return []
    def guard(s,X,S0,S,a,ret,case): return True
    def finish(s,X,S0,S,a,ret): pass
    def unroll(s,X,S,F,h): return None
    def at_loop_head(s,X,S): pass
    def loop_terms(s,X,S,d,F,h): pass
    def loop_scalars(s,X,S,d,F,h): return []
    def loop_bounds(s,X,S,d,F,h): return []
    def loop_inv(s,X,S,d,F,h,ints): return []
    def ret_kinds(s): return ('ret',)
    def ghostfree(s): return ()
    # --- call side
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        S0=S.copy(); out=[]
        for n,case in enumerate(s.cases):
            T=S if n==len(s.cases)-1 else S.copy()
            try:
                for m in s.mods(X,S0,a,case): havoc(X,T,m)
                ret=s.result(X,T,a,case,i)
                for r,m in s.expect(X,S0,T,a,case).items():
                    if isinstance(r,tuple) and r[0]=='g': T.g[r[1]]=m
                    else: T.mem[r]=m
                s.effect(X,S0,T,a,ret,case)
                X.assume(T,s.guard(X,S0,T,a,ret,case))
                for lab,c in s.post(X,S0,T,a,ret,case): X.assume(T,c)
                if len(s.cases)>1 and not X.feasible(T): continue
                out.append((T,ret))
            except PathEnd: continue
        if not out: raise PathEnd('infeasible')
        return Alt(out)
    # --- proof side
    def verify(s,X,fname):
        X.cur=s.name; X.spec=s
        S=State(); a=s.setup(X,S)
        for lab,c in s.pre(X,S,a): X.assume(S,c)
        if not X.feasible(S): raise Unsupported('precondition unsatisfiable')
        S0=S.copy(); S0.frames=[]; s.args=a; s.S0=S0
        rets=0
        X.start(S,fname,a)
        for kind,T,ret in X.run(S):
            rets+=1
            s.check_exit(X,S0,T,a,ret)
        X.obs.append(Ob('reachable normal return (vacuity)','proved' if rets else 'failed',0,s.name,None,None,None))
    def check_exit(s,X,S0,T,a,ret):
        s.finish(X,S0,T,a,ret)
        gs=[]
        for case in s.cases:
            g=s.guard(X,S0,T,a,ret,case); gs.append(g)
            if g is False: continue
            U=T.copy()
            if g is not True:
                if not X.feasible(U,g): continue
                X.assume(U,g)
            try:
                E=S0.copy(); E.g=dict(U.g)
                ex=s.expect(X,S0,U,a,case)
                for r,m in ex.items():
                    if isinstance(r,tuple) and r[0]=='g':
                        X.prove(U,eq_ghost(U.g.get(r[1]),m),f'ensures ghost {r[1]}')
                        continue
                    got=U.mem[r]
                    if got is m: continue
                    sz=U.rsize.get(r)
                    mq=X.mustq(U)
                    rng=s.expect_range(X,S0,U,a,case,r)
                    X.prove(U,Forall('byte',lambda o,got=got,m=m,sz=sz,rng=rng:Implies(And(ult(o,sz) if sz is not None else True,rng(o) if rng else True),eq(MM.read1(got,o),MM.read1(m,o),8))),f'ensures contents of {rname(r)}')
                for lab,c in s.post(X,S0,U,a,ret,case): X.prove(U,c,f'ensures {lab}'+(f' [{case}]' if case else ''))
                s.frame(X,S0,U,a,case,ex)
            except PathEnd: pass
        if all(g is not True for g in gs): X.prove(T,Or(*gs),'ensures one of the documented outcomes')
    def expect_range(s,X,S0,U,a,case,r): return None
    def frame(s,X,S0,U,a,case,ex):
        mods=s.mods(X,S0,a,case)
        whole={m[1] for m in mods if m[0]=='r'}|{r for r in ex if not(isinstance(r,tuple) and r[0]=='g')}
        gs={m[1] for m in mods if m[0]=='g'}|{r[1] for r in ex if isinstance(r,tuple) and r[0]=='g'}
        from loops import celldiff
        for r in S0.mem:
            if r in U.dead and r not in S0.dead: 
                if ('free',r) not in mods: X.prove(U,False,f'frame: {rname(r)} freed')
                continue
            if r in whole or U.mem[r] is S0.mem[r]: continue
            if isinstance(r,str) and r.startswith('@'): 
                pass
            ch=celldiff(S0.mem[r],U.mem[r])
            cells=[(m[2],m[3]) for m in mods if m[0]=='c' and m[1]==r]
            if ch is None:
                # symbolic writes: byte-wise frame
                got=U.mem[r]; old=S0.mem[r]; sz=S0.rsize.get(r)
                if sz is None and isinstance(r,str) and r.startswith('opq'): X.prove(U,False,f'frame: {rname(r)} modified'); continue
                X.prove(U,Forall('byte',lambda o,got=got,old=old,sz=sz:Implies(And(ult(o,sz) if sz is not None else True,*[Not(And(ule(b,o),ult(o,add(b,n)))) for b,n in cells]),eq(MM.read1(got,o),MM.read1(old,o),8))),f'frame: only the permitted bytes of {rname(r)} change')
                continue
            for (o,n) in ch:
                if any(isinstance(b,int) and isinstance(k,int) and b<=o and o+n<=b+k for b,k in cells): continue
                ins=[And(ule(b,o),ule(o+n,add(b,k))) for b,k in cells if not(isinstance(b,int) and isinstance(k,int))]
                if ins and X.valid(U,Or(*ins))[0]=='proved': continue
                try:
                    x=MM.read(S0.mem[r],o,n); y=MM.read(U.mem[r],o,n)
                    if isinstance(x,Ptr) or isinstance(y,Ptr): X.prove(U,eqv(x,y),f'frame: {rname(r)}+{o} unchanged')
                    else: X.prove(U,eq(x,y,8*n),f'frame: {rname(r)}+{o} unchanged')
                except Unsupported: X.prove(U,False,f'frame: {rname(r)}+{o} unchanged')
        for k in set(S0.g)|set(U.g):
            if isinstance(k,tuple) and k[0] in('inv','scratch','str','cstr'): continue
            if k in gs or k in s.ghostfree(): continue
            if isinstance(k,tuple) and k[0] in s.ghostfree(): continue
            x,y=S0.g.get(k),U.g.get(k)
            if x is y or eqv(x,y): continue
            X.prove(U,eq_ghost(x,y),f'frame: ghost {k} unchanged')

def eq_ghost(x,y):
    if x is y or eqv(x,y): return True
    if x is None or y is None: return False
    if isinstance(x,(bool,z3.BoolRef)) or isinstance(y,(bool,z3.BoolRef)): return Iff(x,y)
    if isinstance(x,(int,z3.ExprRef)) and isinstance(y,(int,z3.ExprRef)): return eq(x,y)
    if isinstance(x,(MM.Base,MM.Cells,MM.Sto,MM.Cpy,MM.Fil)): return Forall('byte',lambda o:eq(MM.read1(x,o),MM.read1(y,o),8))
    return x==y
def defret(X,i):
    if i is None: return None
    t=i.ty
    return freshty(t)
def freshty(t):
    if t.k=='void': return None
    if t.k=='i': return freshb('ret') if t.w==1 else fresh('ret',t.w)
    if t.k=='p': return Ptr(f'retp{uid()}',0)
    if t.k=='s': return [freshty(e) for e in t.els]
    if t.k=='f': return z3.FP(f'ret!{uid()}',fpsort(t.w))
    return None
def havoc(X,S,m):
    if m[0]=='r':
        old=S.mem.get(m[1]); kind=m[2] if len(m)>2 else 'arr'
        S.mem[m[1]]=MM.Base(f'hv.{rname(m[1])}',kind)
        X.onwrite(S,Ptr(m[1],0),S.rsize.get(m[1]))
    elif m[0]=='c':
        _,r,o,n=m[:4]
        if isinstance(n,int) and n in(1,2,4,8) and isinstance(o,int): v=fresh('hv',8*n)
        elif isinstance(o,int) and isinstance(n,int): v=MM.Lazy(MM.Base('hv','obj'),0)
        else:
            S.mem[r]=MM.Cpy(o,n,MM.Base('hv','arr'),0,X.region(S,Ptr(r,0))); X.onwrite(S,Ptr(r,o),n); return
        S.mem[r]=MM.write(X.region(S,Ptr(r,0)),o,n,v)
        X.onwrite(S,Ptr(r,o),n)
    elif m[0]=='g':
        v=S.g.get(m[1])
        if isinstance(v,(bool,z3.BoolRef)): S.g[m[1]]=freshb('g')
        elif isinstance(v,(int,z3.ExprRef)): S.g[m[1]]=fresh('g',v.size() if isinstance(v,z3.BitVecRef) else 64)
        elif isinstance(v,(MM.Base,MM.Cells,MM.Sto,MM.Cpy,MM.Fil,MM.Fill0)): S.g[m[1]]=MM.Base('g','arr')
    elif m[0]=='free': S.dead=S.dead|{m[1]}
    else: raise Unsupported('mod '+str(m))

# ---- field offsets (from the compiled program, positional fallback)
OFF={}
def fo(name): return OFF[name][0]
def fs(name): return OFF[name][1]
def fget(X,S,p,name):
    o,n=OFF[name]; return X.rd(S,p,n,o)
def fgetp(X,S,p,name): return X.rdp(S,p,OFF[name][0])
def fset(X,S,p,name,v):
    o,n=OFF[name]; X.wr(S,p,o,n,v)
def cell(p,name):
    o,n=OFF[name]; return ('c',p.r,add(p.o,o),n)
# ---- error codes: value (4 bytes) at +0, category id (8 bytes) at +8
SYS,NUDB,GEN=0,1,2
def ecval(X,S,p): return X.rd(S,p,4,0)
def eccat(X,S,p): return X.rd(S,p,8,8)
def ecset(X,S,p,v,c):
    X.chk(S,p,24,'error_code write')
    X.wr(S,p,0,4,v); X.wr(S,p,8,8,c)
def ecok(X,S,p): return eq(ecval(X,S,p),0,32)
def ecis(X,S,p,v,c=NUDB): return And(eq(ecval(X,S,p),v,32),eq(eccat(X,S,p),c))
def ecmods(p): return [('c',p.r,p.o,24)]
def mkec(X,S,name='ec',ok=None):
    p=S.new('arg:'+name,24)
    if ok: X.wr(S,p,0,4,0); X.wr(S,p,8,8,0)
    return p
ERR=['success','not_data_file','not_key_file','not_log_file','different_version','uid_mismatch','appnum_mismatch','key_size_mismatch','salt_mismatch','pepper_mismatch','block_size_mismatch']
E={}   # filled from the compiled enum constants
V={}   # other compiled constants
