"""C04 bucket operations, C05 bucket storage, C06 overflow to the data file.

The view {block_size_, size_, spill_, p_} of a bucket at address b describes the blob of
block_size_ bytes at p_: count (2 bytes), spill (6 bytes), entries of 18 bytes (offset 6,
size 6, hash 6), big endian."""
from terms import *
from spec import *
from stdlib import h
import mem as MM, z3
from execu import PathEnd
from s_file import *
from s_bulk import *
from s_fmt import fits,iscap,capis
B=r'nudb::detail::bucket_t<void>'
M48=(1<<48)-1
CAPF=z3.Function('CAPACITY',z3.BitVecSort(64),z3.BitVecSort(64))
def capf(bs):
    "entries that fit a block: value of bucket_capacity"
    if isinstance(bs,int): return 0 if bs<104 else (bs-8)//18
    return CAPF(bs)
def bsz(n): return add(mul(n,18),8)
def bs_(X,S,p): return fget(X,S,p,'bucket.block_size_')
def sz_(X,S,p): return fget(X,S,p,'bucket.size_')
def sp_(X,S,p): return fget(X,S,p,'bucket.spill_')
def pp_(X,S,p): return fgetp(X,S,p,'bucket.p_')
def bmem(X,S,p): q=pp_(X,S,p); return X.region(S,q),q.o
def eo(o,i): return add(o,add(mul(i,18),8))
def eoff(m,o,i): return MM.be(m,eo(o,i),6)
def eoff_(m,o,i,d): return MM.be(m,add(eo(o,i),d),6)
def esz(m,o,i): return MM.be(m,add(eo(o,i),6),6)
def ehash(m,o,i): return MM.be(m,add(eo(o,i),12),6)
def inblock(n,bs): return Forall('idx',lambda j:Implies(And(ult(j,n),fits(n,bs)),ule(add(mul(j,18),26),bs)))     # lemma 'entries lie in the block'
def sortedf(m,o,n): return Forall(('idx','idx'),lambda j,k:Implies(And(ule(j,k),ult(k,n)),ule(ehash(m,o,j),ehash(m,o,k))))
def blockok(X,S,p):
    q=pp_(X,S,p); z=S.rsize.get(q.r); bs=bs_(X,S,p)
    r=[('block size',And(uge(bs,104),ule(bs,65535)))]
    if z is not None: r.append(('blob holds a whole block',And(q.nul is False or Not(q.nul),ule(q.o,z),ule(bs,sub(z,q.o)),ule(z,MAXF))))
    return r
def wf(X,S,p,full=True):
    m,o=bmem(X,S,p); n=sz_(X,S,p); s=sp_(X,S,p)
    r=blockok(X,S,p)+[('count fits the block',fits(n,bs_(X,S,p))),('spill offset is 48 bits',ule(s,M48)),('stored count equals the view',eq(MM.be(m,o,2),n)),('stored spill equals the view',eq(MM.be(m,add(o,2),6),s))]
    X.assume(S,inblock(n,bs_(X,S,p)))
    if full: r+=[('entries are sorted by hash',sortedf(m,o,n))]
    return r
def header(m,o,n,s):
    m=MM.write(m,o,2,bswap(extract(n,0,16,64),2)); return MM.write(m,add(o,2),6,bswap(extract(s,0,48,64),6))
def lbfacts(m,o,n,hh,x): return [ule(x,n),Forall('idx',lambda j:Implies(ult(j,x),ult(ehash(m,o,j),hh))),Forall('idx',lambda j:Implies(And(uge(j,x),ult(j,n)),uge(ehash(m,o,j),hh)))]
def newblob(X,S,p,tag='blob'):
    "havoc the block of bucket p"
    q=pp_(X,S,p); m=MM.Base(tag,'arr'); S.mem[q.r]=MM.Cpy(q.o,bs_(X,S,p),m,0,X.region(S,q)) if not(isinstance(q.o,int) and q.o==0 and eqv(S.rsize.get(q.r),bs_(X,S,p))) else m
    X.onwrite(S,q,bs_(X,S,p)); return S.mem[q.r]
def bycases(X,L,k,facts,conds,goal,label):
    "prove goal(*sk) for fresh sk in each of the cases conds(*sk)+[none of them]"
    sk=[fresh('c') for _ in range(k)]; seen=[]
    for c in conds(*sk)+[None]:
        T=L.copy()
        try:
            for f in facts(*sk): X.assume(T,f)
            for d in seen: X.assume(T,Not(d))
            if c is not None: X.assume(T,c); seen.append(c)
        except PathEnd: continue
        if not X.feasible(T): continue
        for g in goal(X.mustq(T),*sk): X.prove(T,g,label)
class Bk(Spec):
    group='C04'; forksel=True
    def mk(s,X,S,name='b',wfull=True,sym=False,wfp=True):
        p=S.new('arg:'+name,OFF['bucket'][1]); r='arg:blob_'+name; S.new(r,None,kind='arr'); bs=fresh('bs'); S.rsize[r]=bs
        fset(X,S,p,'bucket.block_size_',bs); fset(X,S,p,'bucket.size_',fresh('size')); fset(X,S,p,'bucket.spill_',fresh('spill'))
        X.wr(S,p,fo('bucket.p_'),8,Ptr(r,fresh('po') if sym else 0))
        if wfp:
            for lab,c in wf(X,S,p,wfull): X.assume(S,c)
        else:
            for lab,c in blockok(X,S,p): X.assume(S,c)
        return p
    def blobcell(s,X,S,p): q=pp_(X,S,p); return ('c',q.r,q.o,bs_(X,S,p))
from s_fmt import Lemma
class BLem(Lemma):
    name='entries lie in the block'; group='C04'
    def lemma(s):
        n,j,bs=fresh('n'),fresh('j'),fresh('bs')
        return [('an entry below the count ends inside the block',Implies(And(ult(j,n),fits(n,bs)),ule(add(mul(j,18),26),bs)))]
class BCap(Bk):
    name='bucket_capacity'; fn=r'^unsigned long nudb::detail::bucket_capacity<void>\('; pats=(fn,)
    def setup(s,X,S): return [fresh('bs')]
    def pre(s,X,S,a): return [('block size is a 16-bit number',ule(a[0],65535))]
    def result(s,X,S,a,case,i): return capf(a[0])
    def post(s,X,S0,S,a,ret,case): return [('the most entries that fit a block',capis(ret,a[0]))]
class BCtor(Bk):
    name='bucket::bucket'; fn=r'^'+B+r'::bucket_t\(unsigned long, void\*\)$'; pats=(fn,)
    def setup(s,X,S):
        p=S.new('arg:b',OFF['bucket'][1]); S.new('arg:blob',None,kind='arr'); z=fresh('bs'); S.rsize['arg:blob']=z; return [p,z,Ptr('arg:blob',0)]
    def pre(s,X,S,a):
        p,bs,q=a; z=S.rsize.get(q.r)
        return [('block readable',And(uge(bs,8),ule(bs,65535),*([Not(q.nul),ule(q.o,z),ule(bs,sub(z,q.o)),ule(z,MAXF)] if z is not None else [])))]
    def mods(s,X,S,a,case): return [('c',a[0].r,a[0].o,OFF['bucket'][1])]
    def effect(s,X,S0,S,a,ret,case):
        p,bs,q=a; m=X.region(S,q)
        fset(X,S,p,'bucket.block_size_',bs); X.wr(S,p,fo('bucket.p_'),8,q); fset(X,S,p,'bucket.size_',MM.be(m,q.o,2)); fset(X,S,p,'bucket.spill_',MM.be(m,add(q.o,2),6))
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        p,bs,q=a; m=X.region(S,q)
        return [('block size',eq(bs_(X,S,p),bs)),('views that blob',eqv(pp_(X,S,p),q)),('count is the stored count',eq(sz_(X,S,p),MM.be(m,q.o,2))),('spill is the stored spill',eq(sp_(X,S,p),MM.be(m,add(q.o,2),6)))]
class BEmpty(Bk):
    name='bucket::bucket(empty)'; fn=r'^'+B+r'::bucket_t\(unsigned long, void\*, nudb::detail::empty_t\)$'; pats=(fn,)
    def setup(s,X,S):
        p=S.new('arg:b',OFF['bucket'][1]); S.new('arg:blob',None,kind='arr'); z=fresh('bs'); S.rsize['arg:blob']=z; return [p,z,Ptr('arg:blob',0)]
    def pre(s,X,S,a):
        p,bs,q=a[:3]; z=S.rsize.get(q.r)
        return [('block writable',And(uge(bs,104),ule(bs,65535),*([Not(q.nul),ule(q.o,z),ule(bs,sub(z,q.o)),ule(z,MAXF)] if z is not None else [])))]
    def mods(s,X,S,a,case): return [('c',a[0].r,a[0].o,OFF['bucket'][1])]
    def expect(s,X,S0,S,a,case):
        p,bs,q=a[:3]; return {q.r:MM.Fil(q.o,bs,0,X.region(S0,q))}
    def effect(s,X,S0,S,a,ret,case):
        p,bs,q=a[:3]; fset(X,S,p,'bucket.block_size_',bs); X.wr(S,p,fo('bucket.p_'),8,q); fset(X,S,p,'bucket.size_',0); fset(X,S,p,'bucket.spill_',0); X.onwrite(S,q,bs)
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        p,bs,q=a[:3]; return [('block size',eq(bs_(X,S,p),bs)),('views that blob',eqv(pp_(X,S,p),q)),('empty',And(eq(sz_(X,S,p),0),eq(sp_(X,S,p),0)))]
class BClear(Bk):
    name='bucket::clear'; fn=r'^'+B+r'::clear\('; pats=(fn,)
    def setup(s,X,S): return [s.mk(X,S,wfull=False)]
    def pre(s,X,S,a): return blockok(X,S,a[0])
    def mods(s,X,S,a,case): return [cell(a[0],'bucket.size_'),cell(a[0],'bucket.spill_')]
    def expect(s,X,S0,S,a,case):
        q=pp_(X,S0,a[0]); return {q.r:MM.Fil(q.o,bs_(X,S0,a[0]),0,X.region(S0,q))}
    def effect(s,X,S0,S,a,ret,case): fset(X,S,a[0],'bucket.size_',0); fset(X,S,a[0],'bucket.spill_',0); X.onwrite(S,pp_(X,S,a[0]),None)
    def post(s,X,S0,S,a,ret,case): return [('empty',And(eq(sz_(X,S,a[0]),0),eq(sp_(X,S,a[0]),0)))] if X.spec is s else []
class BSpill(Bk):
    name='bucket::spill(offset)'; fn=r'^'+B+r'::spill\(unsigned long\)$'; pats=(fn,)
    def setup(s,X,S): return [s.mk(X,S,wfull=False),fresh('newspill')]
    def pre(s,X,S,a): return wf(X,S,a[0],False)+[('spill offset fits',ule(a[1],M48))]
    def mods(s,X,S,a,case): return [cell(a[0],'bucket.spill_')]
    def expect(s,X,S0,S,a,case):
        m,o=bmem(X,S0,a[0]); return {pp_(X,S0,a[0]).r:header(m,o,sz_(X,S0,a[0]),a[1])}
    def effect(s,X,S0,S,a,ret,case): fset(X,S,a[0],'bucket.spill_',a[1]); X.onwrite(S,pp_(X,S,a[0]),8)
    def post(s,X,S0,S,a,ret,case): return [('spill set',eq(sp_(X,S,a[0]),a[1]))] if X.spec is s else []
class BAt(Bk):
    name='bucket::at'; fn=r'^'+B+r'::at\('; pats=(fn,)
    def setup(s,X,S): return [S.new('arg:ret',24),s.mk(X,S),fresh('i')]
    def pre(s,X,S,a):
        r,p,i=a; S.term('idx',i); m,o=bmem(X,S,p)
        return blockok(X,S,p)+[('index below the count',And(ult(i,sz_(X,S,p)),fits(sz_(X,S,p),bs_(X,S,p)))),('entry lies in the block',ule(add(mul(i,18),26),bs_(X,S,p)))]
    def mods(s,X,S,a,case): return [('c',a[0].r,a[0].o,24)]
    def effect(s,X,S0,S,a,ret,case):
        r,p,i=a; m,o=bmem(X,S,p)
        for f,v in(('offset',eoff(m,o,i)),('hash',ehash(m,o,i)),('size',esz(m,o,i))): fset(X,S,r,'bvt.'+f,v)
        S.g[('scratch','at',r.r)]=(p,i,m)
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        r,p,i=a; m,o=bmem(X,S0,p)
        return [('offset',eq(fget(X,S,r,'bvt.offset'),eoff(m,o,i))),('hash',eq(fget(X,S,r,'bvt.hash'),ehash(m,o,i))),('size',eq(fget(X,S,r,'bvt.size'),esz(m,o,i)))]
class BLower(Bk):
    name='bucket::lower_bound'; fn=r'^'+B+r'::lower_bound\('; pats=(fn,)
    def setup(s,X,S): return [s.mk(X,S),fresh('h')]
    def pre(s,X,S,a): return wf(X,S,a[0]) if X.spec is not s else []
    def result(s,X,S,a,case,i): r=fresh('lb'); S.term('idx',r,sub(r,1)); return r
    def loop_terms(s,X,S,d,F,h):
        R=S.frames[-1].regs
        sc=[R[i.id] for i in F.blocks[h].ins if i.op=='phi' and isinstance(R.get(i.id),z3.BitVecRef) and R[i.id].size()==64]
        for x in sc:
            for y in sc:
                if x is not y: S.term('idx',add(x,binop('lshr',y,1,64)),binop('lshr',add(x,y),1,64),add(x,binop('lshr',sub(y,x),1,64)))
    def loop_inv(s,X,S,d,F,h,ints):
        p,hh=s.args; m,o=bmem(X,s.S0,p); n=sz_(X,s.S0,p); out=[]
        J=[(nm,f) for nm,w,f in ints if w==64]
        for nm,f in J:
            def lo(T,f=f):
                x=f(T); return None if x is None else Forall('idx',lambda j:Implies(And(ult(j,x),ult(j,n)),ult(ehash(m,o,j),hh)))
            def hi(T,f=f):
                x=f(T); return None if x is None else Forall('idx',lambda j:Implies(And(uge(j,x),ult(j,n)),uge(ehash(m,o,j),hh)))
            def bd(T,f=f):
                x=f(T); return None if x is None else ule(x,n)
            out+=[(f'below {nm} smaller',lo),(f'from {nm} not smaller',hi),(f'{nm}<=count',bd)]
            for nm2,g in J:
                if nm2==nm: continue
                def h2(T,f=f,g=g):
                    x,y=f(T),g(T)
                    if x is None or y is None: return None
                    e=add(x,y); return Forall('idx',lambda j:Implies(And(uge(j,e),ult(j,n)),uge(ehash(m,o,j),hh)))
                def b2(T,f=f,g=g):
                    x,y=f(T),g(T); return None if x is None or y is None else And(ule(add(x,y),n),ule(x,n),ule(y,n))
                out+=[(f'from {nm}+{nm2} not smaller',h2),(f'{nm}+{nm2}<=count',b2)]
        return out
    def post(s,X,S0,S,a,ret,case):
        p,hh=a; m,o=bmem(X,S0,p); f=lbfacts(m,o,sz_(X,S0,p),hh,ret)
        return [('index at most the count',f[0]),('every earlier entry is smaller',f[1]),('no entry from there on is smaller',f[2])]
class BInsert(Bk):
    name='bucket::insert'; fn=r'^'+B+r'::insert\('; pats=(fn,); cost=5
    def setup(s,X,S): return [s.mk(X,S),fresh('offset'),fresh('esize'),fresh('hash')]
    def pre(s,X,S,a):
        p,of,sz,hh=a
        return (wf(X,S,p) if X.spec is not s else [])+[('room for one more entry',fits(add(sz_(X,S,p),1),bs_(X,S,p))),('fields fit',And(ule(of,M48),ule(sz,M48),ule(hh,M48)))]
    def mods(s,X,S,a,case): return [cell(a[0],'bucket.size_'),s.blobcell(X,S,a[0])]
    def apply(s,X,S,a,i):
        p,of,sz,hh=a
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        if hasattr(X.spec,'bucket_event'): X.spec.bucket_event(X,S,'insert',p,of,sz,hh)
        m,o=bmem(X,S,p); n=sz_(X,S,p); m2=newblob(X,S,p); fset(X,S,p,'bucket.size_',add(n,1))
        x=fresh('at')
        X.assume(S,ule(x,n)); S.term('idx',x)
        for lab,c in wf(X,S,p): X.assume(S,c)
        X.assume(S,s.emap(m,m2,o,n,x,of,sz,hh))
        return None
    def emap(s,m,m2,o,n,x,of,sz,hh):
        def e(j):
            return [And(*[eq(f(m2,o,j),If(ult(j,x),f(m,o,j),If(eq(j,x),v,f(m,o,sub(j,1))))) for f,v in((eoff,of),(esz,sz),(ehash,hh))])]
        return Forall('idx',lambda j:Implies(ule(j,n),And(*e(j))))
    def check_exit(s,X,S0,T,a,ret):
        p,of,sz,hh=a; m,o=bmem(X,S0,p); n=sz_(X,S0,p); m2,o2=bmem(X,T,p)
        X.prove(T,And(eq(sz_(X,T,p),add(n,1)),eq(sp_(X,T,p),sp_(X,S0,p)),eq(bs_(X,T,p),bs_(X,S0,p)),eqv(pp_(X,T,p),pp_(X,S0,p))),'ensures count grows by one, spill pointer and block unchanged')
        X.prove(T,And(eq(MM.be(m2,o,2),add(n,1)),eq(MM.be(m2,add(o,2),6),sp_(X,S0,p))),'ensures stored count and spill equal the view')
        # position: an index term of the path
        best=None
        for x in reversed(T.terms.get('idx',[])):
            if X.valid(T,And(*lbfacts(m,o,n,hh,x)[:1]),full=False)[0]!='proved': continue
            if all(X.valid(T,c,timeout=6000,full=False)[0]=='proved' for c in lbfacts(m,o,n,hh,x)) : best=x; break
        if best is None:
            best=fresh('pos')
            # the position exists by sortedness: first entry not smaller
            for c in lbfacts(m,o,n,hh,best): X.assume(T,c)
        x=best
        bs=bs_(X,S0,p)
        z=S0.rsize[pp_(X,S0,p).r]
        exp=MM.copy(m,eo(o,add(x,1)),mul(sub(n,x),18),m,eo(o,x)); exp=header(exp,o,add(n,1),sp_(X,S0,p))
        e0=eo(o,x)
        for k,v in((0,of),(6,sz),(12,hh)): exp=MM.write(exp,add(e0,k),6,bswap(extract(v,0,48,64),6))
        X.prove(T,Forall('byte',lambda k:Implies(ult(k,z),eq(MM.read1(m2,k),MM.read1(exp,k),8))),'ensures exactly one entry added, in hash order; every other entry and byte unchanged')
        # lemma over the expected image: entry map and sortedness
        L=S0.copy(); L.frames=T.frames
        for c in lbfacts(m,o,n,hh,x): X.assume(L,c)
        ib=inblock(add(n,1),bs_(X,S0,p)).fn
        bycases(X,L,1,lambda j:[ule(j,n),ib(j),ib(sub(j,1)),ib(x)],lambda j:[ult(j,x),eq(j,x)],
            lambda must,j:[eq(MM.be(exp,add(eo(o,j),d),6,must),If(ult(j,x),eoff_(m,o,j,d),If(eq(j,x),v,eoff_(m,o,sub(j,1),d)))) for d,v in((0,of),(6,sz),(12,hh))],'ensures entry j of the result: old entry, the new one, or the previous old entry')
        H=lambda j:If(ult(j,x),ehash(m,o,j),If(eq(j,x),hh,ehash(m,o,sub(j,1))))
        lb=lbfacts(m,o,n,hh,x); so=sortedf(m,o,n)
        def goal(j,k):
            fs=[so.fn(u,v) for u,v in((j,k),(sub(j,1),sub(k,1)),(j,sub(k,1)))]+[lb[q].fn(u) for q in(1,2) for u in(j,k,sub(j,1),sub(k,1))]+[lb[0]]
            return Implies(And(*fs,ule(j,k),ule(k,n)),ule(H(j),H(k)))
        X.prove(L,Forall(('idx','idx'),goal),'ensures still sorted by hash')
        s.frame(X,S0,T,a,None,{})
class BErase(Bk):
    name='bucket::erase'; fn=r'^'+B+r'::erase\('; pats=(fn,); cost=4
    def setup(s,X,S): return [s.mk(X,S),fresh('i')]
    def pre(s,X,S,a): return (wf(X,S,a[0]) if X.spec is not s else [])+[('index below the count',ult(a[1],sz_(X,S,a[0])))]
    def mods(s,X,S,a,case): return [cell(a[0],'bucket.size_'),s.blobcell(X,S,a[0])]
    def emap(s,m,m2,o,n,i): return Forall('idx',lambda j:Implies(ult(j,sub(n,1)),And(*[eq(f(m2,o,j),If(ult(j,i),f(m,o,j),f(m,o,add(j,1)))) for f in(eoff,esz,ehash)])))
    def apply(s,X,S,a,ins):
        p,i=a
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        if hasattr(X.spec,'bucket_event'): X.spec.bucket_event(X,S,'erase',p,i)
        m,o=bmem(X,S,p); n=sz_(X,S,p); m2=newblob(X,S,p); fset(X,S,p,'bucket.size_',sub(n,1))
        for lab,c in wf(X,S,p): X.assume(S,c)
        X.assume(S,s.emap(m,m2,o,n,i))
        return None
    def check_exit(s,X,S0,T,a,ret):
        p,i=a; m,o=bmem(X,S0,p); n=sz_(X,S0,p); m2,_=bmem(X,T,p); z=S0.rsize[pp_(X,S0,p).r]; n1=sub(n,1)
        X.prove(T,And(eq(sz_(X,T,p),n1),eq(sp_(X,T,p),sp_(X,S0,p)),eq(bs_(X,T,p),bs_(X,S0,p)),eqv(pp_(X,T,p),pp_(X,S0,p))),'ensures count shrinks by one, spill pointer and block unchanged')
        X.prove(T,And(eq(MM.be(m2,o,2),n1),eq(MM.be(m2,add(o,2),6),sp_(X,S0,p))),'ensures stored count and spill equal the view')
        exp=MM.copy(m,eo(o,i),mul(sub(n1,i),18),m,eo(o,add(i,1))); exp=MM.Fil(eo(o,n1),18,0,exp); exp=header(exp,o,n1,sp_(X,S0,p))
        X.prove(T,Forall('byte',lambda k:Implies(ult(k,z),eq(MM.read1(m2,k),MM.read1(exp,k),8))),'ensures exactly that entry removed; every other entry and byte unchanged')
        L=S0.copy(); L.frames=T.frames
        ib=inblock(n,bs_(X,S0,p)).fn; flds=((0,6),(6,6),(12,6))
        bycases(X,L,1,lambda j:[ult(j,n1),ib(j),ib(add(j,1)),ib(i),ib(n1)],lambda j:[ult(j,i)],
            lambda must,j:[eq(MM.be(exp,add(eo(o,j),d),6,must),If(ult(j,i),eoff_(m,o,j,d),eoff_(m,o,add(j,1),d))) for d in(0,6,12)],'ensures entry j of the result: old entry j or j+1')
        so=sortedf(m,o,n); H=lambda j:If(ult(j,i),ehash(m,o,j),ehash(m,o,add(j,1)))
        X.prove(L,Forall(('idx','idx'),lambda j,k:Implies(And(so.fn(j,k),so.fn(j,add(k,1)),so.fn(add(j,1),add(k,1)),ule(j,k),ult(k,n1)),ule(H(j),H(k)))),'ensures still sorted by hash')
        s.frame(X,S0,T,a,None,{})
CONTRACTS=[BCap(),BCtor(),BEmpty(),BClear(),BSpill(),BAt(),BLower(),BInsert(),BErase()]
PROOFS=[BLem(),BCap(),BCtor(),BEmpty(),BClear(),BSpill(),BAt(),BLower(),BInsert(),BErase()]
