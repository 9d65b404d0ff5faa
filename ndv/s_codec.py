"""C01: fixed-width big-endian codec, verified through client functions that
use the real stream/field templates (all inlined: no contract in between)."""
from terms import *
from spec import *
import mem as MM
class Wr(Spec):
    "write<T>(os,v) stores exactly v's low n bytes, big endian, nothing else"
    group='C01'
    def __init__(s,n,two=False):
        s.n=n; s.two=two; s.name=f'codec.write{n*8}'+('x2' if two else ''); s.fn=f'^ndv_wr{2 if two else ""}_{n}$'; super().__init__()
    def setup(s,X,S):
        p=S.new('arg:buf',None,kind='arr'); S.rsize['arg:buf']=fresh('bufsz')
        p=Ptr('arg:buf',fresh('off'))
        a=[p,fresh('v')]
        if s.two: a.append(fresh('w'))
        return a
    def pre(s,X,S,a):
        z=S.rsize['arg:buf']; p=a[0]
        r=[('room',And(ule(p.o,z),ule(s.n*(2 if s.two else 1),sub(z,p.o)),ule(z,1<<62)))]
        # asserts document that a value must fit its field
        if s.n<8: r+= [('fits',ult(v,1<<(8*s.n))) for v in a[1:]] if s.n in(3,4,6) else [('fits',ult(v,1<<(8*s.n))) for v in a[1:]]
        return r
    def expect(s,X,S0,S,a,case):
        m=S0.mem['arg:buf']; o=a[0].o
        for v in a[1:]:
            m=MM.write(m,o,s.n,bswap(extract(v,0,8*s.n,64),s.n)); o=add(o,s.n)
        return {'arg:buf':m}
class Rd(Spec):
    "read<T>(is,v): v is the big-endian value of exactly the next n bytes; nothing written"
    group='C01'
    def __init__(s,n,kind):
        s.n=n; s.kind=kind; s.name=f'codec.read{n*8}{kind}'; s.fn=f'^ndv_rd{kind}_{n}$'; super().__init__()
    def setup(s,X,S):
        S.new('arg:buf',None,kind='arr'); S.rsize['arg:buf']=fresh('bufsz')
        p=Ptr('arg:buf',fresh('off'))
        if s.kind=='p': return [p]
        a=[p,fresh('n')]
        if s.kind=='2': a.append(S.new('arg:b',8))
        return a
    def pre(s,X,S,a):
        z=S.rsize['arg:buf']; p=a[0]; k=s.n*(2 if s.kind=='2' else 1)
        r=[('room',And(ule(p.o,z),ule(k,sub(z,p.o)),ule(z,1<<62)))]
        if s.kind!='p': r.append(('stream holds it',And(ule(k,a[1]),ule(a[1],sub(z,p.o)))))
        return r
    def mods(s,X,S,a,case): return [('c','arg:b',0,8)] if s.kind=='2' else []
    def post(s,X,S0,S,a,ret,case):
        m=S0.mem['arg:buf']; o=a[0].o
        r=[('value read equals the big-endian field',eq(ret,MM.be(m,o,s.n)))]
        if s.kind=='2': r.append(('second field',eq(X.rd(S,a[2]),MM.be(m,add(o,s.n),s.n))))
        return r
class RdShort(Rd):
    "a read past the end is refused (the stream's guard fires): proved as unreachability of a normal return"
    ndebug=True
    def __init__(s,n): 
        s.n=n; s.kind=''; s.name=f'codec.readpast{n*8}'; s.fn=f'^ndv_rd_{n}$'; Spec.__init__(s)
    def pre(s,X,S,a):
        z=S.rsize['arg:buf']; p=a[0]
        return [('room',And(ule(p.o,z),ule(z,1<<62),ule(a[1],sub(z,p.o)))),('stream too short',ult(a[1],s.n))]
    def verify(s,X,fname):
        # the only way out is the BOOST_ASSERT or exception in istream::data
        X.cur=s.name; X.spec=s; S=State(); a=s.setup(X,S)
        for lab,c in s.pre(X,S,a): X.assume(S,c)
        X.refused=0
        X.start(S,fname,a)
        def no(kind): X.obs.append(Ob('refused before touching memory','proved',0,s.name,None,None,None))
        X.on_abort=no
        for kind,T,ret in X.run(S): X.prove(T,False,'read past the end is refused')
class Blk(Spec):
    group='C01'
    def __init__(s,rd):
        s.rd=rd; s.name='codec.block'+('read' if rd else 'write'); s.fn='^ndv_rdblk$' if rd else '^ndv_wrblk$'; super().__init__()
    def setup(s,X,S):
        for r in('arg:buf','arg:dst'):
            S.new(r,None,kind='arr'); S.rsize[r]=fresh('sz')
        p=Ptr('arg:buf',fresh('off')); d=Ptr('arg:dst',fresh('off2'))
        return [p,fresh('n'),d,fresh('k')] if s.rd else [d,p,fresh('k')]
    def pre(s,X,S,a):
        z=S.rsize['arg:buf']; z2=S.rsize['arg:dst']
        if s.rd: p,n,d,k=a
        else: d,p,k=a; n=k
        return [('room',And(ule(p.o,z),ule(n,sub(z,p.o)),ule(k,n),ule(z,1<<62),ule(z2,1<<62),ule(d.o,z2),ule(k,sub(z2,d.o))))]
    def expect(s,X,S0,S,a,case):
        if s.rd: p,n,d,k=a
        else: d,p,k=a
        return {'arg:dst':MM.copy(S0.mem['arg:dst'],d.o,k,S0.mem['arg:buf'],p.o)}
class Rs48(Spec):
    name='codec.read_size48'; group='C01'; fn='^ndv_read_size48$'
    def setup(s,X,S):
        S.new('arg:buf',6,kind='arr'); return [Ptr('arg:buf',0)]
    def post(s,X,S0,S,a,ret,case): return [('value',eq(ret,MM.be(S0.mem['arg:buf'],0,6)))]
PROOFS=[]
for n in(1,2,3,4,6,8):
    PROOFS+=[Wr(n),Wr(n,True),Rd(n,''),Rd(n,'2'),Rd(n,'p'),RdShort(n)]
PROOFS+=[Blk(True),Blk(False),Rs48()]
