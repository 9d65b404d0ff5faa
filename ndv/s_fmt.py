"""C02 headers, C03 linear-hash addressing, C20 hashing."""
from terms import *
from spec import *
from stdlib import h
import mem as MM, z3
from s_file import *
U64=z3.BitVecSort(64)
PEPPER=z3.Function('PEPPER',U64,U64)          # spec function: hash of the little-endian salt under itself
BI=z3.Function('BUCKET_INDEX',U64,U64,U64,U64)
P2=z3.Function('CEIL_POW2',U64,U64)
ISP2=z3.Function('IS_POW2',U64,z3.BoolSort())
def ispow2(x): return And(ne(x,0),eq(binop('and',x,sub(x,1),64),0))
def bi(h,b,m): return BI(bv(h),bv(b),bv(m))
def p2(x):
    if isinstance(x,int): return 1 if x<=1 else 1<<(x-1).bit_length()
    return P2(x)
def p2facts(x,p): return And(uge(p,x),ne(p,0),Or(eq(p,1),ult(binop('lshr',p,1,64),x)))
def isp2(x): return (x!=0 and x&(x-1)==0) if isinstance(x,int) else ISP2(x)
MASK48=(1<<48)-1
# ------------------------------------------------------------- C03
class CeilPow2(Spec):
    name='ceil_pow2'; group='C03'; fn=r'^unsigned long nudb::detail::ceil_pow2<unsigned long>\('; pats=(fn,)
    def setup(s,X,S): return [fresh('x')]
    def pre(s,X,S,a): return [('x <= 2^63',ule(a[0],1<<63))]
    def result(s,X,S,a,case,i):
        p=p2(a[0]); return p
    def post(s,X,S0,S,a,ret,case):
        x=a[0]
        if X.spec is s: return [('a power of two',ispow2(ret)),('least power of two not less than x',p2facts(x,ret))]
        return [('pow2',isp2(ret)),('least',p2facts(x,ret))]
class BucketIndex(Spec):
    "call-site contract"
    name='bucket_index'; group='C03'; fn=r'^nudb::detail::bucket_index\('; pats=(fn,)
    def pre(s,X,S,a):
        hh,b,m=a
        return [('modulus is the covering power of two',And(isp2(m),ule(m,1<<32),p2facts(b,m),uge(b,1))),('hash is 48 bits',True)]
    def result(s,X,S,a,case,i): return bi(*a)
    def post(s,X,S0,S,a,ret,case): return [('in range',ult(ret,a[1]))]
class BucketIndexK(Spec):
    "proof for modulus 2^k; k=0..32 is a complete case split of the precondition"
    group='C03'; fn=BucketIndex.fn; nocontract=('bucket_index',)
    def __init__(s,k): s.k=k; s.name=f'bucket_index[modulus=2^{k}]'; super().__init__()
    def setup(s,X,S): return [fresh('h'),fresh('buckets'),1<<s.k]
    def pre(s,X,S,a): return [('covering',And(p2facts(a[1],a[2]),uge(a[1],1)))]
    def post(s,X,S0,S,a,ret,case):
        hh,b,m=a; n=binop('and',hh,m-1,64)
        return [('below the bucket count',ult(ret,b)),('low bits of the hash, folded into the lower half when not yet split',eq(ret,If(ult(n,b),n,binop('and',hh,(m>>1)-1 if m>1 else 0,64))))]
class Lemma(Spec):
    """a statement about spec functions only (no code): discharged by the solver"""
    fn=None
    def verify(s,X,fname):
        X.cur=s.name; X.spec=s; S=State()
        for lab,c in s.lemma(): X.prove(S,c,lab)
def bidef(h,b,k):
    m=1<<k; n=binop('and',h,m-1,64)
    return If(ult(n,b),n,binop('and',h,(m>>1)-1 if m>1 else 0,64))
class Growth(Lemma):
    name='bucket_index growth'; group='C03'
    def lemma(s):
        out=[]
        for k in range(0,33):
            # b buckets covered by 2^k, b+1 buckets covered by 2^k or 2^(k+1)
            hh=fresh('h'); b=fresh('b'); old=bidef(hh,b,k)
            rng=And(uge(b,1),ule(b,1<<k),Or(k==0,ugt(b,(1<<k)>>1)))
            for k2 in (k,k+1):
                if k2>32: continue
                c=ule(add(b,1),1<<k) if k2==k else eq(b,1<<k)
                new=bidef(hh,add(b,1),k2)
                spl=sub(b,(1<<k2)>>1)
                out.append((f'growth from modulus 2^{k} to 2^{k2}: only keys of the split bucket move, and only to the new bucket',
                  Implies(And(rng,c),And(Or(eq(new,old),And(eq(new,b),eq(old,spl))),Implies(eq(old,spl),Or(eq(new,spl),eq(new,b)))))))
        x=fresh('x')
        out.append(('doubling keeps powers of two',Implies(And(ispow2(x),ult(x,1<<63)),ispow2(mul(x,2)))))
        out.append(('one is a power of two',ispow2(1)))
        return out
# ------------------------------------------------------------- C02
DAT=[('version',8,2),('uid',10,8),('appnum',18,8),('key_size',26,2)]
KEY=DAT+[('salt',28,8),('pepper',36,8),('block_size',44,2),('load_factor',46,2)]
LOG=DAT+[('salt',28,8),('pepper',36,8),('block_size',44,2),('key_file_size',46,8),('dat_file_size',54,8)]
LAY={'dh':(DAT,92,'nudb.dat','dat'),'kh':(KEY,104,'nudb.key','key'),'lh':(LOG,62,'nudb.log','log')}
CLS={'dh':'dat_file_header','kh':'key_file_header','lh':'log_file_header'}
def fits(n,bs): return And(ule(n,3640),ule(add(mul(n,18),8),bs))      # n <= (bs-8)/18 for bs<=65535
def iscap(c,bs): return And(fits(c,bs),ugt(add(mul(c,18),26),bs))
def capis(c,bs): return And(Implies(ult(bs,104),eq(c,0)),Implies(uge(bs,104),iscap(c,bs)))   # the most entries that fit
def nbuckets(size,bs): return If(And(ugt(size,bs),ne(bs,0)),binop('udiv',sub(size,bs),If(eq(bs,0),1,bs),64),0)
def mkheader(X,S,k,name=None,lazy=True):
    p=S.new('arg:'+(name or k),OFF[k][1]); return p
def hsetfrom(X,S,p,k,m,size=None):
    "fields of header k at p := those encoded in byte memory m"
    lay,n,ty,_=LAY[k]
    S.mem[p.r]=MM.copy(X.region(S,p),add(p.o,fo(k+'.type')),8,m,0)
    for f,o,w in lay: fset(X,S,p,f'{k}.{f}',MM.be(m,o,w))
    if k=='kh':
        bs=fget(X,S,p,'kh.block_size'); b=nbuckets(size,bs)
        bb=fresh('buckets'); S.pc.append(tb(eq(bb,b))); 
        S.pc.append(tb(ule(bb,MAXF)))
        cc=fresh('capacity'); X.assume(S,capis(cc,bs)); X.assume(S,ule(cc,3641))
        fset(X,S,p,'kh.capacity',cc); fset(X,S,p,'kh.buckets',bb)
        pp=p2(bb); S.pc.append(tb(And(isp2(pp),p2facts(bb,pp)))); fset(X,S,p,'kh.modulus',pp)
    X.onwrite(S,p,OFF[k][1])
def hmem(X,S,p,k,n=None):
    "byte image of header k"
    lay,z,ty,_=LAY[k]
    m=MM.Fill0(0); m=MM.write(m,0,8,int.from_bytes(ty.encode(),'little'))
    for f,o,w in lay:
        v=fget(X,S,p,f'{k}.{f}'); m=MM.write(m,o,w,bswap(extract(v,0,8*w,64),w))
    return m
def typeok(X,S,p,k): return eq(X.rd(S,p,8,fo(k+'.type')),int.from_bytes(LAY[k][2].encode(),'little'))
class HRead(F):
    group='C02'; cases=('ok','short','fail')
    def __init__(s,k):
        s.k=k; s.name=f'read({CLS[k]})'; s.fn=rf'^void nudb::detail::read<nudb::posix_file>\(nudb::posix_file&, nudb::detail::{CLS[k]}&, '; s.pats=(s.fn,); super().__init__()
    def setup(s,X,S): return [s.setupfile(X,S,'read'),mkheader(X,S,s.k),mkec(X,S)]
    def pre(s,X,S,a): return [('file is open',fopen(X,S,a[0])),('no error on entry',ecok(X,S,a[2]))]
    def mods(s,X,S,a,case): return [('c',a[1].r,a[1].o,OFF[s.k][1])]+([] if case=='ok' else ecmods(a[2]))
    def size(s): return LAY[s.k][1]
    def guard(s,X,S0,S,a,ret,case):
        ok=inrange(0,s.size(),isize(S0,finode(S0,a[0]))); ec=a[2]
        if case=='ok': return And(ok,ecok(X,S,ec))
        if case=='short': return And(Not(ok),ecis(X,S,ec,SHORT()))
        return And(ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def effect(s,X,S0,S,a,ret,case):
        k=finode(S,a[0]); ev(X,S,'read',k,0,s.size())
        if case=='ok': hsetfrom(X,S,a[1],s.k,imem(S,k),isize(S,k))
    def post(s,X,S0,S,a,ret,case):
        if case!='ok' or X.spec is not s: return []
        k=finode(S0,a[0]); m=imem(S0,k); lay=LAY[s.k][0]; p=a[1]; r=[]
        r.append(('type bytes',eq(X.rd(S,p,8,fo(s.k+'.type')),MM.read(m,0,8))))
        for f,o,w in lay: r.append((f'{f} is the big-endian field at {o}',eq(fget(X,S,p,f'{s.k}.{f}'),MM.be(m,o,w))))
        if s.k=='kh':
            bs=MM.be(m,44,2); b=nbuckets(isize(S0,k),bs)
            r+=[('capacity',capis(fget(X,S,p,'kh.capacity'),bs)),('bucket count from the file size',eq(fget(X,S,p,'kh.buckets'),b)),('modulus is the covering power of two',eq(fget(X,S,p,'kh.modulus'),p2(fget(X,S,p,'kh.buckets'))))]
        return r
class HWrite(F):
    group='C02'; cases=('ok','fail')
    def __init__(s,k):
        s.k=k; s.name=f'write({CLS[k]})'; s.fn=rf'^void nudb::detail::write<nudb::posix_file>\(nudb::posix_file&, nudb::detail::{CLS[k]} const&, '; s.pats=(s.fn,)
        if k=='kh': s.cases=('ok','badblock','fail')
        super().__init__()
    def setup(s,X,S):
        p=s.setupfile(X,S,'write'); a=[p,mkheader(X,S,s.k),mkec(X,S)]
        return a
    def n(s,X,S,a): return fget(X,S,a[1],'kh.block_size') if s.k=='kh' else LAY[s.k][1]
    def small(s,X,S,a): return ult(s.n(X,S,a),LAY[s.k][1])
    def pre(s,X,S,a):
        r=[('no error on entry',ecok(X,S,a[2])),('fields fit their width',And(*[ult(fget(X,S,a[1],f'{s.k}.{f}'),1<<(8*w)) for f,o,w in LAY[s.k][0] if w<8]))]
        return r+wpre(X,S,a[0],0,s.n(X,S,a))
    def mods(s,X,S,a,case):
        if case=='badblock': return ecmods(a[2])
        k=finode(S,a[0])
        return ([] if case=='ok' else ecmods(a[2]))+[('g',('imem',k)),('g',('isize',k)),('g',('idirty',k))]
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        k=finode(S,a[0]); n=s.n(X,S,a); src=hmem(X,S,a[1],s.k); sm=s.small(X,S,a); out=[]
        if sm is not False and X.feasible(S,sm):
            U=S.copy(); X.assume(U,sm); ecset(X,U,a[2],E['invalid_block_size'],NUDB); out.append((U,None)); X.assume(S,Not(sm))
        T=S.copy()
        do_write(X,S,k,0,n,src,0); do_partial(X,T,k,0,n,src,0); ecset(X,T,a[2],syserr(X,T,a[2]),SYS)
        return Alt([(T,None),(S,None)]+out)
    def guard(s,X,S0,S,a,ret,case):
        sm=s.small(X,S0,a); ec=a[2]
        if case=='ok': return And(Not(sm),ecok(X,S,ec))
        if case=='badblock': return And(sm,ecis(X,S,ec,E['invalid_block_size']))
        return And(Not(sm),ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def expect(s,X,S0,S,a,case):
        return {}
    def post(s,X,S0,S,a,ret,case):
        if case=='badblock': return []
        k='ino'; n=s.n(X,S0,a); m0,m1=imem(S0,k),imem(S,k); src=hmem(X,S0,a[1],s.k); z0,z1=isize(S0,k),isize(S,k)
        if case=='ok':
            return [('exactly the documented header image at offset 0',Forall('byte',lambda x:eq(MM.read1(m1,x),If(ult(x,n),MM.read1(src,x),MM.read1(m0,x),8),8))),
                    ('size',eq(z1,If(ule(n,z0),z0,n)))]
        return [('nothing outside the header',Forall('byte',lambda x:Implies(uge(x,n),eq(MM.read1(m1,x),MM.read1(m0,x),8)))),('size',And(uge(z1,z0),Or(eq(z1,z0),ule(z1,n))))]
def conds(X,S,k,p):
    g=lambda f:fget(X,S,p,f'{k}.{f}')
    c=[(E['not_data_file'] if k=='dh' else E['not_key_file'] if k=='kh' else E['not_log_file'],typeok(X,S,p,k)),
       (E['different_version'],eq(g('version'),V['version'])),(E['invalid_key_size'],uge(g('key_size'),1))]
    if k!='dh': c.append((E['hash_mismatch'],eq(g('pepper'),PEPPER(bv(g('salt'))))))
    if k=='kh': c+=[(E['invalid_load_factor'],uge(g('load_factor'),1)),(E['invalid_capacity'],uge(g('capacity'),1)),(E['invalid_bucket_count'],uge(g('buckets'),1))]
    return c
def pairconds(X,S,k1,p,k2,q):
    names=['uid','appnum','key_size']+(['salt','pepper','block_size'] if k2=='lh' else [])
    return [(E[f+'_mismatch'],eq(fget(X,S,p,f'{k1}.{f}'),fget(X,S,q,f'{k2}.{f}'))) for f in names]
class HVerify(Spec):
    group='C02'; cases=('ok','bad')
    def __init__(s,ks):
        s.ks=ks; s.name=f'verify({", ".join(CLS[k] for k in ks)})'
        h='<nudb::xxhasher>' if ks!=['dh'] else '<void>'
        s.fn='^void nudb::detail::verify'+h+r'\('+', '.join(f'nudb::detail::{CLS[k]} const&' for k in ks)+r', (boost::system|nudb)::error_code&\)'; s.pats=(s.fn,); super().__init__()
    def setup(s,X,S): return [mkheader(X,S,k) for k in s.ks]+[mkec(X,S)]
    def pre(s,X,S,a): return [('no error on entry',ecok(X,S,a[-1]))]
    def mods(s,X,S,a,case): return [] if case=='ok' else ecmods(a[-1])
    def cs(s,X,S,a):
        if len(s.ks)==1: return conds(X,S,s.ks[0],a[0])
        k1,k2=s.ks
        c=conds(X,S,'kh' if s.ks==['dh','kh'] else 'lh',a[1])
        return c+(pairconds(X,S,'kh',a[1],'dh',a[0]) if s.ks==['dh','kh'] else pairconds(X,S,'kh',a[0],'lh',a[1]))
    def guard(s,X,S0,S,a,ret,case):
        cs=s.cs(X,S0,a); ok=And(*[c for _,c in cs])
        if case=='ok': return And(ok,ecok(X,S,a[-1]))
        return And(Not(ok),Or(*[And(ecis(X,S,a[-1],e),Not(c)) for e,c in cs]))
class Pepper(Spec):
    name='pepper'; group='C20'; fn=r'^unsigned long nudb::detail::pepper<nudb::xxhasher>\('; pats=(fn,)
    def setup(s,X,S): return [fresh('salt')]
    def result(s,X,S,a,case,i): return PEPPER(bv(a[0]))
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        # PEPPER(salt) := XXH64 of the 8 little-endian salt bytes under seed salt
        m=MM.write(MM.Fill0(0),0,8,a[0])
        return [('hash of the little-endian salt under itself',eq(ret,xxh(X,S,m,0,8,a[0])))]
# ------------------------------------------------------------- C20
HASHES={}
def xxh(X,S,m,o,n,seed):
    """value of the spec function XXH64(bytes,seed): one term per byte string
    (byte strings are identified by provenance: same memory version, same place)"""
    if isinstance(n,int) and n<=16:
        try:
            v=MM.read(m,o,n,X.mustq(S)) if n else 0
            return z3.Function(f'XXH64_{n}',z3.BitVecSort(8*max(n,1)),U64,U64)(bv(v,8*max(n,1)),bv(seed))
        except Unsupported: pass
    m,o=MM.describe(m,o,n,X.mustq(S))
    key=(id(m),str(o),str(n),str(seed))
    t=HASHES.get(key)
    if t is None: t=(fresh('xxh64'),m); HASHES[key]=t
    return t[0]
def khash(v): return binop('and',binop('lshr',v,16,64),MASK48,64)
class XXH(Spec):
    name='XXH64'; group='C20'; fn=r'^unsigned long nudb::detail::XXH64<void>\('; pats=(fn,)
    def setup(s,X,S):
        S.new('arg:key',None,kind='arr'); S.rsize['arg:key']=fresh('ksz'); return [Ptr('arg:key',fresh('ko')),fresh('len'),fresh('seed')]
    def pre(s,X,S,a):
        p,n,seed=a; z=S.rsize.get(p.r)
        r=[('key readable',And(ule(p.o,z),ule(n,sub(z,p.o)),ule(z,1<<62)) if z is not None else True)]
        if s.long is not None:
            al=eq(binop('and',X.ptrint(S,p),7,64),0)
            r+=[('case split on length',uge(n,32) if s.long else ult(n,32)),('case split on alignment',al if s.al else Not(al))]
        return r
    def result(s,X,S,a,case,i): return xxh(X,S,X.region(S,a[0]),a[0].o,a[1],a[2])
    opts={'check_align':('arg:key',)}
    # proof side: reference algorithm; four proofs split the precondition by length and alignment
    part=None
    def __init__(s,long=None,al=None):
        s.long=long; s.al=al
        if long is not None: s.name=f'XXH64[{"len>=32" if long else "len<32"}, {"aligned" if al else "unaligned"}]'; s.cost=6 if long else 5; s.nocontract=('XXH64',)
        super().__init__()
    P=[11400714785074694791,14029467366897019727,1609587929392839161,9650029242287828579,2870177450012600261]
    def rot(s,x,r): return binop('or',binop('shl',x,r,64),binop('lshr',x,64-r,64),64)
    def round(s,acc,x): return RND(bv(acc),bv(x))
    def merge(s,h,v): return add(mul(binop('xor',h,s.round(0,v),64),s.P[0]),s.P[3])
    def ghostfree(s): return ('xxcut',)
    def at_loop_head(s,X,S):
        if 'xxcut' not in S.g:
            S.g['xxcut']=1; s.axioms(X,S)
    def unroll(s,X,S,F,h): return 'xxcut' in S.g or X.must(S,ult(s.args[1],32))
    def verify(s,X,fname):
        s.VJ=[z3.Function(f'lane{j}',U64,U64) for j in range(4)]
        super().verify(X,fname)
    def axioms(s,X,S):
        "definition of the lane accumulators: recursion over stripes"
        p,n,seed=s.args; m=s.S0.mem['arg:key']
        init=[add(seed,(s.P[0]+s.P[1])&M(64)),add(seed,s.P[1]),seed,sub(seed,s.P[0])]
        S.univ.append(Forall('stripe',lambda i:And(*[eq(s.VJ[j](bv(add(i,1))),RND(s.VJ[j](bv(i)),bv(MM.read(m,add(p.o,add(mul(i,32),8*j)),8)))) for j in range(4)])))
        S.term('stripe',0)
        S.univ.append(Forall('stripe',lambda i:Implies(eq(i,0),And(*[eq(s.VJ[j](bv(i)),init[j]) for j in range(4)]))))
    def loop_subst(s,X,S,d,F,h,locs,get):
        p,n,seed=s.args; init=[add(seed,(s.P[0]+s.P[1])&M(64)),add(seed,s.P[1]),seed,sub(seed,s.P[0])]
        ptr=[l for l in locs if isinstance(get(S,l),Ptr) and get(S,l).r=='arg:key' and eqv(get(S,l).o,p.o)]
        if not ptr: return []
        out=[]
        for l in locs:
            v=get(S,l)
            if not isinstance(v,(int,z3.BitVecRef)) : continue
            for j in range(4):
                if eqv(v,init[j]):
                    def fn(T,j=j):
                        q=get(T,ptr[0])
                        if not isinstance(q,Ptr): return None
                        x=s.stripe(T,q.o); return None if x is None else s.VJ[j](bv(x))
                    out.append((l,fn)); break
        return out
    def stripe(s,T,x):
        "x-input as a multiple of 32, syntactically"
        e=sub(x,s.args[0].o)
        if isinstance(e,int): return e//32 if e%32==0 else None
        ts=e.children() if e.decl().kind()==z3.Z3_OP_BADD else [e]; r=0
        for t in ts:
            if z3.is_bv_value(t): c,v=t.as_long(),None
            elif t.decl().kind()==z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)) and t.num_args()==2: c,v=t.arg(0).as_long(),t.arg(1)
            else: return None
            if c%32: return None
            r=add(r,c//32 if v is None else mul(c//32,v))
        T.term('stripe',r)
        return r
    def loop_inv(s,X,S,d,F,h,ints):
        p,n,seed=s.args; out=[]; ns=binop('lshr',n,5,64)
        ptrs=[(nm,f) for nm,w,f in ints if w==64 and f(S) is not None and eqv(f(S),p.o)]
        for nm,f in ptrs:
            def c0(T,f=f):
                x=f(T); x=None if x is None else s.stripe(T,x); return None if x is None else And(ule(x,1<<57),ule(mul(x,32),n))
            def c1(T,f=f):
                x=f(T); x=None if x is None else s.stripe(T,x); return None if x is None else And(ule(x,1<<57),ule(add(mul(x,32),32),n))
            out+=[(f'{nm} walks whole stripes',c0),(f'{nm} has a whole stripe left',c1)]
        return out
    def check_exit(s,X,S0,T,a,ret):
        p,n,seed=a; m=S0.mem['arg:key']; P=s.P
        nst=fresh('stripes'); r=fresh('rest'); any_=False
        T.pc+=[tb(ult(r,32)),tb(ule(nst,1<<58)),tb(eq(n,add(mul(nst,32),r)))]     # n = 32*stripes+rest
        for big in(False,True):
            g0=uge(n,32) if big else ult(n,32)
            if not X.feasible(T,g0): continue
            B=T.copy()
            X.assume(B,g0); rt=ret; idx=nst
            if not big: X.assume(B,eq(nst,0))
            if big:
                for t in B.terms.get('stripe',[]):
                    t1=add(t,1)
                    for q in(t,t1):
                        if not isinstance(q,int) and X.must(B,eq(q,nst)): idx=q
                B.term('stripe',idx)
                # identify the lane values inside the result
                subs=[]; seen=set(); stack=[rt]
                while stack:
                    e=stack.pop()
                    if not isinstance(e,z3.ExprRef) or e.get_id() in seen: continue
                    seen.add(e.get_id()); stack+=e.children()
                    if e.decl().name()=='XXH_ROUND':
                        if z3.is_bv_value(e.arg(0)): continue
                        hit=False
                        for full in(False,True):
                            for j in range(4):
                                if X.valid(B,eq(e,s.VJ[j](bv(idx))),timeout=60000 if full else 5000,full=full)[0]=='proved': subs.append((e,s.VJ[j](bv(idx)))); hit=True; break
                            if hit: break
                if subs: rt=z3.substitute(rt,*subs)
            for n8 in range(4):
                for n4 in range(2):
                    for n1 in range(4):
                        g=eq(r,8*n8+4*n4+n1)
                        if (n4,n1)==(0,0): ok8=X.feasible(B,And(uge(r,8*n8),ult(r,8*n8+8)))
                        if not ok8: continue
                        if n1==0: ok4=X.feasible(B,And(uge(r,8*n8+4*n4),ult(r,8*n8+4*n4+4)))
                        if not ok4 or not X.feasible(B,g): continue
                        any_=True
                        U=B.copy(); X.assume(U,g)
                        if big:
                            v=[s.VJ[j](bv(idx)) for j in range(4)]
                            hh=add(add(s.rot(v[0],1),s.rot(v[1],7)),add(s.rot(v[2],12),s.rot(v[3],18)))
                            for x in v: hh=s.merge(hh,x)
                        else: hh=add(seed,P[4])
                        hh=add(hh,n); q=add(p.o,mul(idx,32)) if big else p.o
                        for _ in range(n8):
                            hh=add(mul(s.rot(binop('xor',hh,s.round(0,MM.read(m,q,8)),64),27),P[0]),P[3]); q=add(q,8)
                        if n4:
                            hh=add(mul(s.rot(binop('xor',hh,mul(zext(MM.read(m,q,4),32,64),P[0]),64),23),P[1]),P[2]); q=add(q,4)
                        for _ in range(n1):
                            hh=mul(s.rot(binop('xor',hh,mul(zext(MM.read1(m,q),8,64),P[4]),64),11),P[0]); q=add(q,1)
                        hh=mul(binop('xor',hh,binop('lshr',hh,33,64),64),P[1]); hh=mul(binop('xor',hh,binop('lshr',hh,29,64),64),P[2]); hh=binop('xor',hh,binop('lshr',hh,32,64),64)
                        x1,x2=z3.simplify(bv(rt),som=True),z3.simplify(bv(hh),som=True)
                        X.prove(U,True if same(x1,x2) else eq(x1,x2),f'ensures the reference XXH64 value [{"stripes+" if big else ""}{n8}x8+{n4}x4+{n1}]')
        s.frame(X,S0,T,a,None,{})
RND=z3.Function('XXH_ROUND',U64,U64,U64)
class Round(Spec):
    name='XXH64_round'; group='C20'; fn=r'^nudb::detail::XXH64_round\('; pats=(fn,)
    def setup(s,X,S): return [fresh('acc'),fresh('input')]
    def result(s,X,S,a,case,i): return RND(bv(a[0]),bv(a[1]))
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        x=add(a[0],mul(a[1],XXH.P[1]))
        return [('round function',eq(ret,mul(binop('or',binop('shl',x,31,64),binop('lshr',x,33,64),64),XXH.P[0])))]
class Hash(Spec):
    name='hash'; group='C20'; fn=r'^ndv_hash$'; nocontract=()
    def setup(s,X,S):
        S.new('arg:key',None,kind='arr'); S.rsize['arg:key']=fresh('ksz'); return [Ptr('arg:key',fresh('ko')),fresh('len'),fresh('salt')]
    def pre(s,X,S,a):
        p,n,seed=a; z=S.rsize.get(p.r); return [('key readable',And(ule(p.o,z),ule(n,sub(z,p.o)),ule(z,1<<62)))]
    def post(s,X,S0,S,a,ret,case): return [('top 48 bits of XXH64 under the salt',eq(ret,khash(xxh(X,S0,S0.mem['arg:key'],a[0].o,a[1],a[2]))))]
CONTRACTS=[CeilPow2(),BucketIndex(),*[HRead(k) for k in LAY],*[HWrite(k) for k in LAY],HVerify(['dh']),HVerify(['kh']),HVerify(['lh']),HVerify(['dh','kh']),HVerify(['kh','lh']),Pepper(),XXH(),Round()]
PROOFS=[CeilPow2(),*[BucketIndexK(k) for k in range(33)],Growth(),*[HRead(k) for k in LAY],*[HWrite(k) for k in LAY],HVerify(['dh']),HVerify(['kh']),HVerify(['lh']),HVerify(['dh','kh']),HVerify(['kh','lh']),Pepper(),XXH(False,False),XXH(False,True),XXH(True,False),XXH(True,True),Hash(),Round()]
