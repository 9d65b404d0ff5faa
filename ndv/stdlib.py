"""Assumed contracts of the C++ standard library, boost.system, libc memory
functions and allocation.  Everything here is part of the trusted base."""
import re, z3
from terms import *
import mem as MM
from execu import *
from spec import *
H=[]
TRUST={}
def h(pat,why=''):
    def d(fn):
        H.append((re.compile(pat),fn)); fn.pat=pat; fn.why=why
        TRUST[pat]=why or fn.__doc__ or fn.__name__
        return fn
    return d

@h(r'^__assert_fail$')
def _assert(X,S,a,i,dem):
    "assertion: an obligation"
    msg=cstr(X,S,a[0]) or '?'
    if X.on_abort: X.on_abort('assert '+msg); raise PathEnd('assert')
    X.prove(S,False,f'BOOST_ASSERT({msg})')
    raise PathEnd('assert')
def cstr(X,S,p):
    try:
        m=X.region(S,p); out=b''
        for k in range(200):
            c=MM.read(m,add(p.o,k),1)
            if not isinstance(c,int): return None
            if c==0: return out.decode()
            out+=bytes([c])
    except Unsupported: return None
    return out.decode()
@h(r'^__cxa_throw$')
def _throw(X,S,a,i,dem):
    "throwing: an obligation that it is unreachable"
    if X.on_abort: X.on_abort('throw'); raise PathEnd('throw')
    X.prove(S,False,'no exception is thrown')
    raise PathEnd('throw')
@h(r'^(__cxa_allocate_exception)$')
def _exc(X,S,a,i,dem): return S.new(('heap','exc',i.id),None)
@h(r'^(__cxa_free_exception|__clang_call_terminate|__cxa_begin_catch|__cxa_end_catch|__cxa_rethrow|_Unwind_Resume)')
def _exc2(X,S,a,i,dem): return S.new(('heap','exc2',i.id),None)
@h(r'^std::(logic_error|length_error|runtime_error|out_of_range)::')
def _le(X,S,a,i,dem): return None
@h(r'^std::__throw_|^std::terminate|^boost::throw_exception|^boost::system::detail::throw')
def _thr(X,S,a,i,dem):
    if X.on_abort: X.on_abort('throw'); raise PathEnd('throw')
    X.prove(S,False,'no exception is thrown'); raise PathEnd('throw')

def newheap(X,S,i,n,kind='arr'):
    site=('heap',)+S.frames[-1].site+(i.id,)
    k=0
    while True:
        rid=site+('#%d'%k,)
        if rid not in S.mem or rid in S.dead: break
        k+=1
    if rid in S.dead:
        # reuse only when nothing can still refer to it: stale pointers would look alive
        while rid in S.mem and (rid not in S.dead or referenced(S,rid)):
            k+=1; rid=site+('#%d'%k,)
    S.new(rid,n,kind=kind); S.dead=S.dead-{rid}
    return Ptr(rid,0)
def referenced(S,rid):
    for r,m in S.mem.items():
        if r in S.dead: continue
        n=m
        while n is not None:
            if isinstance(n,MM.Cells):
                for (k,v) in n.d.values():
                    if isinstance(v,Ptr) and v.r==rid: return True
            n=getattr(n,'below',None)
    for f in S.frames:
        pass
    return False
@h(r'^operator new(\[\])?\(unsigned long\)$')
def _new(X,S,a,i,dem):
    "allocation succeeds and returns a fresh block (out-of-memory not modelled)"
    n=a[0]
    return newheap(X,S,i,n,'arr' if '[]' in dem else 'obj')
@h(r'^operator delete(\[\])?\(void\*(, unsigned long)?\)$')
def _del(X,S,a,i,dem):
    "deallocation ends the block's life"
    p=a[0]
    if isinstance(p,Ptr) and p.r is not None:
        if p.r in S.dead: X.prove(S,False,'memory: double free')
        S.dead=S.dead|{p.r}
    return None
def blockeq(X,S,m1,o1,m2,o2,n):
    "Bool e with  e <-> the two byte ranges are equal (lazily witnessed)"
    if isinstance(n,int) and n<=16:
        return eq(MM.read(m1,o1,n,X.mustq(S)),MM.read(m2,o2,n,X.mustq(S)),8*n)
    d1=MM.describe(m1,o1,n,X.mustq(S)); d2=MM.describe(m2,o2,n,X.mustq(S))
    if d1[0] is d2[0] and eqv(d1[1],d2[1]): return True
    key=(id(d1[0]),str(d1[1]),id(d2[0]),str(d2[1]),str(n))
    c=S.g.get(('scratch','beq',key))
    if c is not None: return c
    e=freshb('beq'); w=fresh('beqw')
    S.g[('scratch','beq',key)]=e
    S.g[('scratch','beqr',id(e))]=(d1,d2)
    a1,b1=d1; a2,b2=d2
    # equal -> every byte equal (instantiated on registered byte terms); unequal -> witness
    S.univ.append(Forall('byte',lambda k:Implies(And(e,ult(k,n)),eq(MM.read1(a1,add(b1,k)),MM.read1(a2,add(b2,k)),8))))
    S.pc.append(tb(Implies(Not(e),And(ult(w,n),ne(MM.read1(a1,add(b1,w)),MM.read1(a2,add(b2,w)),8)))))
    return e
@h(r'^(memcmp|bcmp)$')
def _memcmp(X,S,a,i,dem):
    "memcmp: 0 iff the ranges are equal; sign unspecified otherwise"
    n=a[2]
    X.chk(S,a[0],n,'memcmp'); X.chk(S,a[1],n,'memcmp')
    if isinstance(n,int) and n==0: return 0
    hook=S.g.get('memcmp_hook')
    m1=X.region(S,a[0]); m2=X.region(S,a[1])
    if X.spec is not None and hasattr(X.spec,'memcmp'):
        e=X.spec.memcmp(X,S,a[0],a[1],n)
        if e is None: e=blockeq(X,S,m1,a[0].o,m2,a[1].o,n)
    else: e=blockeq(X,S,m1,a[0].o,m2,a[1].o,n)
    r=fresh('memcmp',32)
    X.assume(S,Iff(e,eq(r,0,32)))
    return r
@h(r'^memcpy$|^memmove$')
def _memcpy(X,S,a,i,dem):
    X.memcpy(S,a[0],a[1],a[2],dem); return a[0]
@h(r'^memset$')
def _memset(X,S,a,i,dem):
    X.memset(S,a[0],trunc(a[1],32,8),a[2]); return a[0]
@h(r'^(unsigned long|unsigned int|int|long) const& std::(min|max)<')
def _minmax(X,S,a,i,dem):
    "std::min/max: result reference to a temporary holding the selected value"
    w={'unsigned long':64,'long':64,'int':32,'unsigned int':32}[re.match(r'(unsigned long|unsigned int|int|long)',dem).group(1)]
    if 'Compare' in dem or len(a)>2: return NOTHANDLED
    x=X.rd(S,a[0],w//8); y=X.rd(S,a[1],w//8)
    lt='ult' if 'unsigned' in dem.split('const&')[0] else 'slt'
    ismin='std::min<' in dem
    c=cmp(lt,y,x,w) if ismin else cmp(lt,x,y,w)
    v=If(c,y,x,w)
    if isinstance(c,(bool,int)): return a[1] if c else a[0]
    p=S.new(('tmp',)+S.frames[-1].site+(i.id,),w//8); S.dead=S.dead-{p.r}
    X.wr(S,p,0,w//8,v); return p
@h(r'^void std::fill<unsigned char\*, unsigned char>')
def _fill(X,S,a,i,dem):
    n=sub(a[1].o,a[0].o); X.memset(S,a[0],X.rd(S,a[2],1),n); return None
# ---------------- error codes
CATS={'@cat0':0,'@cat1':1,'@cat2':2}
def catid(X,S,p):
    if isinstance(p,Ptr) and p.r in CATS: return CATS[p.r]
    if isinstance(p,Ptr) and isinstance(p.r,str) and p.r.startswith('catof:'): return p.o
    raise Unsupported(f'error category {p}')
@h(r'^boost::system::(system_category|generic_category)\(\)$|^nudb::nudb_category\(\)|^boost::system::detail::(system|generic)_')
def _cat(X,S,a,i,dem):
    "error categories are distinct singletons"
    return Ptr('@cat0' if 'system_c' in dem or 'detail::system' in dem else '@cat2' if 'generic' in dem else '@cat1',0)
@h(r'^nudb::make_error_code\(nudb::error\)')
def _mkec(X,S,a,i,dem):
    p=a[0]
    if len(a)==2: X.wr(S,p,0,4,a[1]); X.wr(S,p,8,8,1); X.wr(S,p,16,8,0); return None
    raise Unsupported('make_error_code abi')
@h(r'boost::system::error_code::error_code\(\)$')
def _ec0(X,S,a,i,dem):
    "boost::system::error_code is a (value, category) pair; operator bool is value != 0"
    ecset(X,S,a[0],0,0); return None
@h(r'boost::system::error_code::error_code\(int, boost::system::error_category const&\)$')
def _ec2(X,S,a,i,dem): ecset(X,S,a[0],a[1],catid(X,S,a[2])); return None
@h(r'boost::system::error_code::error_code<nudb::error>\(')
def _ec1(X,S,a,i,dem): ecset(X,S,a[0],a[1],NUDB); return None
@h(r'boost::system::error_code::operator=<nudb::error>\(')
def _ecas(X,S,a,i,dem): ecset(X,S,a[0],a[1],NUDB); return a[0]
@h(r'boost::system::error_code::error_code<boost::system::errc::errc_t>\(')
def _ec1e(X,S,a,i,dem): ecset(X,S,a[0],a[1],GEN); return None
@h(r'boost::system::error_code::operator=<boost::system::errc::errc_t>\(')
def _ecase(X,S,a,i,dem): ecset(X,S,a[0],a[1],GEN); return a[0]
@h(r'boost::system::error_code::assign\(int, boost::system::error_category const&\)$')
def _ecasg(X,S,a,i,dem): ecset(X,S,a[0],a[1],catid(X,S,a[2])); return None
@h(r'boost::system::error_code::clear\(\)$')
def _ecclr(X,S,a,i,dem): ecset(X,S,a[0],0,0); return None
@h(r'boost::system::error_code::(operator bool|failed)\(\) const$')
def _ecb(X,S,a,i,dem): return ne(ecval(X,S,a[0]),0,32)
@h(r'boost::system::error_code::operator!\(\) const$')
def _ecnb(X,S,a,i,dem): return eq(ecval(X,S,a[0]),0,32)
@h(r'boost::system::error_code::value\(\) const$')
def _ecv(X,S,a,i,dem): return ecval(X,S,a[0])
@h(r'boost::system::error_condition::value\(\) const$')
def _ecnv(X,S,a,i,dem): return X.rd(S,a[0],4,0)
@h(r'boost::system::error_condition::error_condition\(\)$')
def _econd0(X,S,a,i,dem): X.wr(S,a[0],0,4,0); X.wr(S,a[0],8,8,GEN); return None
@h(r'boost::system::error_condition::error_condition<boost::system::errc::errc_t>')
def _econd(X,S,a,i,dem): X.wr(S,a[0],0,4,a[1]); X.wr(S,a[0],8,8,GEN); return None
@h(r'boost::system::error_condition::error_condition\(int, boost::system::error_category const&\)')
def _econd2(X,S,a,i,dem): X.wr(S,a[0],0,4,a[1]); X.wr(S,a[0],8,8,catid(X,S,a[2])); return None
@h(r'^boost::system::operator(==|!=)\(boost::system::error_code const&, boost::system::error_code const&\)')
def _eceq(X,S,a,i,dem):
    e=And(eq(ecval(X,S,a[0]),ecval(X,S,a[1]),32),eq(eccat(X,S,a[0]),eccat(X,S,a[1])))
    return e if '==' in dem else Not(e)
@h(r'^boost::system::operator(==|!=)\(boost::system::error_code const&, boost::system::error_condition const&\)')
def _eceqc(X,S,a,i,dem):
    "system and generic codes compare to errc conditions by POSIX errno value; nudb codes never equal a generic condition"
    v,c=ecval(X,S,a[0]),eccat(X,S,a[0]); cv,cc=X.rd(S,a[1],4,0),X.rd(S,a[1],8,8)
    e=And(eq(v,cv,32),Or(And(eq(cc,GEN),Or(eq(c,SYS),eq(c,GEN))),And(Not(eq(cc,GEN)),eq(c,cc))))
    return e if '==' in dem else Not(e)
@h(r'^bool boost::system::operator(==|!=)<nudb::error>|^boost::system::operator(==|!=)<boost::system::errc')
def _eceqx(X,S,a,i,dem): raise Unsupported(dem)
# ---------------- strings (paths and header types)
def strid(X,S,p):
    r=S.g.get(('str',p.r,p.o if isinstance(p.o,int) else str(p.o)))
    if r is None: return ('path',rname(p.r)+'+'+str(p.o))
    return r
BS=r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'
@h(r'^'+BS+r'::basic_string\('+BS+r'( const)?&')
def _strcp(X,S,a,i,dem):
    "std::string copies/moves preserve content"
    S.g[('str',a[0].r,a[0].o)]=strid(X,S,a[1]); return None
@h(r'^'+BS+r'::operator=\(')
def _stras(X,S,a,i,dem):
    S.g[('str',a[0].r,a[0].o)]=strid(X,S,a[1]); return a[0]
@h(r'^'+BS+r'::basic_string\(char const\*, unsigned long')
def _strn(X,S,a,i,dem):
    n=a[2]
    X.chk(S,a[1],n,'string source')
    S.g[('str',a[0].r,a[0].o)]=('bytes',X.region(S,a[1]),a[1].o,n); return None
@h(r'^'+BS+r'::basic_string<.*>\(char const\*, std::allocator<char> const&\)|^'+BS+r'::basic_string\(char const\*, std::allocator')
def _strc(X,S,a,i,dem):
    c=cstr(X,S,a[1])
    if c is None: raise Unsupported('string from unknown chars')
    S.g[('str',a[0].r,a[0].o)]=('lit',c); return None
@h(r'^'+BS+r'::~basic_string\(\)')
def _strd(X,S,a,i,dem): return None
@h(r'^'+BS+r'::basic_string\(\)')
def _str0(X,S,a,i,dem): S.g[('str',a[0].r,a[0].o)]=('lit',''); return None
@h(r'^'+BS+r'::(c_str|data)\(\) const')
def _cstrf(X,S,a,i,dem):
    p=Ptr('cstr:'+repr(strid(X,S,a[0])),0)
    S.g[('cstr',p.r)]=strid(X,S,a[0])
    if p.r not in S.mem: S.new(p.r,None)
    return p
@h(r'^std::allocator<char>::(~?allocator)|^std::__new_allocator<char>|^std::allocator_traits')
def _alc(X,S,a,i,dem):
    if 'allocator<char>::' in dem: return None
    return NOTHANDLED
@h(r'^bool std::operator(!=|==)<char.*>\(.*char const\*\)')
def _strcmp(X,S,a,i,dem):
    "string/literal comparison compares contents"
    c=cstr(X,S,a[1]); d=strid(X,S,a[0])
    if d[0]!='bytes' or c is None: raise Unsupported('string compare')
    _,m,o,n=d
    if n!=len(c): e=False
    else: e=eq(MM.read(m,o,n,X.mustq(S)),int.from_bytes(c.encode(),'little'),8*n)
    return Not(e) if '!=' in dem else e
# ---------------- misc library
@h(r'^std::ios_base::Init|^__cxa_atexit|^__cxa_guard')
def _ios(X,S,a,i,dem): raise Unsupported(dem)
@h(r'^std::random_device|^std::mersenne_twister_engine|^std::uniform_int_distribution<unsigned long>::uniform')
def _rng(X,S,a,i,dem): return None
@h(r'std::uniform_int_distribution<unsigned long>::operator\(\)|^std::random_device::operator')
def _rng2(X,S,a,i,dem):
    "random numbers are arbitrary"
    return freshty(i.ty)
@h(r'^std::ceil\(|^ceil(f)?$')
def _ceil(X,S,a,i,dem):
    return z3.FP(f'fp!{uid()}',fpsort(i.ty.w)) if X.fp_opaque else z3.fpRoundToIntegral(z3.RTP(),a[0])
@h(r'^__errno_location$')
def _errno(X,S,a,i,dem):
    if '@errno' not in S.mem: S.new('@errno',4)
    return Ptr('@errno',0)
def handlers(): return list(H)
