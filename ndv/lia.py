"""Third back end: exact-or-weaker translation of bit-vector constraints to
integer arithmetic with uninterpreted functions, solved by z3.

Every bit-vector term of width w becomes an integer in [0,2^w).  Sums with
constant coefficients become the integer combination minus 2^w*k for a fresh
integer k (coefficients above 2^(w-1) are taken as negative).  Terms the
translation does not know become unconstrained integers of their range, so
`unsat` here implies `unsat` of the bit-vector constraints (never the converse)."""
import z3, time
K=z3
_c={}; _n=[0]; _o=[0]
I=z3.IntVal
def fi(p='k'):
    _n[0]+=1; return z3.Int(f'{p}!{_n[0]}')
BIN={K.Z3_OP_ULEQ:lambda a,b:a<=b,K.Z3_OP_ULT:lambda a,b:a<b,K.Z3_OP_UGEQ:lambda a,b:a>=b,K.Z3_OP_UGT:lambda a,b:a>b}
SBIN={K.Z3_OP_SLEQ:lambda a,b:a<=b,K.Z3_OP_SLT:lambda a,b:a<b,K.Z3_OP_SGEQ:lambda a,b:a>=b,K.Z3_OP_SGT:lambda a,b:a>b}
_f={}
def rng(v,w): return [v>=0,v<I(1<<w)]
def opaque(e,cs):
    _o[0]+=1
    if z3.is_bool(e): _n[0]+=1; return z3.Bool(f'b!{_n[0]}'),[]
    v=fi('o'); return v,rng(v,e.size())
def wrap(x,w,lo,hi):
    "x mod 2^w for lo <= x <= hi"
    a,b=lo>>w,hi>>w
    if a==b: return (x-I(a<<w) if a else x),[]
    if b-a==1:
        c=x>=I(b<<w); return z3.If(c,x-I(b<<w) if b else x,x-I(a<<w) if a else x),[]
    t=fi('t'); k=fi(); return t,[t==x-I(1<<w)*k,k>=I(a),k<=I(b)]+rng(t,w)
def top(a):
    k=a.decl().kind()
    if k==K.Z3_OP_CONCAT and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long()==0: return (1<<(a.size()-a.arg(0).size()))-1
    if k==K.Z3_OP_ZERO_EXT: return (1<<a.arg(0).size())-1
    if k==K.Z3_OP_BLSHR and z3.is_bv_value(a.arg(1)): return ((1<<a.size())-1)>>a.arg(1).as_long()
    return (1<<a.size())-1
def sgn(c,w): return c-(1<<w) if c>>(w-1) else c
def lin(e,w,m,cf):
    "accumulate cf*e into m (atoms by id); returns constant part"
    k=e.decl().kind()
    if k==K.Z3_OP_BNUM: return cf*e.as_long()
    if k==K.Z3_OP_BADD: return sum(lin(c,w,m,cf) for c in e.children())
    if k==K.Z3_OP_BSUB:
        l=e.children(); return lin(l[0],w,m,cf)+sum(lin(c,w,m,-cf) for c in l[1:])
    if k==K.Z3_OP_BNEG: return lin(e.children()[0],w,m,-cf)
    if k==K.Z3_OP_BMUL:
        l=e.children(); c=1; o=[]
        for x in l:
            if z3.is_bv_value(x): c*=sgn(x.as_long(),w)
            else: o.append(x)
        if not o: return cf*c
        if len(o)==1: return lin(o[0],w,m,cf*c)
    if k==K.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)) and e.arg(1).as_long()<w: return lin(e.arg(0),w,m,cf<<e.arg(1).as_long())
    i=e.get_id(); a=m.get(i); m[i]=(e,(a[1] if a else 0)+cf); return 0
def tr1(e,T):
    k=e.decl().kind(); cs=e.children()
    if z3.is_bool(e):
        if k==K.Z3_OP_TRUE: return z3.BoolVal(True),[]
        if k==K.Z3_OP_FALSE: return z3.BoolVal(False),[]
        if k==K.Z3_OP_AND: return z3.And(*[T(c) for c in cs]),[]
        if k==K.Z3_OP_OR: return z3.Or(*[T(c) for c in cs]),[]
        if k==K.Z3_OP_NOT: return z3.Not(T(cs[0])),[]
        if k==K.Z3_OP_IMPLIES: return z3.Implies(T(cs[0]),T(cs[1])),[]
        if k==K.Z3_OP_XOR: return z3.Xor(T(cs[0]),T(cs[1])),[]
        if k==K.Z3_OP_ITE: return z3.If(*[T(c) for c in cs]),[]
        if k in BIN: return BIN[k](T(cs[0]),T(cs[1])),[]
        if k in SBIN:
            h=I(1<<(cs[0].size()-1)); w=I(1<<cs[0].size()); s=lambda x:z3.If(x>=h,x-w,x)
            return SBIN[k](s(T(cs[0])),s(T(cs[1]))),[]
        if k in(K.Z3_OP_EQ,K.Z3_OP_DISTINCT):
            s0=cs[0].sort()
            if z3.is_bool(cs[0]) or z3.is_bv(cs[0]):
                if k==K.Z3_OP_EQ: return T(cs[0])==T(cs[1]),[]
                return z3.Distinct(*[T(c) for c in cs]),[]
        if k==K.Z3_OP_UNINTERPRETED and not cs: return e,[]
        return opaque(e,cs)
    if not z3.is_bv(e): return None,[]
    w=e.size()
    if k==K.Z3_OP_BNUM: return I(e.as_long()),[]
    if k==K.Z3_OP_UNINTERPRETED:
        if not cs:
            v=z3.Int('v|'+e.decl().name()+f'|{w}'); return v,rng(v,w)
        if all(z3.is_bv(c) for c in cs):
            d=e.decl(); key=d.name()+'|'+'|'.join(str(c.size()) for c in cs)
            f=_f.get(key)
            if f is None: f=_f[key]=z3.Function('f|'+key,*([z3.IntSort()]*(len(cs)+1)))
            v=f(*[T(c) for c in cs]); return v,rng(v,w)
        return opaque(e,cs)
    if k==K.Z3_OP_ITE: return z3.If(T(cs[0]),T(cs[1]),T(cs[2])),[]
    if k in(K.Z3_OP_BADD,K.Z3_OP_BSUB,K.Z3_OP_BNEG,K.Z3_OP_BMUL,K.Z3_OP_BSHL):
        m={}; c0=lin(e,w,m,1)
        it=[(a,c) for a,c in m.values() if c]
        if len(it)==1 and it[0][0].get_id()==e.get_id(): return opaque(e,cs)
        c0=sgn(c0%(1<<w),w)
        ts=[(T(a),sgn(c%(1<<w),w)) for a,c in it]
        x=z3.Sum([I(c0)]+[I(c)*a if c!=1 else a for a,c in ts]) if ts else I(c0%(1<<w))
        if not ts: return x,[]
        if len(ts)==1 and c0==0 and ts[0][1]==1: return ts[0][0],[]
        lo=c0; hi=c0
        for (a,c) in it:
            c=sgn(c%(1<<w),w); u=top(a)*c
            if u<0: lo+=u
            else: hi+=u
        return wrap(x,w,lo,hi)
    if k==K.Z3_OP_CONCAT:
        x=None
        for c in cs:
            t=T(c); x=t if x is None else x*I(1<<c.size())+t
        return x,[]
    if k==K.Z3_OP_ZERO_EXT: return T(cs[0]),[]
    if k==K.Z3_OP_SIGN_EXT:
        v=cs[0].size(); t=T(cs[0]); return z3.If(t>=I(1<<(v-1)),t+I((1<<w)-(1<<v)),t),[]
    if k==K.Z3_OP_EXTRACT:
        hi,lo=e.params(); x=T(cs[0]); W=cs[0].size(); side=[]
        if lo:
            q=fi('q'); r=fi('r'); side+=[x==I(1<<lo)*q+r]+rng(r,lo)+rng(q,W-lo); x=q
        if hi<W-1:
            q=fi('q'); r=fi('r'); side+=[x==I(1<<w)*q+r]+rng(r,w)+[q>=0]; x=r
        return x,side
    if k==K.Z3_OP_BLSHR and z3.is_bv_value(cs[1]):
        n=cs[1].as_long()
        if n>=w: return I(0),[]
        q=fi('q'); r=fi('r'); return q,[T(cs[0])==I(1<<n)*q+r]+rng(r,n)+[q>=0]
    if k in(K.Z3_OP_BUDIV,K.Z3_OP_BUDIV_I,K.Z3_OP_BUREM,K.Z3_OP_BUREM_I):
        if z3.is_bv_value(cs[1]) and cs[1].as_long()>0:
            d=cs[1].as_long(); q=fi('q'); r=fi('r')
            side=[T(cs[0])==I(d)*q+r,r>=0,r<I(d),q>=0]
        else:
            _o[0]+=1; x,d=T(cs[0]),T(cs[1]); q=fi('q'); r=fi('r')
            side=[q>=0,r>=0,r<=x,z3.Implies(d>0,z3.And(r<d,q<=x))]+rng(q,w)
        return (q if k in(K.Z3_OP_BUDIV,K.Z3_OP_BUDIV_I) else r),side
    if k==K.Z3_OP_BAND and len(cs)==2:
        for a,b in((0,1),(1,0)):
            if z3.is_bv_value(cs[a]):
                c=cs[a].as_long()
                if c&(c+1)==0:
                    n=c.bit_length(); q=fi('q'); r=fi('r')
                    return r,[T(cs[b])==I(1<<n)*q+r,q>=0]+rng(r,n)
        _o[0]+=1; v=fi('o'); return v,rng(v,w)+[v<=T(c) for c in cs]
    if k==K.Z3_OP_BNOT: return I((1<<w)-1)-T(cs[0]),[]
    return opaque(e,cs)
EX={K.Z3_OP_TRUE,K.Z3_OP_FALSE}
_cl={}
def closure(root):
    "(records of the terms below root that have side constraints, exact?)"
    i=root.get_id(); r=_cl.get(i)
    if r is not None: return r[1],r[2]
    st=[root]; order=[]; seen=set()
    while st:
        x=st[-1]; i=x.get_id()
        if i in seen: st.pop(); continue
        ch=[]
        if z3.is_app(x): ch=[c for c in x.children() if c.get_id() not in seen]
        if ch: st+=ch; continue
        st.pop(); seen.add(i); order.append(i)
        if i not in _c:
            n0=_o[0]; t,sd=tr1(x,lambda e:_c[e.get_id()][1]); _c[i]=(x,t,sd,_o[0]==n0 and t is not None)
    rec=[i for i in order if _c[i][2]]; ex=all(_c[i][3] for i in order)
    _cl[root.get_id()]=(root,rec,ex)
    return rec,ex
def build(roots):
    "-> translated roots, side constraints, exact?"
    need={}; exact=True
    for r in roots:
        rec,ex=closure(r); exact=exact and ex
        for i in rec: need[i]=1
    side=[c for i in need for c in _c[i][2]]
    return [_c[r.get_id()][1] for r in roots],side,exact
class R:
    "outcome: st in unsat/sat/unknown; exact: no weakening; value(k): truth of the k-th constraint in the model"
    def __init__(s,st,exact=False,m=None,rs=None): s.st=st; s.exact=exact; s.m=m; s.rs=rs
def solve(cs,timeout=500,watch=()):
    cs=[z3.BoolVal(c) if isinstance(c,bool) else c for c in cs]
    try: rs,side,exact=build(list(cs)+list(watch))
    except z3.Z3Exception: return R('unknown')
    s=z3.SimpleSolver(); s.set('timeout',timeout)
    s.add(*side); s.add(*rs[:len(cs)])
    try: r=str(s.check())
    except z3.Z3Exception: return R('unknown')
    if r!='sat': return R(r,exact)
    m=s.model(); v=[not z3.is_false(m.eval(x,model_completion=True)) for x in rs[len(cs):]]
    return R('sat',exact,v)
def refute(cs,timeout=500): return solve(cs,timeout).st=='unsat'
