"""Bit-precise values: python ints (concrete) or z3 bit-vectors; i1 is python
bool or z3 Bool; pointers are (region, offset); floating point is z3 FP."""
import z3, itertools
_n=itertools.count()
FRESH_LOG=None
def fresh(name,w=64):
    return z3.BitVec(f'{name}!{next(_n)}',w)
def freshb(name): return z3.Bool(f'{name}!{next(_n)}')
def uid(): return next(_n)
class Unsupported(Exception): pass
class Ptr:
    __slots__=('r','o','nul')
    def __init__(s,r,o=0,nul=False): s.r=r; s.o=o; s.nul=nul
    def __repr__(s): return f'&{s.r}+{s.o}'
    def same(s,t): return s.r==t.r and eqv(s.o,t.o) and eqv(s.nul,t.nul)
NULL=Ptr(None,0,True)
class FPtr:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __repr__(s): return f'fn:{s.name}'
class UndefV:
    pass
UNDEF=UndefV()
def eqv(a,b):
    if a is b: return True
    if isinstance(a,(int,bool)) and isinstance(b,(int,bool)): return a==b
    if isinstance(a,z3.ExprRef) and isinstance(b,z3.ExprRef): return a.eq(b)
    if isinstance(a,Ptr) and isinstance(b,Ptr): return a.same(b)
    if isinstance(a,FPtr) and isinstance(b,FPtr): return a.name==b.name
    if isinstance(a,list) and isinstance(b,list): return len(a)==len(b) and all(eqv(x,y) for x,y in zip(a,b))
    return False
def bv(v,w=64):
    if isinstance(v,bool): return z3.BitVecVal(int(v),w)
    return z3.BitVecVal(v,w) if isinstance(v,int) else v
def norm(e):
    e=z3.simplify(e,som=True) 
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def simp(e):
    if not isinstance(e,z3.ExprRef): return e
    e=z3.simplify(e)
    if z3.is_bv_value(e): return e.as_long()
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return e
def M(w): return (1<<w)-1
def add(a,b,w=64):
    if isinstance(a,int) and isinstance(b,int): return (a+b)&M(w)
    if isinstance(a,int) and a==0: return b
    if isinstance(b,int) and b==0: return a
    return norm(bv(a,w)+bv(b,w))
def sub(a,b,w=64):
    if isinstance(a,int) and isinstance(b,int): return (a-b)&M(w)
    if isinstance(b,int) and b==0: return a
    if eqv(a,b): return 0
    return norm(bv(a,w)-bv(b,w))
def mul(a,b,w=64):
    if isinstance(a,int) and isinstance(b,int): return (a*b)&M(w)
    if isinstance(a,int) and a==1: return b
    if isinstance(b,int) and b==1: return a
    if isinstance(a,int) and a==0 or isinstance(b,int) and b==0: return 0
    return norm(bv(a,w)*bv(b,w))
def sgn(a,w): return a-(1<<w) if a>>(w-1) else a
def binop(op,a,b,w):
    if w==1: return boolop(op,a,b)
    if op=='add': return add(a,b,w)
    if op=='sub': return sub(a,b,w)
    if op=='mul': return mul(a,b,w)
    ci=isinstance(a,int) and isinstance(b,int)
    if ci:
        if op=='udiv': return a//b if b else M(w)
        if op=='urem': return a%b if b else a
        if op=='sdiv':
            x,y=sgn(a,w),sgn(b,w)
            return int(abs(x)//abs(y)*(1 if (x<0)==(y<0) else -1))&M(w)
        if op=='srem':
            x,y=sgn(a,w),sgn(b,w)
            r=abs(x)%abs(y); return (-r if x<0 else r)&M(w)
        if op=='shl': return (a<<b)&M(w) if b<w else 0
        if op=='lshr': return a>>b if b<w else 0
        if op=='ashr': return (sgn(a,w)>>min(b,w-1))&M(w)
        if op=='and': return a&b
        if op=='or': return a|b
        if op=='xor': return a^b
    if op=='and' and (isinstance(a,int) and a==0 or isinstance(b,int) and b==0): return 0
    x,y=bv(a,w),bv(b,w)
    if op=='udiv': e=z3.UDiv(x,y)
    elif op=='urem': e=z3.URem(x,y)
    elif op=='sdiv': e=x/y
    elif op=='srem': e=z3.SRem(x,y)
    elif op=='shl': e=x<<y
    elif op=='lshr': e=z3.LShR(x,y)
    elif op=='ashr': e=x>>y
    elif op=='and': e=x&y
    elif op=='or': e=x|y
    elif op=='xor': e=x^y
    else: raise Unsupported('binop '+op)
    return simp(e)
def tb(a): return z3.BoolVal(a) if isinstance(a,bool) else (z3.BoolVal(bool(a)) if isinstance(a,int) else a)
def boolop(op,a,b):
    if op in('and','mul'): return And(a,b)
    if op=='or': return Or(a,b)
    if op in('xor','add','sub'): 
        if isinstance(b,(bool,int)): return Not(a) if b else a
        if isinstance(a,(bool,int)): return Not(b) if a else b
        return simp(z3.Xor(tb(a),tb(b)))
    raise Unsupported('boolop '+op)
def And(*xs):
    l=[]
    for x in xs:
        if isinstance(x,(bool,int)):
            if not x: return False
        else: l.append(x)
    if not l: return True
    if len(l)==1: return l[0]
    return z3.And(*l)
def Or(*xs):
    l=[]
    for x in xs:
        if isinstance(x,(bool,int)):
            if x: return True
        else: l.append(x)
    if not l: return False
    if len(l)==1: return l[0]
    return z3.Or(*l)
def Not(a):
    if isinstance(a,(bool,int)): return not a
    return z3.Not(a)
def Implies(a,b): return Or(Not(a),b)
def Iff(a,b):
    if isinstance(a,(bool,int)): return b if a else Not(b)
    if isinstance(b,(bool,int)): return a if b else Not(a)
    return a==b
def If(c,a,b,w=64):
    if isinstance(c,(bool,int)): return a if c else b
    if eqv(a,b): return a
    if isinstance(a,z3.BoolRef) or isinstance(b,z3.BoolRef) or isinstance(a,bool) or isinstance(b,bool):
        return simp(z3.If(c,tb(a),tb(b)))
    return z3.If(c,bv(a,w),bv(b,w))
def cmp(p,a,b,w=64):
    if w==1:
        if p=='eq': return Iff(a,b)
        if p=='ne': return Not(Iff(a,b))
        a=If(a,1,0,8); b=If(b,1,0,8); w=8
        if p[0]=='s': raise Unsupported('signed i1 cmp')
    if isinstance(a,int) and isinstance(b,int):
        if p[0]=='s': a,b=sgn(a,w),sgn(b,w)
        return {'eq':a==b,'ne':a!=b,'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[p if p in('eq','ne') else p[1:]]
    if eqv(a,b): return p in('eq','uge','ule','sge','sle')
    x,y=bv(a,w),bv(b,w)
    e={'eq':lambda:x==y,'ne':lambda:x!=y,'ugt':lambda:z3.UGT(x,y),'uge':lambda:z3.UGE(x,y),'ult':lambda:z3.ULT(x,y),'ule':lambda:z3.ULE(x,y),
       'sgt':lambda:x>y,'sge':lambda:x>=y,'slt':lambda:x<y,'sle':lambda:x<=y}[p]()
    r=simp(e)
    # bounds stay as written (the simplifier turns them into bit extractions, which hides them from the integer back end)
    if p in('eq','ne') or isinstance(r,bool): return r
    return e
def eq(a,b,w=64): return cmp('eq',a,b,w)
def ne(a,b,w=64): return cmp('ne',a,b,w)
def ult(a,b,w=64): return cmp('ult',a,b,w)
def ule(a,b,w=64): return cmp('ule',a,b,w)
def ugt(a,b,w=64): return cmp('ugt',a,b,w)
def uge(a,b,w=64): return cmp('uge',a,b,w)
def zext(a,f,t):
    if f==1: return If(a,1,0,t) if not isinstance(a,(bool,int)) else int(a)
    if isinstance(a,int): return a
    return simp(z3.ZeroExt(t-f,a)) if t>f else a
def sext(a,f,t):
    if f==1: return If(a,M(t),0,t) if not isinstance(a,(bool,int)) else (M(t) if a else 0)
    if isinstance(a,int): return sgn(a,f)&M(t)
    return simp(z3.SignExt(t-f,a))
def trunc(a,f,t):
    if t==1:
        if isinstance(a,int): return bool(a&1)
        return simp(z3.Extract(0,0,a)==1)
    if isinstance(a,int): return a&M(t)
    return simp(z3.Extract(t-1,0,a)) if t<f else a
def extract(a,lo,n,w):
    "n-bit field of a w-bit value starting at bit lo"
    if isinstance(a,int): return (a>>lo)&M(n)
    if lo==0 and n==w: return a
    return simp(z3.Extract(lo+n-1,lo,a))
def concat_le(bs):
    "list of 8-bit values, least significant first -> value"
    if all(isinstance(b,int) for b in bs):
        return sum(b<<(8*i) for i,b in enumerate(bs))
    if len(bs)==1: return bs[0]
    return simp(z3.Concat(*[bv(b,8) for b in reversed(bs)]))
def concat_parts(parts):
    "list of (value,bits) least significant first"
    if len(parts)==1: return parts[0][0]
    if all(isinstance(v,int) for v,_ in parts):
        r=0;s=0
        for v,n in parts: r|=v<<s; s+=n
        return r
    return simp(z3.Concat(*[bv(v,n) for v,n in reversed(parts)]))
def bswap(v,n):
    "reverse the n bytes of v"
    return concat_le([extract(v,8*(n-1-i),8,8*n) for i in range(n)])
class Forall:
    """bounded-free universal fact: fn(terms...) for all values of the given
    tags; instantiated explicitly (assumed) or on skolems (proved)."""
    __slots__=('tags','fn','name','ws')
    def __init__(s,tags,fn,name='',ws=None):
        s.tags=tags if isinstance(tags,(list,tuple)) else [tags]; s.fn=fn; s.name=name
        s.ws=ws or [64]*len(s.tags)
_AC={z3.Z3_OP_BADD,z3.Z3_OP_BMUL,z3.Z3_OP_BXOR,z3.Z3_OP_BOR,z3.Z3_OP_BAND,z3.Z3_OP_AND,z3.Z3_OP_OR}
def canon(e,memo=None,tab=None):
    "identity of a term modulo associativity/commutativity (sound: only AC rewriting)"
    memo={} if memo is None else memo; tab=CT
    st=[e]
    while st:
        x=st[-1]; i=x.get_id()
        if i in memo: st.pop(); continue
        k=x.decl().kind(); cs=x.children()
        todo=[c for c in cs if c.get_id() not in memo]
        if todo: st+=todo; continue
        if k in _AC:
            l=[]
            for c in cs:
                m=memo[c.get_id()]
                if tab[m][0]==k: l+=list(tab[m][1])
                else: l.append(m)
            key=(k,tuple(sorted(l)),str(x.sort()))
        elif not cs: key=(k,x.sexpr())
        else: key=(k,x.decl().name(),tuple(memo[c.get_id()] for c in cs),str(x.decl().params()) if x.decl().arity()>=0 and k!=z3.Z3_OP_UNINTERPRETED else '')
        v=CI.get(key)
        if v is None: v=len(CT); CI[key]=v; CT.append(key)
        memo[i]=v; st.pop()
    return memo[e.get_id()]
CT=[]; CI={}
def same(a,b):
    if eqv(a,b): return True
    if isinstance(a,int) or isinstance(b,int): return False
    return canon(a)==canon(b)
