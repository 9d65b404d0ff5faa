"""Persistent byte-accurate memory of one region: layered writes over a base."""
import z3
from terms import *
class Base:
    __slots__=('kind','name','f','mat','ptrat','id')
    def __init__(s,name,kind='obj',ptrat=None):
        s.kind=kind; s.id=uid(); s.name=f'{name}#{s.id}'; s.mat={}; s.ptrat=ptrat
        s.f=z3.Function(s.name,z3.BitVecSort(64),z3.BitVecSort(8)) if kind=='arr' else None
class Fill0:
    __slots__=('v',)
    def __init__(s,v=0): s.v=v
class Cells:
    __slots__=('d','below')
    def __init__(s,d,below): s.d=d; s.below=below
class Sto:
    __slots__=('o','n','v','below')
    def __init__(s,o,n,v,below): s.o=o; s.n=n; s.v=v; s.below=below
class Cpy:
    __slots__=('o','n','src','so','below')
    def __init__(s,o,n,src,so,below): s.o=o; s.n=n; s.src=src; s.so=so; s.below=below
class Fil:
    __slots__=('o','n','v','below')
    def __init__(s,o,n,v,below): s.o=o; s.n=n; s.v=v; s.below=below
class Lazy:
    __slots__=('mem','o')
    def __init__(s,m,o): s.mem=m; s.o=o

def _piece(v,n,lo,k):
    "bytes [lo,lo+k) of the n-byte value v"
    if lo==0 and k==n: return v
    if isinstance(v,Lazy): return Lazy(v.mem,add(v.o,lo))
    if isinstance(v,Ptr) or isinstance(v,FPtr):
        if v is NULL or (isinstance(v,Ptr) and v.r is None): return 0
        raise Unsupported('partial pointer access')
    if v is UNDEF: return UNDEF
    if isinstance(v,z3.FPRef): v=z3.fpToIEEEBV(v)
    if isinstance(v,(bool,z3.BoolRef)): v=zext(v,1,8)
    return extract(v,8*lo,8*k,8*n)

def write(m,o,n,v):
    if isinstance(o,int):
        if not isinstance(m,Cells): m=Cells({},m)
        d=dict(m.d)
        for co in [c for c,(cn,_) in d.items() if c<o+n and o<c+cn]:
            cn,cv=d.pop(co)
            if co<o:
                try: d[co]=(o-co,_piece(cv,cn,0,o-co))
                except Unsupported: d[co]=(o-co,UNDEF)
            if co+cn>o+n:
                try: d[o+n]=(co+cn-o-n,_piece(cv,cn,o+n-co,co+cn-o-n))
                except Unsupported: d[o+n]=(co+cn-o-n,UNDEF)
        d[o]=(n,v)
        return Cells(d,m.below)
    if isinstance(v,(Ptr,FPtr)): raise Unsupported('pointer store at symbolic offset')
    if isinstance(v,z3.FPRef): v=z3.fpToIEEEBV(v)
    if isinstance(v,(bool,z3.BoolRef)): v=zext(v,1,8)
    if v is UNDEF: v=fresh('undef',8*n)
    if isinstance(m,Sto) and n+m.n<=64:
        df=sub(o,m.o)
        if isinstance(df,int):
            if df==m.n: return Sto(m.o,m.n+n,concat_parts([(m.v,8*m.n),(v,8*n)]),m.below)
            if df==(1<<64)-n: return Sto(o,m.n+n,concat_parts([(v,8*n),(m.v,8*m.n)]),m.below)
            if df==0 and n>=m.n: return Sto(o,n,v,m.below)
            if df+n<=m.n:
                p=[]
                if df: p.append((extract(m.v,0,8*df,8*m.n),8*df))
                p.append((v,8*n))
                if df+n<m.n: p.append((extract(m.v,8*(df+n),8*(m.n-df-n),8*m.n),8*(m.n-df-n)))
                return Sto(m.o,m.n,concat_parts(p),m.below)
    return Sto(o,n,v,m)

def copy(m,o,n,src,so):
    if isinstance(o,int) and isinstance(n,int) and isinstance(so,int) and n<=4096:
        if n==0: return m
        if not isinstance(m,Cells): m=Cells({},m)
        r=m
        # pieces of the source
        pos=so
        pieces=[]
        if isinstance(src,Cells):
            for co in sorted(src.d):
                cn,cv=src.d[co]
                if co+cn<=so or co>=so+n: continue
                a=max(co,so); b=min(co+cn,so+n)
                if a>pos: pieces.append((pos,a-pos,Lazy(src.below,pos)))
                try: pv=_piece(cv,cn,a-co,b-a)
                except Unsupported: pv=Lazy(src,a)
                pieces.append((a,b-a,pv)); pos=b
            if pos<so+n: pieces.append((pos,so+n-pos,Lazy(src.below,pos)))
        else:
            pieces.append((so,n,Lazy(src,so)))
        r=write(r,o,n,UNDEF)
        d=dict(r.d); del d[o]
        for (a,k,v) in pieces: d[o+a-so]=(k,v)
        return Cells(d,r.below)
    return Cpy(o,n,src,so,m)

def fill(m,o,n,v):
    if isinstance(o,int) and isinstance(n,int) and n<=4096:
        if n==0: return m
        return write(m,o,n,Lazy(Fill0(v),0))
    return Fil(o,n,v,m)

def _inr(o,lo,n):
    "lo <= o < lo+n  (no wrap of the range assumed: bounds are obligations)"
    d=sub(o,lo)
    return ult(d,n)

def read1(m,o,must=None,depth=0):
    "one byte"
    if isinstance(m,Fill0): return m.v
    if isinstance(m,Base):
        if m.kind=='arr': return m.f(bv(o))
        return _matread(m,o,1)
    if isinstance(m,Cells):
        if isinstance(o,int):
            for co,(cn,cv) in m.d.items():
                if co<=o<co+cn:
                    p=_piece(cv,cn,o-co,1)
                    if isinstance(p,Lazy): return read1(p.mem,p.o,must)
                    if isinstance(p,Ptr): raise Unsupported('byte of pointer')
                    if p is UNDEF: return fresh('undef',8)
                    return p
            return read1(m.below,o,must)
        if not m.d: return read1(m.below,o,must)
        lo=min(m.d); hi=max(c+n for c,(n,_) in m.d.items())
        if must and must(Or(uge(o,hi),ult(o,lo))): return read1(m.below,o,must)
        r=read1(m.below,o,must)
        for co,(cn,cv) in m.d.items():
            c=_inr(o,co,cn)
            if c is False: continue
            if isinstance(cv,Lazy): b=read1(cv.mem,add(cv.o,sub(o,co)),must)
            elif isinstance(cv,Ptr) or cv is UNDEF: b=fresh('undef',8)
            else: b=_symbyte(cv,cn,sub(o,co))
            r=If(c,b,r,8)
        return r
    if isinstance(m,Sto):
        d=sub(o,m.o)
        if isinstance(d,int):
            if d<m.n: return extract(m.v,8*d,8,8*m.n)
            return read1(m.below,o,must)
        c=ult(d,m.n)
        if c is False: return read1(m.below,o,must)
        if must and must(Not(c)): return read1(m.below,o,must)
        return If(c,_symbyte(m.v,m.n,d),read1(m.below,o,must),8)
    if isinstance(m,Cpy):
        c=_inr(o,m.o,m.n)
        if c is False: return read1(m.below,o,must)
        if must and c is not True:
            if must(Not(c)): return read1(m.below,o,must)
            if must(c): c=True
        s=read1(m.src,add(m.so,sub(o,m.o)),must)
        if c is True: return s
        return If(c,s,read1(m.below,o,must),8)
    if isinstance(m,Fil):
        c=_inr(o,m.o,m.n)
        if c is False: return read1(m.below,o,must)
        if c is True: return m.v
        if must:
            if must(Not(c)): return read1(m.below,o,must)
            if must(c): return m.v
        return If(c,m.v,read1(m.below,o,must),8)
    raise Unsupported('mem node')

def _symbyte(v,n,d):
    if isinstance(v,z3.FPRef): v=z3.fpToIEEEBV(v)
    if isinstance(v,(bool,z3.BoolRef)): v=zext(v,1,8)
    if n==1: return v
    r=extract(v,8*(n-1),8,8*n)
    for k in range(n-2,-1,-1):
        r=If(eq(d,k),extract(v,8*k,8,8*n),r,8)
    return r

def _matread(b,o,n):
    if not isinstance(o,int): raise Unsupported(f'symbolic offset into object {b.name}')
    if o in b.mat and b.mat[o][0]==n: return b.mat[o][1]
    ov=[c for c,(cn,_) in b.mat.items() if c<o+n and o<c+cn]
    if not ov:
        v=z3.BitVec(f'{b.name}.{o}.{n}',8*n); b.mat[o]=(n,v); return v
    bs=[]
    for k in range(n):
        a=o+k
        for c in ov:
            cn,cv=b.mat[c]
            if c<=a<c+cn:
                bs.append(_piece(cv,cn,a-c,1)); break
        else:
            v=z3.BitVec(f'{b.name}.{a}.1',8); b.mat[a]=(1,v); ov.append(a); bs.append(v)
    return concat_le(bs)

def read(m,o,n,must=None,ptr=False):
    "n-byte value (bit-vector of 8n bits or int; Ptr when ptr)"
    if ptr: return readp(m,o,must)
    if isinstance(m,Lazy): return read(m.mem,add(m.o,o),n,must)
    if isinstance(m,Cells):
        if isinstance(o,int):
            c=m.d.get(o)
            if c and c[0]==n:
                v=c[1]
                if isinstance(v,Lazy): return read(v.mem,v.o,n,must)
                if isinstance(v,z3.FPRef): return z3.fpToIEEEBV(v)
                if isinstance(v,(bool,z3.BoolRef)): return zext(v,1,8)
                if v is UNDEF: return fresh('undef',8*n)
                return v
            ov=False
            for co,(cn,cv) in m.d.items():
                if co<o+n and o<co+cn:
                    ov=True
                    if co<=o and o+n<=co+cn:
                        p=_piece(cv,cn,o-co,n)
                        if isinstance(p,Lazy): return read(p.mem,p.o,n,must)
                        if p is UNDEF: return fresh('undef',8*n)
                        return p
            if not ov: return read(m.below,o,n,must)
        elif not m.d: return read(m.below,o,n,must)
        elif must:
            lo=min(m.d); hi=max(c+k for c,(k,_) in m.d.items())
            if must(Or(uge(o,hi),And(ule(add(o,n),lo),ult(o,lo)))): return read(m.below,o,n,must)
    elif isinstance(m,Base):
        if m.kind=='obj': return _matread(m,o,n)
    elif isinstance(m,Sto):
        d=sub(o,m.o)
        if isinstance(d,int):
            if d+n<=m.n: return extract(m.v,8*d,8*n,8*m.n)
            if m.n<=d<=(1<<64)-n: return read(m.below,o,n,must)
        elif must and must(And(uge(d,m.n),ule(d,(1<<64)-n))): return read(m.below,o,n,must)
    elif isinstance(m,Cpy):
        d=sub(o,m.o)
        inside=And(ult(d,m.n),ule(n,sub(m.n,d)))
        if inside is True or (inside is not False and must and must(inside)):
            return read(m.src,add(m.so,d),n,must)
        outside=And(uge(d,m.n),ule(d,(1<<64)-n))
        if outside is True or (outside is not False and must and must(outside)): return read(m.below,o,n,must)
    elif isinstance(m,Fil):
        d=sub(o,m.o)
        inside=And(ult(d,m.n),ule(n,sub(m.n,d)))
        if inside is True or (inside is not False and must and must(inside)): return concat_le([m.v]*n)
        outside=And(uge(d,m.n),ule(d,(1<<64)-n))
        if outside is True or (outside is not False and must and must(outside)): return read(m.below,o,n,must)
    if n==1: return read1(m,o,must)
    return concat_le([read1(m,add(o,k),must) for k in range(n)])

def readp(m,o,must=None):
    "pointer-typed value"
    if isinstance(m,Lazy): return readp(m.mem,add(m.o,o),must)
    if isinstance(m,Cells):
        if isinstance(o,int):
            c=m.d.get(o)
            if c and c[0]==8:
                v=c[1]
                if isinstance(v,Lazy): return readp(v.mem,v.o,must)
                return v
            for co,(cn,cv) in m.d.items():
                if co<o+8 and o<co+cn:
                    if co<=o and o+8<=co+cn:
                        p=_piece(cv,cn,o-co,8)
                        if isinstance(p,Lazy): return readp(p.mem,p.o,must)
                        return p
                    raise Unsupported('pointer read across cells')
            return readp(m.below,o,must)
        if m.d:
            lo=min(m.d); hi=max(c+n for c,(n,_) in m.d.items())
            if not(must and must(Or(uge(o,hi),ult(o,lo)))): raise Unsupported('pointer read sym over cells')
        return readp(m.below,o,must)
    if isinstance(m,Fill0): return NULL if m.v==0 else UNDEF
    if isinstance(m,Base):
        if isinstance(o,int) and o in m.mat and isinstance(m.mat[o][1],(Ptr,FPtr)): return m.mat[o][1]
        if m.ptrat:
            p=m.ptrat(o)
            if p is not None: return p
        if not isinstance(o,int): raise Unsupported('symbolic pointer read from base '+m.name)
        p=Ptr(f'opq:{m.name}.{o}',0,freshb('nul'))
        m.mat[o]=(8,p)
        return p
    if isinstance(m,Cpy):
        d=sub(o,m.o); inside=And(ult(d,m.n),ule(8,sub(m.n,d)))
        if inside is True or (must and inside is not False and must(inside)): return readp(m.src,add(m.so,d),must)
        out=uge(d,m.n)
        if out is True or (must and out is not False and must(out)): return readp(m.below,o,must)
    if isinstance(m,(Sto,Fil)):
        d=sub(o,m.o)
        out=uge(d,m.n)
        if out is True or (must and out is not False and must(out)): return readp(m.below,o,must)
        if isinstance(m,Fil) and m.v==0: return NULL
    raise Unsupported('pointer read through '+type(m).__name__)

def be(m,o,n,must=None):
    "big-endian n-byte field as a 64-bit value"
    v=read(m,o,n,must)
    r=bswap(v,n)
    return zext(r,8*n,64) if n<8 else r

def describe(m,o,n,must):
    """provenance of the byte range [o,o+n): returns (mem,off) of the deepest
    node the whole range comes from unmodified, following copies"""
    while True:
        if isinstance(m,Cells):
            if not m.d: m=m.below; continue
            if isinstance(o,int) and isinstance(n,int):
                hit=[(c,k,v) for c,(k,v) in m.d.items() if c<o+n and o<c+k]
                if not hit: m=m.below; continue
                if len(hit)==1:
                    c,k,v=hit[0]
                    if c<=o and o+n<=c+k and isinstance(v,Lazy):
                        m,o=v.mem,add(v.o,o-c); continue
                return m,o
            lo=min(m.d); hi=max(c+k for c,(k,_) in m.d.items())
            if must(Or(uge(o,hi),And(ule(add(o,n),lo),ult(o,lo)))): m=m.below; continue
            return m,o
        if isinstance(m,(Sto,Fil,Cpy)):
            d=sub(o,m.o)
            if isinstance(m,Cpy):
                ins=And(ule(d,m.n),ule(n,sub(m.n,d)))
                if ins is True or (ins is not False and must(ins)):
                    m,o=m.src,add(m.so,d); continue
            out=And(uge(d,m.n),ule(d,sub(0,n)))
            out2=eq(n,0)
            if out is True or (must(Or(out,out2))): m=m.below; continue
            return m,o
        return m,o
