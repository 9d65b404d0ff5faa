"""C07: buffered sequential file I/O.

Abstract state used by callers:
 bulk_reader r: position pos (field offset_ with avail_=0), end last_, the inode, and a
   snapshot of the file contents the reader is committed to.
 bulk_writer w: start (offset_) and pos (offset_+used_); L, the logical byte image written so
   far; the slot handed out last, whose bytes the caller may still be filling in.
The proofs below relate the real buffers to this state."""
from terms import *
from spec import *
from stdlib import h
import mem as MM, z3
from s_file import *
BRc=r'nudb::detail::bulk_reader<nudb::posix_file>'; BWc=r'nudb::detail::bulk_writer<nudb::posix_file>'
def bk(p):
    if not isinstance(p.o,int): raise Unsupported('bulk object at symbolic address')
    return (p.r,p.o)
def newslot(S,tag,p,n,base):
    "fresh buffer region; the previous one of the same object is dead"
    key=('bulk',tag)+bk(p); k=0
    from stdlib import referenced
    while True:
        rid=key+('#%d'%k,)
        if rid not in S.mem or (rid in S.dead and not referenced(S,rid)): break
        k+=1
    S.new(rid,n,base=base,kind='arr'); S.dead=S.dead-{rid}
    return Ptr(rid,0)
def brpos(X,S,p): return sub(fget(X,S,p,'br.offset_'),fget(X,S,p,'br.avail_'))
def brlast(X,S,p): return fget(X,S,p,'br.last_')
def brk(S,p):
    k=S.g.get(('br',)+bk(p))
    if k is None: raise Unsupported('unknown bulk_reader')
    return k
def brsnap(S,p): return S.g[('brsnap',)+bk(p)]
# ------------------------------------------------------------------ reader
class BR(Spec):
    group='C07'
    def ghostfree(s): return ('brsnap','br','brinv')
    def mk(s,X,S):
        f=S.new('arg:file',4); mkfile(S,f,'ino','read')
        p=S.new('arg:br',OFF['br'][1]); b=S.new('arg:buf',None,kind='arr')
        s.bs,s.used,s.av,s.off,s.last=fresh('bufsize'),fresh('used'),fresh('avail'),fresh('offset'),fresh('last')
        S.rsize['arg:buf']=s.bs
        S.mem[p.r]=MM.write(S.mem[p.r],fo('br.f_'),8,Ptr('arg:file',0))
        o=fo('br.buf_'); S.mem[p.r]=MM.write(S.mem[p.r],o+fo('buf.size_'),8,s.bs); S.mem[p.r]=MM.write(S.mem[p.r],o+fo('buf.buf_'),8,Ptr('arg:buf',0,eq(s.bs,0)))
        fset(X,S,p,'br.last_',s.last); fset(X,S,p,'br.offset_',s.off); fset(X,S,p,'br.avail_',s.av); fset(X,S,p,'br.used_',s.used)
        S.g[('br','arg:br',0)]='ino'; S.g[('brsnap','arg:br',0)]=imem(S,'ino')
        return p
    def inv(s,X,S,p,pre=True):
        "representation invariant (real object)"
        bo=fo('br.buf_'); bs=X.rd(S,p,8,bo+fo('buf.size_')); bp=X.rdp(S,p,bo+fo('buf.buf_'))
        off,av,us,last=[fget(X,S,p,'br.'+n) for n in('offset_','avail_','used_','last_')]
        z=S.rsize.get(bp.r) if bp.r is not None else 0
        snap=brsnap(S,p); m=S.mem[bp.r] if bp.r in S.mem else None; pos=sub(off,av); k=brk(S,p)
        r=[('buffer size matches its allocation',And(Or(eq(bs,0),And(Not(bp.nul),eq(z,bs))),eq(bp.o,0),ule(bs,MAXF))),
           ('bytes in buffer',And(ule(us,bs),ule(av,sub(bs,us)),ule(av,off))),('position within the range',And(ule(off,last),ule(last,isize(S,k)),ule(last,MAXF)))]
        if m is not None:
            r.append(('buffer holds the file bytes at the position',Forall('byte',lambda x:Implies(ult(sub(x,pos),av),eq(MM.read1(m,add(us,sub(x,pos))),MM.read1(snap,x),8)))))
        else: r.append(('buffer empty',eq(av,0)))
        return r
class BRCtor(BR):
    name='bulk_reader'; fn=r'^'+BRc+r'::bulk_reader\('; pats=(fn,)
    def setup(s,X,S):
        f=S.new('arg:file',4); mkfile(S,f,'ino','read'); S.new('arg:br',OFF['br'][1])
        return [Ptr('arg:br',0),f,fresh('offset'),fresh('last'),fresh('bufsize')]
    def pre(s,X,S,a):
        p,f,o,l,n=a
        return [('file is open',fopen(X,S,f)),('range inside the file',And(ule(o,l),ule(l,isize(S,finode(S,f))),ule(l,MAXF))),('buffer size',ule(n,1<<40))]
    def mods(s,X,S,a,case): return [('r',a[0].r,'obj')] if X.spec is s else [('c',a[0].r,a[0].o,OFF['br'][1])]
    def effect(s,X,S0,S,a,ret,case):
        p,f,o,l,n=a; k=finode(S,f)
        fset(X,S,p,'br.offset_',o); fset(X,S,p,'br.avail_',0); fset(X,S,p,'br.last_',l); X.wr(S,p,fo('br.f_'),8,f)
        S.g[('br',)+bk(p)]=k; S.g[('brsnap',)+bk(p)]=imem(S,k)
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        p,f,o,l,n=a
        S.g[('br',)+bk(p)]='ino'; S.g[('brsnap',)+bk(p)]=imem(S,'ino')
        return s.inv(X,S,p)+[('starts at the offset',eq(brpos(X,S,p),o)),('ends at last',eq(brlast(X,S,p),l)),('reads that file',eqv(X.rdp(S,p,fo('br.f_')),f))]
class BRPos(BR):
    def __init__(s,nm): s.nm=nm; s.name='bulk_reader.'+nm; s.fn=r'^'+BRc+'::'+nm+r'\(\) const$'; s.pats=(s.fn,); super().__init__()
    def setup(s,X,S): return [s.mk(X,S)]
    def pre(s,X,S,a): return s.inv(X,S,a[0]) if X.spec is s else []
    def val(s,X,S,a): return brpos(X,S,a[0]) if s.nm=='offset' else uge(brpos(X,S,a[0]),brlast(X,S,a[0]))
    def result(s,X,S,a,case,i): return s.val(X,S,a)
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        v=s.val(X,S0,a); return [('exact',eq(ret,v) if s.nm=='offset' else Iff(ret,v))]
def unchanged(X,S,p):
    "the file still has the bytes the reader is committed to (from its position to the end)"
    k=brk(S,p); sn=brsnap(S,p); m=imem(S,k); pos=brpos(X,S,p); last=brlast(X,S,p)
    if m is sn: return ule(last,isize(S,k))
    return [Forall('byte',lambda x:Implies(And(uge(x,pos),ult(x,last)),eq(MM.read1(m,x),MM.read1(sn,x),8))),ule(last,isize(S,k))]
class BRPrep(BR):
    name='bulk_reader.prepare'; fn=r'^'+BRc+r'::prepare\('; pats=(fn,); cases=('ok','short','fail'); cost=4
    def setup(s,X,S):
        return [s.mk(X,S),fresh('needed'),mkec(X,S)]
    def pre(s,X,S,a):
        p,n,ec=a; k=brk(S,p)
        f=X.rdp(S,p,fo('br.f_'))
        o=[('no error on entry',ecok(X,S,ec)),('request size',ule(n,MAXF)),('file is open',fopen(X,S,f))]
        if X.spec is s: return o+s.inv(X,S,p)
        return o+[('file bytes not yet scanned are unchanged',unchanged(X,S,p))]
    def short(s,X,S,a): return Not(inrange2(brpos(X,S,a[0]),a[1],brlast(X,S,a[0])))
    def mods(s,X,S,a,case):
        p,n,ec=a; m=[] if case=='ok' else ecmods(ec)
        if X.spec is s: m+=[('r','arg:br','obj'),('r','arg:buf'),('free','arg:buf')]
        return m
    def result(s,X,S,a,case,i): return [NULL,0]
    def effect(s,X,S0,S,a,ret,case):
        p,n,ec=a; k=brk(S,p); pos=brpos(X,S0,p); ev(X,S,'bulkread',k,pos,n,case)
        if case!='ok': S.g[('brbad',)+bk(p)]=True; return
        q=S.g.get(('brslot',)+bk(p))
        if q is not None: S.dead=S.dead|{q}
        q=newslot(S,'r',p,n,MM.Cpy(0,n,brsnap(S,p),pos,MM.Base('brslot','arr')))
        S.g[('brslot',)+bk(p)]=q.r
        ret[0]=q; ret[1]=n
        fset(X,S,p,'br.offset_',add(pos,n)); fset(X,S,p,'br.avail_',0)
    def guard(s,X,S0,S,a,ret,case):
        ec=a[2]; sh=s.short(X,S0,a)
        if case=='ok': return And(Not(sh),ecok(X,S,ec))
        if case=='short': return And(sh,ecis(X,S,ec,SHORT()))
        return And(Not(sh),ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        p,n,ec=a
        if case!='ok': return [('empty stream',eq(ret[1],0)),('end of range unchanged',eq(brlast(X,S,p),brlast(X,S0,p)))]
        q=ret[0]; m=S.mem[q.r] if q.r in S.mem else None; pos=brpos(X,S0,p); sn=brsnap(S,p); z=S.rsize.get(q.r)
        o=[('stream holds exactly the requested size',eq(ret[1],n)),('position advances by the size',eq(brpos(X,S,p),add(pos,n))),('end of range unchanged',eq(brlast(X,S,p),brlast(X,S0,p)))]
        o+=s.inv(X,S,p)
        if m is not None and z is not None:
            o+=[('stream is inside the live buffer',And(q.r not in S.dead,Or(eq(n,0),And(Not(q.nul),ule(q.o,z),ule(n,sub(z,q.o)))))),
                ('stream delivers exactly the next bytes of the file',Forall('byte',lambda x:Implies(ult(sub(x,pos),n),eq(MM.read1(m,add(q.o,sub(x,pos))),MM.read1(sn,x),8))))]
        else: o.append(('stream empty',eq(n,0)))
        return o
def inrange2(off,n,size): return And(ule(off,size),ule(n,sub(size,off)))
class BDtor(Spec):
    group='C07'
    def __init__(s,cls,nm,tag): s.cls=cls; s.tag=tag; s.name='~'+nm; s.fn=r'^'+cls+r'::~'+nm+r'\('; s.pats=(s.fn,); super().__init__()
    def setup(s,X,S):
        p=S.new('arg:b',OFF[s.tag][1]); b=S.new('arg:buf',None,kind='arr'); z=fresh('bs'); S.rsize['arg:buf']=z; o=fo(s.tag+'.buf_')
        S.mem[p.r]=MM.write(S.mem[p.r],o+fo('buf.buf_'),8,Ptr('arg:buf',0,eq(z,0))); S.mem[p.r]=MM.write(S.mem[p.r],o+fo('buf.size_'),8,z)
        return [p]
    def mods(s,X,S,a,case): return [('r',a[0].r,'obj'),('free','arg:buf')] if X.spec is s else []
    def effect(s,X,S0,S,a,ret,case):
        p=a[0]
        for t in('brslot','bwslot'):
            q=S.g.pop((t,)+bk(p),None)
            if q is not None: S.dead=S.dead|{q}
        for t in('br','brsnap','bw','bwL','brbad'): S.g.pop((t,)+bk(p),None)
# ------------------------------------------------------------------ writer
def bwstart(X,S,p): return fget(X,S,p,'bw.offset_')
def bwused(X,S,p): return fget(X,S,p,'bw.used_')
def bwpos(X,S,p): return add(bwstart(X,S,p),bwused(X,S,p))
def bwk(S,p):
    k=S.g.get(('bw',)+bk(p))
    if k is None: raise Unsupported('unknown bulk_writer')
    return k
def bwL(S,p): return S.g[('bwL',)+bk(p)]
def bwfile(X,S,p): return X.rdp(S,p,fo('bw.f_'))
def fold(X,S,p):
    "bytes the caller stored in the slot become part of the logical image"
    q=S.g.get(('bwslot',)+bk(p))
    if q is not None:
        n=S.rsize[q]; L=bwL(S,p); pos=bwpos(X,S,p)
        S.g[('bwL',)+bk(p)]=MM.copy(L,sub(pos,n),n,S.mem[q],0)
        S.g[('bwslot',)+bk(p)]=None; S.dead=S.dead|{q}
class BW(Spec):
    group='C07'; mode='write'
    def ghostfree(s): return ('bw','bwL','bwslot')
    def mk(s,X,S):
        f=S.new('arg:file',4); mkfile(S,f,'ino',s.mode)
        p=S.new('arg:bw',OFF['bw'][1]); S.new('arg:buf',None,kind='arr')
        s.bs,s.used,s.off=fresh('bufsize'),fresh('used'),fresh('offset'); S.rsize['arg:buf']=s.bs
        S.mem[p.r]=MM.write(S.mem[p.r],fo('bw.f_'),8,Ptr('arg:file',0)); o=fo('bw.buf_')
        S.mem[p.r]=MM.write(S.mem[p.r],o+fo('buf.size_'),8,s.bs); S.mem[p.r]=MM.write(S.mem[p.r],o+fo('buf.buf_'),8,Ptr('arg:buf',0,eq(s.bs,0)))
        fset(X,S,p,'bw.offset_',s.off); fset(X,S,p,'bw.used_',s.used)
        return p
    def inv(s,X,S,p):
        bo=fo('bw.buf_'); bs=X.rd(S,p,8,bo+fo('buf.size_')); bp=X.rdp(S,p,bo+fo('buf.buf_')); z=S.rsize.get(bp.r) if bp.r is not None else 0
        return [('buffer size matches its allocation',And(Or(eq(bs,0),And(Not(bp.nul),eq(z,bs),bp.r not in S.dead)),eq(bp.o,0),ule(bs,MAXF>>1))),('bytes in buffer',ule(bwused(X,S,p),bs)),('offset range',And(ule(bwstart(X,S,p),bwpos(X,S,p)),ule(bwpos(X,S,p),MAXF-(1<<50))))]
    def filepre(s,X,S,a,p):
        f=bwfile(X,S,p); k=finode(S,f); r=[('file is open',fopen(X,S,f)),('file opened for writing',fmode(S,f) in('write','append'))]
        if fmode(S,f)=='append': r.append(('append mode: unflushed bytes belong at the end of the file',Or(eq(bwused(X,S,p),0),eq(bwstart(X,S,p),isize(S,k)))))
        return r
    def view(s,X,S,p,fm):
        "virtual contents: the file up to offset_, the buffer from there"
        bp=X.rdp(S,p,fo('bw.buf_')+fo('buf.buf_')); m=S.mem.get(bp.r); o=bwstart(X,S,p)
        return lambda k: If(uge(k,o),MM.read1(m,sub(k,o)),MM.read1(fm,k),8) if m is not None else MM.read1(fm,k)
class BWCtor(BW):
    name='bulk_writer'; fn=r'^'+BWc+r'::bulk_writer\('; pats=(fn,)
    def setup(s,X,S):
        f=S.new('arg:file',4); mkfile(S,f,'ino','write'); S.new('arg:bw',OFF['bw'][1]); return [Ptr('arg:bw',0),f,fresh('offset'),fresh('bufsize')]
    def pre(s,X,S,a): return [('offset',ule(a[2],MAXF>>1)),('buffer size',ule(a[3],1<<40))]
    def mods(s,X,S,a,case): return [('r',a[0].r,'obj')] if X.spec is s else [('c',a[0].r,a[0].o,OFF['bw'][1])]
    def effect(s,X,S0,S,a,ret,case):
        p,f,o,n=a; k=finode(S,f); fset(X,S,p,'bw.offset_',o); fset(X,S,p,'bw.used_',0); X.wr(S,p,fo('bw.f_'),8,f)
        S.g[('bw',)+bk(p)]=k; S.g[('bwL',)+bk(p)]=imem(S,k); S.g[('bwslot',)+bk(p)]=None
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        p,f,o,n=a
        return s.inv(X,S,p)+[('starts empty at the offset',And(eq(bwused(X,S,p),0),eq(bwstart(X,S,p),o))),('writes that file',eqv(bwfile(X,S,p),f))]
class BWPrep(BW):
    nocontract=('bulk_writer.flush[write]',)
    fn=r'^'+BWc+r'::prepare\('; pats=(fn,); cases=('ok','fail'); cost=4
    def __init__(s,mode): s.mode=mode; s.name=f'bulk_writer.prepare[{mode}]'; super().__init__()
    def setup(s,X,S): return [s.mk(X,S),fresh('needed'),mkec(X,S)]
    def pre(s,X,S,a):
        p,n,ec=a; o=[('no error on entry',ecok(X,S,ec)),('request size',ule(n,1<<48)),('offset range',ule(bwpos(X,S,p),MAXF>>1))]+s.filepre(X,S,a,p)
        return o+(s.inv(X,S,p) if X.spec is s else [])
    def mods(s,X,S,a,case):
        p,n,ec=a
        m=[] if case=='ok' else ecmods(ec)
        return m+[('r','arg:bw','obj'),('r','arg:buf'),('free','arg:buf'),('g',('imem','ino')),('g',('isize','ino')),('g',('idirty','ino'))]
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of bulk_writer.prepare: {lab}')
        p,n,ec=a; k=bwk(S,p); fold(X,S,p); st=bwstart(X,S,p); us=bwused(X,S,p); pos=add(st,us); L=bwL(S,p)
        T=S.copy()
        b=freshb('flushed'); nf=If(b,us,0)
        do_write(X,S,k,st,nf,L,st)
        fset(X,S,p,'bw.offset_',add(st,nf)); fset(X,S,p,'bw.used_',add(sub(us,nf),n))
        q=newslot(S,'w',p,n,MM.Base('bwslot','arr')); S.g[('bwslot',)+bk(p)]=q.r
        ev(X,S,'bwprep',k,pos,n,p)
        do_partial(X,T,k,st,us,L,st); ecset(X,T,ec,syserr(X,T,ec),SYS)
        fset(X,T,p,'bw.offset_',pos); fset(X,T,p,'bw.used_',0)
        return Alt([(T,[NULL,0]),(S,[q,0])])
    def guard(s,X,S0,S,a,ret,case):
        ec=a[2]
        return ecok(X,S,ec) if case=='ok' else And(ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS),ne(bwused(X,S0,a[0]),0))
    def post(s,X,S0,S,a,ret,case):
        p,n,ec=a; o0=bwstart(X,S0,p); u0=bwused(X,S0,p); pos=add(o0,u0); m0,m1=imem(S0,'ino'),imem(S,'ino'); z0,z1=isize(S0,'ino'),isize(S,'ino')
        if case=='fail':
            return [('nothing outside the buffered range',Forall('byte',lambda x:Implies(Not(ult(sub(x,o0),u0)),eq(MM.read1(m1,x),MM.read1(m0,x),8)))),
                    ('nothing left in the buffer',And(eq(bwused(X,S,p),0),eq(bwstart(X,S,p),pos))),('size grows at most to the end of the range',And(uge(z1,z0),Or(eq(z1,z0),ule(z1,pos))))]+s.inv(X,S,p)
        q=ret[0]; z=S.rsize.get(q.r) if q.r is not None else 0; o1=bwstart(X,S,p); u1=bwused(X,S,p); bp=X.rdp(S,p,fo('bw.buf_')+fo('buf.buf_'))
        v0=s.view(X,S0,p,m0); v1=s.view(X,S,p,m1)
        return [('position advances by the size',eq(add(o1,u1),add(pos,n))),('all or nothing flushed',Or(And(eq(o1,o0),z1 is z0 or eq(z1,z0)),And(eq(o1,pos),eq(z1,If(Or(eq(u0,0),ule(pos,z0)),z0,pos))))),
                ('slot is the last part of the live buffer',And(bp.r==q.r,q.r not in S.dead,Or(eq(n,0),And(eq(q.o,sub(u1,n)),ule(n,u1),Not(q.nul),ule(q.o,z),ule(n,sub(z,q.o)))))),
                ('stream starts empty',eq(ret[1],0)),
                ('pieces already written are kept in place',Forall('byte',lambda x:Implies(ult(sub(x,o0),u0),eq(v1(x),v0(x),8)))),
                ('file outside unchanged',Forall('byte',lambda x:Implies(Not(ult(sub(x,o0),u0)),eq(MM.read1(m1,x),MM.read1(m0,x),8)))),
                ('file changes only by a flush',Forall('byte',lambda x:Implies(eq(o1,o0),eq(MM.read1(m1,x),MM.read1(m0,x),8))))]+s.inv(X,S,p)
class BWFlush(BW):
    fn=r'^'+BWc+r'::flush\('; pats=(fn,); cases=('ok','fail'); cost=3
    def __init__(s,mode): s.mode=mode; s.name=f'bulk_writer.flush[{mode}]'; super().__init__()
    def setup(s,X,S): return [s.mk(X,S),mkec(X,S)]
    def pre(s,X,S,a):
        o=[('no error on entry',ecok(X,S,a[1]))]+s.filepre(X,S,a,a[0])
        return o+(s.inv(X,S,a[0]) if X.spec is s else [])
    def mods(s,X,S,a,case): return ([] if case=='ok' else ecmods(a[1]))+[('r','arg:bw','obj'),('g',('imem','ino')),('g',('isize','ino')),('g',('idirty','ino'))]
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of bulk_writer.flush: {lab}')
        p,ec=a; k=bwk(S,p); fold(X,S,p); st=bwstart(X,S,p); us=bwused(X,S,p); L=bwL(S,p); T=S.copy()
        for U in(S,T): fset(X,U,p,'bw.offset_',add(st,us)); fset(X,U,p,'bw.used_',0)
        do_write(X,S,k,st,us,L,st)
        do_partial(X,T,k,st,us,L,st); ecset(X,T,ec,syserr(X,T,ec),SYS)
        return Alt([(T,None),(S,None)])
    def guard(s,X,S0,S,a,ret,case):
        ec=a[1]; return ecok(X,S,ec) if case=='ok' else And(ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def post(s,X,S0,S,a,ret,case):
        p,ec=a; o0=bwstart(X,S0,p); u0=bwused(X,S0,p); pos=add(o0,u0); m0,m1=imem(S0,'ino'),imem(S,'ino'); z0,z1=isize(S0,'ino'),isize(S,'ino'); v0=s.view(X,S0,p,m0)
        r=[('nothing left in the buffer',And(eq(bwused(X,S,p),0),eq(bwstart(X,S,p),pos)))]+s.inv(X,S,p)
        r.append(('file outside unchanged',Forall('byte',lambda x:Implies(Not(ult(sub(x,o0),u0)),eq(MM.read1(m1,x),MM.read1(m0,x),8)))))
        if case=='ok': r+=[('file receives exactly the buffered bytes in place',Forall('byte',lambda x:Implies(ult(sub(x,o0),u0),eq(MM.read1(m1,x),v0(x),8)))),('size',eq(z1,If(Or(eq(u0,0),ule(pos,z0)),z0,pos)))]
        else: r.append(('size grows at most to the end of the range',And(uge(z1,z0),Or(eq(z1,z0),ule(z1,pos)))))
        return r
CONTRACTS=[BRCtor(),BRPos('offset'),BRPos('eof'),BRPrep(),BDtor(BRc,'bulk_reader','br'),BWCtor(),BWPrep('write'),BWFlush('write'),BDtor(BWc,'bulk_writer','bw')]
PROOFS=[BRCtor(),BRPos('offset'),BRPos('eof'),BRPrep(),BDtor(BRc,'bulk_reader','br'),BWCtor(),BWPrep('write'),BWPrep('append'),BWFlush('write'),BWFlush('append'),BDtor(BWc,'bulk_writer','bw')]
