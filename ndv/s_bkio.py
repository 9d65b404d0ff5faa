"""C05 bucket storage (full buckets in the key file, compact buckets in spill records and the
log), C06 overflow of a full bucket to the data file."""
from terms import *
from spec import *
import mem as MM, z3
from execu import PathEnd
from s_file import *
from s_bulk import *
from s_fmt import fits,iscap,capis
from s_bucket import *
ERRB=lambda:E['invalid_bucket_size']
def hdrcnt(m,o): return MM.be(m,o,2)
def hdrspl(m,o): return MM.be(m,add(o,2),6)
class IO(Bk):
    group='C05'
    def getrange(s,X,S,p): return add(mul(capf(bs_(X,S,p)),18),8)
    def ondisk(s,X,S,p):
        "assumed of stored buckets (documented): hash order, 32-bit sizes"
        m,o=bmem(X,S,p); n=sz_(X,S,p)
        X.assume(S,sortedf(m,o,n))
        X.stats.setdefault('handled',set()).add('on-disk buckets: entries in hash order')
class BReadF(IO):
    name='bucket::read(File)'; fn=r'^void '+B+r'::read<nudb::posix_file>\(nudb::posix_file&, unsigned long, '; pats=(fn,); cases=('ok','corrupt','short','fail'); cost=3
    def setup(s,X,S):
        b=s.mk(X,S,wfp=False); f=S.new('arg:file',4); mkfile(S,f,'ino','read'); return [b,f,fresh('offset'),mkec(X,S)]
    def pre(s,X,S,a):
        b,f,off,ec=a
        return blockok(X,S,b)+[('file is open',fopen(X,S,f)),('no error on entry',ecok(X,S,ec)),('offset range',ule(off,MAXF>>1))]
    def mods(s,X,S,a,case):
        b,f,off,ec=a
        return ([] if case=='ok' else ecmods(ec))+([cell(b,'bucket.size_'),cell(b,'bucket.spill_')] if case in('ok','corrupt') else [])+[s.blobcell(X,S,b)]
    def guard(s,X,S0,S,a,ret,case):
        b,f,off,ec=a; k=finode(S0,f); z=isize(S0,k); m=imem(S0,k); inr=inrange(off,s.getrange(X,S0,b),z); c=fits(hdrcnt(m,off),bs_(X,S0,b))
        if case=='ok': return And(inr,c,ecok(X,S,ec))
        if case=='corrupt': return And(inr,Not(c),ecis(X,S,ec,ERRB()))
        if case=='short': return And(Not(inr),ecis(X,S,ec,SHORT()))
        return And(ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def facts(s,X,S0,S,a):
        b,f,off,ec=a; k=finode(S0,f); fm=imem(S0,k); m,o=bmem(X,S,b); n=s.getrange(X,S0,b)
        return [('count is the stored count',eq(sz_(X,S,b),hdrcnt(fm,off))),('spill offset is the stored one',eq(sp_(X,S,b),hdrspl(fm,off))),
                ('block holds the stored bytes',Forall('byte',lambda x:Implies(ult(sub(x,o),n),eq(MM.read1(m,x),MM.read1(fm,add(off,sub(x,o))),8)))),
                ('nothing past the entries changes',(lambda old:Forall('byte',lambda x:Implies(Not(ult(sub(x,o),n)),eq(MM.read1(m,x),MM.read1(old,x),8))))(bmem(X,S0,b)[0]))]
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s or case in('short','fail'): return []
        return s.facts(X,S0,S,a)
    def effect(s,X,S0,S,a,ret,case):
        b,f,off,ec=a; k=finode(S0,f); fm=imem(S0,k); m,o=bmem(X,S,b); ev(X,S,'read',k,off,s.getrange(X,S0,b))
        if hasattr(X.spec,'bucket_event'): X.spec.bucket_event(X,S,'readf:'+case,b,k,off)
        if case not in('ok','corrupt'): return
        c,p=hdrcnt(fm,off),hdrspl(fm,off); fset(X,S,b,'bucket.size_',c); fset(X,S,b,'bucket.spill_',p)
        X.assume(S,And(eq(hdrcnt(m,o),c),eq(hdrspl(m,o),p)))
        if case=='ok':
            bs=bs_(X,S,b); X.assume(S,inblock(c,bs))
            X.assume(S,Forall('idx',lambda j:Implies(And(ult(j,c),fits(c,bs)),And(*[eq(eoff_(m,o,j,d),eoff_(fm,off,j,d)) for d in(0,6,12)]))))
            s.ondisk(X,S,b)
class BReadR(IO):
    name='bucket::read(bulk_reader)'; fn=r'^void '+B+r'::read<nudb::posix_file>\(nudb::detail::bulk_reader<nudb::posix_file>&, '; pats=(fn,); cases=('ok','corrupt','short','fail'); cost=3
    def setup(s,X,S):
        b=s.mk(X,S,wfp=False); f=S.new('arg:file',4); mkfile(S,f,'ino','scan'); r=S.new('arg:br',OFF['br'][1])
        pos,last=fresh('pos'),fresh('last'); X.assume(S,And(ule(pos,last),ule(last,isize(S,'ino')),ule(last,MAXF>>1)))
        fset(X,S,r,'br.offset_',pos); fset(X,S,r,'br.avail_',0); fset(X,S,r,'br.last_',last); X.wr(S,r,fo('br.f_'),8,f)
        S.g[('br',)+bk(r)]='ino'; S.g[('brsnap',)+bk(r)]=imem(S,'ino')
        return [b,r,mkec(X,S)]
    def ghostfree(s): return ('br','brsnap','brslot','brbad')
    def pre(s,X,S,a):
        b,r,ec=a
        return blockok(X,S,b)+[('no error on entry',ecok(X,S,ec)),('file is open',fopen(X,S,X.rdp(S,r,fo('br.f_')))),('file bytes not yet scanned are unchanged',unchanged(X,S,r)),('position range',ule(brpos(X,S,r),MAXF>>1))]
    def mods(s,X,S,a,case):
        b,r,ec=a
        return ([] if case=='ok' else ecmods(ec))+[cell(b,'bucket.size_'),cell(b,'bucket.spill_'),s.blobcell(X,S,b),cell(r,'br.offset_'),cell(r,'br.avail_'),cell(r,'br.used_')]
    def guard(s,X,S0,S,a,ret,case):
        b,r,ec=a; pos=brpos(X,S0,r); last=brlast(X,S0,r); m=brsnap(S0,r); c=hdrcnt(m,pos); h8=inrange2(pos,8,last); fit=fits(c,bs_(X,S0,b)); all_=inrange2(pos,add(mul(c,18),8),last)
        if case=='ok': return And(h8,fit,all_,ecok(X,S,ec))
        if case=='corrupt': return And(h8,Not(fit),ecis(X,S,ec,ERRB()))
        if case=='short': return And(Or(Not(h8),And(fit,Not(all_))),ecis(X,S,ec,SHORT()))
        return And(ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s or case!='ok': return []
        b,r,ec=a; pos=brpos(X,S0,r); fm=brsnap(S0,r); c=hdrcnt(fm,pos); m,o=bmem(X,S,b); old=bmem(X,S0,b)[0]; n=add(mul(c,18),8)
        return [('count is the stored count',eq(sz_(X,S,b),c)),('spill offset is the stored one',eq(sp_(X,S,b),hdrspl(fm,pos))),
                ('block holds the stored bytes',Forall('byte',lambda x:Implies(ult(sub(x,o),n),eq(MM.read1(m,x),MM.read1(fm,add(pos,sub(x,o))),8)))),
                ('nothing past the entries changes',Forall('byte',lambda x:Implies(Not(ult(sub(x,o),n)),eq(MM.read1(m,x),MM.read1(old,x),8)))),
                ('reader advances by exactly the compact bucket',eq(brpos(X,S,r),add(pos,n))),('end of range unchanged',eq(brlast(X,S,r),brlast(X,S0,r)))]
    def effect(s,X,S0,S,a,ret,case):
        b,r,ec=a; k=brk(S,r); pos=brpos(X,S0,r); fm=brsnap(S,r); m,o=bmem(X,S,b)
        if hasattr(X.spec,'bucket_event'): X.spec.bucket_event(X,S,'readr:'+case,b,k,pos)
        q=S.g.get(('brslot',)+bk(r))
        if q is not None: S.dead=S.dead|{q}; S.g[('brslot',)+bk(r)]=None
        if case!='ok': S.g[('brbad',)+bk(r)]=True; return
        c,p=hdrcnt(fm,pos),hdrspl(fm,pos); fset(X,S,b,'bucket.size_',c); fset(X,S,b,'bucket.spill_',p)
        fset(X,S,r,'br.offset_',add(pos,add(mul(c,18),8))); fset(X,S,r,'br.avail_',0)
        ev(X,S,'bulkread',k,pos,add(mul(c,18),8),'ok')
        X.assume(S,And(eq(hdrcnt(m,o),c),eq(hdrspl(m,o),p))); bs=bs_(X,S,b); X.assume(S,inblock(c,bs))
        X.assume(S,Forall('idx',lambda j:Implies(And(ult(j,c),fits(c,bs)),And(*[eq(eoff_(m,o,j,d),eoff_(fm,pos,j,d)) for d in(0,6,12)]))))
        s.ondisk(X,S,b)
def asz(X,S,b): return bsz(sz_(X,S,b))
class BWriteOs(IO):
    name='bucket::write(ostream)'; fn=r'^'+B+r'::write\(nudb::detail::ostream_t<void>&\) const$'; pats=(fn,)
    def setup(s,X,S):
        b=s.mk(X,S,wfull=False); S.new('arg:out',None,kind='arr'); S.rsize['arg:out']=fresh('outsz'); os=S.new('arg:os',16)
        X.wr(S,os,0,8,Ptr('arg:out',fresh('oo'))); X.wr(S,os,8,8,fresh('written')); return [b,os]
    def pre(s,X,S,a):
        b,os=a; q=X.rdp(S,os,0); z=S.rsize.get(q.r); n=asz(X,S,b)
        return wf(X,S,b,False)+[('room in the stream',And(ule(q.o,z),ule(n,sub(z,q.o)),ule(z,MAXF),*([Not(q.nul)] if q.nul is not False else [])))]
    def mods(s,X,S,a,case): return [('c',a[1].r,a[1].o,16)]
    def expect(s,X,S0,S,a,case):
        b,os=a; q=X.rdp(S0,os,0); m,o=bmem(X,S0,b); return {q.r:MM.copy(X.region(S0,q),q.o,asz(X,S0,b),m,o)}
    def effect(s,X,S0,S,a,ret,case):
        b,os=a; q=X.rdp(S0,os,0); n=asz(X,S0,b); X.wr(S,os,0,8,Ptr(q.r,add(q.o,n),q.nul)); X.wr(S,os,8,8,add(X.rd(S0,os,8,8),n)); X.onwrite(S,q,n)
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s: return []
        b,os=a; q=X.rdp(S0,os,0); n=asz(X,S0,b); q1=X.rdp(S,os,0)
        return [('stream advances by the compact size',And(q1.r==q.r,eq(q1.o,add(q.o,n)))),('stream counts the bytes',eq(X.rd(S,os,8,8),add(X.rd(S0,os,8,8),n)))]
class BWriteF(IO):
    fn=r'^void '+B+r'::write<nudb::posix_file>\(nudb::posix_file&, unsigned long, '; pats=(fn,); cases=('ok','fail'); cost=3
    name='bucket::write(File)'
    def setup(s,X,S):
        b=s.mk(X,S,wfull=False); f=S.new('arg:file',4); mkfile(S,f,'ino','write'); return [b,f,fresh('offset'),mkec(X,S)]
    def pre(s,X,S,a):
        b,f,off,ec=a
        return wf(X,S,b,False)+[('no error on entry',ecok(X,S,ec))]+wpre(X,S,f,off,bs_(X,S,b))
    def image(s,X,S0,a):
        b=a[0]; m,o=bmem(X,S0,b); n=asz(X,S0,b); return MM.Fil(add(o,n),sub(bs_(X,S0,b),n),0,m),o
    def expect(s,X,S0,S,a,case):
        b=a[0]; m,o=s.image(X,S0,a); return {pp_(X,S0,b).r:m}
    def mods(s,X,S,a,case):
        k=finode(S,a[1]); return ([] if case=='ok' else ecmods(a[3]))+[('g',('imem',k)),('g',('isize',k)),('g',('idirty',k))]
    def guard(s,X,S0,S,a,ret,case):
        ec=a[3]; return ecok(X,S,ec) if case=='ok' else And(ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        b,f,off,ec=a; k=finode(S,f); bs=bs_(X,S,b); m,o=s.image(X,S,a)
        if hasattr(X.spec,'bucket_event'): X.spec.bucket_event(X,S,'write',b,k,off)
        S.mem[pp_(X,S,b).r]=m; X.onwrite(S,pp_(X,S,b),None)
        T=S.copy(); do_write(X,S,k,off,bs,m,o); do_partial(X,T,k,off,bs,m,o); ecset(X,T,ec,syserr(X,T,ec),SYS)
        return Alt([(T,None),(S,None)])
    def post(s,X,S0,S,a,ret,case):
        b,f,off,ec=a; k='ino'; m0,m1=imem(S0,k),imem(S,k); z0,z1=isize(S0,k),isize(S,k); bs=bs_(X,S0,b); src,o=s.image(X,S0,a); e=add(off,bs)
        if case=='ok':
            return [('exactly one block at the offset: the bucket, then zeros',Forall('byte',lambda x:eq(MM.read1(m1,x),If(ult(sub(x,off),bs),MM.read1(src,add(o,sub(x,off))),MM.read1(m0,x),8),8))),('size',eq(z1,If(ule(e,z0),z0,e)))]
        return [('nothing outside the block',Forall('byte',lambda x:Implies(Not(ult(sub(x,off),bs)),eq(MM.read1(m1,x),MM.read1(m0,x),8)))),('size grows at most to the end of the block',And(uge(z1,z0),Or(eq(z1,z0),ule(z1,e))))]
class Spill(IO):
    group='C06'; name='maybe_spill'; fn=r'^void nudb::detail::maybe_spill<nudb::posix_file>\('; pats=(fn,); cases=('none','ok','fail'); cost=4
    def setup(s,X,S):
        b=s.mk(X,S,wfull=False); f=S.new('arg:file',4); mkfile(S,f,'ino','append'); w=S.new('arg:bw',OFF['bw'][1])
        st,us=fresh('start'),fresh('used'); X.assume(S,And(ule(st,MAXF>>3),ule(us,1<<40),Or(eq(us,0),eq(st,isize(S,'ino')))))
        X.wr(S,w,fo('bw.f_'),8,f); fset(X,S,w,'bw.offset_',st); fset(X,S,w,'bw.used_',us)
        S.g[('bw',)+bk(w)]='ino'; S.g[('bwL',)+bk(w)]=MM.Base('logical','arr'); S.g[('bwslot',)+bk(w)]=None
        return [b,w,mkec(X,S)]
    def ghostfree(s): return ('bw','bwL','bwslot')
    def pre(s,X,S,a):
        b,w,ec=a; f=bwfile(X,S,w); k=finode(S,f)
        r=wf(X,S,b,False)+[('no error on entry',ecok(X,S,ec)),('file is open',fopen(X,S,f)),('file opened for writing',fmode(S,f) in('write','append')),('data file fits 48-bit offsets',ule(bwpos(X,S,w),M48-8))]
        if fmode(S,f)=='append': r.append(('append mode: unflushed bytes belong at the end of the file',Or(eq(bwused(X,S,w),0),eq(bwstart(X,S,w),isize(S,k)))))
        return r
    def full(s,X,S,a): return uge(sz_(X,S,a[0]),capf(bs_(X,S,a[0])))
    def mods(s,X,S,a,case):
        b,w,ec=a; k=bwk(S,w)
        if case=='none': return []
        m=[('c',w.r,w.o,OFF['bw'][1]),('g',('imem',k)),('g',('isize',k)),('g',('idirty',k))]
        return m+([cell(b,'bucket.size_'),cell(b,'bucket.spill_'),s.blobcell(X,S,b)] if case=='ok' else ecmods(ec))
    def guard(s,X,S0,S,a,ret,case):
        b,w,ec=a; fu=s.full(X,S0,a)
        if case=='none': return And(Not(fu),ecok(X,S,ec))
        if case=='ok': return And(fu,ecok(X,S,ec))
        return And(fu,ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def record(s,X,S0,a):
        b,w,ec=a; m,o=bmem(X,S0,b); n=asz(X,S0,b)
        r=MM.Fill0(0); r=MM.write(r,6,2,bswap(extract(n,0,16,64),2)); return MM.copy(r,8,n,m,o),add(n,8)
    def post(s,X,S0,S,a,ret,case):
        if X.spec is not s or case=='fail': return []
        b,w,ec=a; k=bwk(S,w); pos=bwpos(X,S0,w)
        if case=='none': return [('nothing written',eq(bwpos(X,S,w),pos)),('no slot',S.g.get(('bwslot',)+bk(w)) is None)]
        T=S.copy(); fold(X,T,w); L0=bwL(S0,w); L1=bwL(T,w); rec,n=s.record(X,S0,a); m,o=bmem(X,S,b); bs=bs_(X,S,b)
        return [('exactly the spill record is appended',Forall('byte',lambda x:eq(MM.read1(L1,x),If(ult(sub(x,pos),n),MM.read1(rec,sub(x,pos)),MM.read1(L0,x),8),8))),
                ('position advances by the record',eq(bwpos(X,S,w),add(pos,n))),
                ('bucket is empty and points to the spilled bucket',And(eq(sz_(X,S,b),0),eq(sp_(X,S,b),add(pos,8)))),
                ('stored bucket is empty and points to the spilled bucket',And(eq(MM.be(m,o,2),0),eq(hdrspl(m,o),add(pos,8)))),
                ('rest of the block is zero',Forall('byte',lambda x:Implies(And(ult(sub(x,o),bs),uge(sub(x,o),8)),eq(MM.read1(m,x),0,8)))),
                ('block and bucket address unchanged',And(eq(bs,bs_(X,S0,b)),eqv(pp_(X,S,b),pp_(X,S0,b))))]
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        b,w,ec=a; fu=s.full(X,S,a); out=[]
        N=S.copy()
        if fu is not True and X.feasible(N,Not(fu)): X.assume(N,Not(fu)); out.append((N,None))
        if X.feasible(S,fu):
            X.assume(S,fu); pos=bwpos(X,S,w); rec,n=s.record(X,S,a); k=bwk(S,w)
            if hasattr(X.spec,'bucket_event'): X.spec.bucket_event(X,S,'spill',b,k,pos)
            fold(X,S,w); st=bwstart(X,S,w); us=bwused(X,S,w); L=bwL(S,w); T=S.copy(); bb=freshb('flushed'); nf=If(bb,us,0)
            do_write(X,S,k,st,nf,L,st); fset(X,S,w,'bw.offset_',add(st,nf)); fset(X,S,w,'bw.used_',add(sub(us,nf),n)); ev(X,S,'bwprep',k,pos,n,w)
            S.g[('bwL',)+bk(w)]=MM.copy(L,pos,n,rec,0)
            q=pp_(X,S,b); S.mem[q.r]=header(MM.Fil(q.o,bs_(X,S,b),0,X.region(S,q)),q.o,0,add(pos,8)); X.onwrite(S,q,bs_(X,S,b))
            fset(X,S,b,'bucket.size_',0); fset(X,S,b,'bucket.spill_',add(pos,8))
            do_partial(X,T,k,st,us,L,st); ecset(X,T,ec,syserr(X,T,ec),SYS); fset(X,T,w,'bw.offset_',add(st,us)); fset(X,T,w,'bw.used_',0)
            out+=[(T,None),(S,None)]
        return Alt(out)
CONTRACTS=[BReadF(),BReadR(),BWriteOs(),BWriteF(),Spill()]
PROOFS=list(CONTRACTS)
