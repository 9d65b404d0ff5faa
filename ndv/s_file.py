"""Ghost files.  Contract of posix_file (used by every caller) and its proof
against the assumed contract of the system calls (C19)."""
from terms import *
from spec import *
from stdlib import h, strid, cstr
import mem as MM
import re
PF='nudb::posix_file'
SHORT=lambda: E['short_read']
MAXF=1<<62
# ---- ghost accessors.  inode k: isize, imem, iexist, idirty, fmode of a file object
def fkey(p):
    if not isinstance(p.o,int): raise Unsupported('file object at symbolic address')
    return (p.r,p.o)
def finode(S,p):
    k=S.g.get(('fino',)+fkey(p))
    if k is None: raise Unsupported(f'unknown file object {p}')
    return k
def fmode(S,p): return S.g.get(('fmode',)+fkey(p))
def mkinode(S,k,exists=True,size=None,mem=None,dirty=False):
    S.g[('isize',k)]=fresh('fsize') if size is None else size
    S.g[('imem',k)]=MM.Base(f'file_{k}','arr') if mem is None else mem
    S.g[('iexist',k)]=exists; S.g[('idirty',k)]=dirty
    z=S.g[('isize',k)]
    if not isinstance(z,int): S.pc.append(ule(z,MAXF))
def mkfile(S,p,k,mode,open_=True,**kw):
    if ('isize',k) not in S.g: mkinode(S,k,**kw)
    S.g[('fino',)+fkey(p)]=k; S.g[('fmode',)+fkey(p)]=mode
    if p.r not in S.mem: S.new(p.r,4)
    o=add(p.o,OFF['file.fd_'][0])
    if open_ is True:
        fd=fresh('fd',32); S.pc.append(ule(fd,0x7fffffff,32)); S.mem[p.r]=MM.write(S.mem[p.r],o,4,fd)
    elif open_ is False: S.mem[p.r]=MM.write(S.mem[p.r],o,4,0xffffffff)
def fopen(X,S,p): return ne(X.rd(S,p,4,OFF['file.fd_'][0]),0xffffffff,32)
def isize(S,k): return S.g[('isize',k)]
def imem(S,k): return S.g[('imem',k)]
def ev(X,S,kind,k,*a):
    sp=X.spec
    if sp is not None and hasattr(sp,'file_event'): sp.file_event(X,S,kind,k,*a)
def inrange(off,n,size): return Or(eq(n,0),And(ule(off,size),ule(n,sub(size,off))))
def syserr(X,S,p):
    "ec holds a system error"
    v=fresh('errno',32); X.assume(S,And(ne(v,0,32))); return v
# ---- raising effects, shared by all contracts that write to a file
def do_write(X,S,k,off,n,src,so,mode=None):
    "n bytes of src at so replace [off,off+n) of inode k"
    ev(X,S,'write',k,off,n,src,so)
    S.g[('imem',k)]=MM.copy(imem(S,k),off,n,src,so)
    z=isize(S,k); e=add(off,n)
    S.g[('isize',k)]=If(Or(eq(n,0),ule(e,z)),z,e); S.g[('idirty',k)]=True
def do_partial(X,S,k,off,n,src=None,so=None):
    "a failed write may leave anything in [off,off+n)"
    ev(X,S,'partial',k,off,n)
    S.g[('imem',k)]=MM.copy(imem(S,k),off,n,MM.Base('partial','arr'),0)
    z=isize(S,k); z2=fresh('psize'); e=add(off,n)
    X.assume(S,And(uge(z2,z),Or(eq(z2,z),ule(z2,e))))
    S.g[('isize',k)]=z2; S.g[('idirty',k)]=True
def wpre(X,S,p,off,n):
    m=fmode(S,p); k=finode(S,p)
    r=[('file is open',fopen(X,S,p)),('file opened for writing',m in('write','append')),('offset range',And(ule(off,MAXF),ule(n,MAXF)))]
    if m=='append': r.append(('append mode writes at the end of the file',Or(eq(n,0),eq(off,isize(S,k)))))
    return r
class F(Spec):
    group='C19'
    def setupfile(s,X,S,mode='write'):
        p=S.new('arg:file',4); mkfile(S,p,'ino',mode)
        S.g['kfd']=X.rd(S,p,4,OFF['file.fd_'][0]); S.g['kino']='ino'; S.g['kappend']=(mode=='append'); S.g['kclosed']=()
        return p
    def ghostfree(s): return ('sys','cstr','str','kfd','sysopen','kclosed')
class FRead(F):
    name='posix_file.read'; fn=r'^nudb::posix_file::read\(unsigned long, void\*, unsigned long, '; pats=(fn,)
    cases=('ok','short','fail'); cost=5
    def setup(s,X,S):
        p=s.setupfile(X,S,'read'); S.new('arg:dst',None,kind='arr'); S.rsize['arg:dst']=fresh('dsz')
        return [p,fresh('offset'),Ptr('arg:dst',fresh('do')),fresh('bytes'),mkec(X,S)]
    def pre(s,X,S,a):
        p,off,d,n,ec=a
        r=[('file is open',fopen(X,S,p)),('no error on entry',ecok(X,S,ec)),('offset range',And(ule(off,MAXF),ule(n,MAXF)))]
        z=S.rsize.get(d.r)
        if z is not None: r.append(('destination large enough',Or(eq(n,0),And(ule(d.o,z),ule(n,sub(z,d.o)),*([ule(z,MAXF)] if d.r=='arg:dst' else [])))))
        return r
    def mods(s,X,S,a,case):
        p,off,d,n,ec=a
        m=[] if case=='ok' else ecmods(ec)
        if case!='ok': m.append(('c',d.r,d.o,n))
        return m
    def guard(s,X,S0,S,a,ret,case):
        p,off,d,n,ec=a; ok=inrange(off,n,isize(S0,finode(S0,p)))
        if case=='ok': return And(ok,ecok(X,S,ec))
        if case=='short': return And(Not(ok),ecis(X,S,ec,SHORT()))
        return And(ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def expect(s,X,S0,S,a,case):
        p,off,d,n,ec=a
        if case!='ok': return {}
        return {d.r:MM.copy(S0.mem[d.r] if d.r in S0.mem else X.region(S,d),d.o,n,imem(S0,finode(S0,p)),off)}
    def effect(s,X,S0,S,a,ret,case):
        ev(X,S,'read',finode(S,a[0]),a[1],a[3])
    def loop_inv(s,X,S,d,Fn,h,ints):
        a=s.args; p,off,dst,n,ec=a; old=s.S0.mem[dst.r]; fm=imem(S,'ino'); fz=isize(S,'ino'); out=[]
        out.append(('outside untouched',lambda T:(lambda m:Forall('byte',lambda k:Implies(Not(ult(sub(k,dst.o),n)),eq(MM.read1(m,k),MM.read1(old,k),8))))(T.mem[dst.r])))
        for nm,w,f in ints:
            if w!=64: continue
            x0=f(S)
            if x0 is None: continue
            def c(T,f=f,x0=x0):
                x=f(T)
                if x is None: return None
                dn=sub(x,x0); m=T.mem[dst.r]
                return Forall('byte',lambda k:Implies(ult(sub(k,dst.o),dn),eq(MM.read1(m,k),MM.read1(fm,add(off,sub(k,dst.o))),8)))
            def c2(T,f=f,x0=x0):
                x=f(T); return None if x is None else ule(sub(x,x0),n)
            def c3(T,f=f,x0=x0):
                x=f(T); return None if x is None else inrange(off,sub(x,x0),fz)
            out+=[(f'filled up to {nm}',c),(f'{nm} advance<=n',c2),(f'{nm} advance in file',c3)]
        return out
    def pre_(s): pass
class FWrite(F):
    name='posix_file.write'; fn=r'^nudb::posix_file::write\(unsigned long, void const\*, unsigned long, '; pats=(fn,)
    cases=('ok','fail'); cost=5; mode='write'
    def setup(s,X,S):
        p=s.setupfile(X,S,s.mode); S.new('arg:src',None,kind='arr'); S.rsize['arg:src']=fresh('ssz')
        return [p,fresh('offset'),Ptr('arg:src',fresh('so')),fresh('bytes'),mkec(X,S)]
    def pre(s,X,S,a):
        p,off,d,n,ec=a; z=S.rsize.get(d.r)
        r=wpre(X,S,p,off,n)+[('no error on entry',ecok(X,S,ec))]
        if z is not None: r.append(('source large enough',Or(eq(n,0),And(ule(d.o,z),ule(n,sub(z,d.o)),*([ule(z,MAXF)] if d.r=='arg:src' else [])))))
        return r
    def mods(s,X,S,a,case): 
        k=finode(S,a[0])
        return ([] if case=='ok' else ecmods(a[4]))+[('g',('imem',k)),('g',('isize',k)),('g',('idirty',k))]
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        p,off,d,n,ec=a; k=finode(S,p); T=S.copy()
        do_write(X,S,k,off,n,X.region(S,d) if d.r is not None else MM.Fill0(),d.o)
        do_partial(X,T,k,off,n,X.region(T,d) if d.r is not None else MM.Fill0(),d.o)
        ecset(X,T,ec,syserr(X,T,ec),SYS)
        return Alt([(T,None),(S,None)])
    def guard(s,X,S0,S,a,ret,case):
        ec=a[4]
        return ecok(X,S,ec) if case=='ok' else And(ne(ecval(X,S,ec),0,32),eq(eccat(X,S,ec),SYS))
    def post(s,X,S0,S,a,ret,case):
        p,off,d,n,ec=a; k='ino'; m0,m1=imem(S0,k),imem(S,k); z0,z1=isize(S0,k),isize(S,k); src=S0.mem['arg:src']; e=add(off,n)
        if case=='ok':
            return [('exactly the given bytes at the given offset',Forall('byte',lambda x:eq(MM.read1(m1,x),If(ult(sub(x,off),n),MM.read1(src,add(d.o,sub(x,off))),MM.read1(m0,x),8),8))),
                    ('size',eq(z1,If(Or(eq(n,0),ule(e,z0)),z0,e)))]
        return [('nothing outside the requested range',Forall('byte',lambda x:Implies(Not(ult(sub(x,off),n)),eq(MM.read1(m1,x),MM.read1(m0,x),8)))),
                ('size grows at most to the end of the range',And(uge(z1,z0),Or(eq(z1,z0),ule(z1,e))))]
    def loop_scalars(s,X,S,d,Fn,h): return [('isize',64,lambda T:isize(T,'ino'))]
    def loop_inv(s,X,S,d,Fn,h,ints):
        p,off,src,n,ec=s.args; m0=imem(s.S0,'ino'); sm=s.S0.mem['arg:src']; out=[]; z0=isize(s.S0,'ino')
        out.append(('outside untouched',lambda T:(lambda m:Forall('byte',lambda k:Implies(Not(ult(sub(k,off),n)),eq(MM.read1(m,k),MM.read1(m0,k),8))))(imem(T,'ino'))))
        for nm,w,f in ints:
            if w!=64: continue
            x0=f(S)
            if x0 is None: continue
            def c(T,f=f,x0=x0):
                x=f(T)
                if x is None: return None
                dn=sub(x,x0); m=imem(T,'ino')
                return Forall('byte',lambda k:eq(MM.read1(m,k),If(ult(sub(k,off),dn),MM.read1(sm,add(src.o,sub(k,off))),MM.read1(m0,k),8),8))
            def c2(T,f=f,x0=x0):
                x=f(T); return None if x is None else ule(sub(x,x0),n)
            def c3(T,f=f,x0=x0):
                x=f(T)
                if x is None: return None
                dn=sub(x,x0); e=add(off,dn)
                return eq(isize(T,'ino'),If(Or(eq(dn,0),ule(e,z0)),z0,e))
            out+=[(f'written up to {nm}',c),(f'{nm} advance<=n',c2),(f'size follows {nm}',c3)]
        return out
class FWriteApp(FWrite):
    name='posix_file.write(append)'; mode='append'
class FSize(F):
    name='posix_file.size'; fn=r'^nudb::posix_file::size\('; pats=(fn,); cases=('ok','fail')
    def setup(s,X,S): return [s.setupfile(X,S,'read'),mkec(X,S)]
    def pre(s,X,S,a): return [('file is open',fopen(X,S,a[0])),('no error on entry',ecok(X,S,a[1]))]
    def mods(s,X,S,a,case): return [] if case=='ok' else ecmods(a[1])
    def guard(s,X,S0,S,a,ret,case):
        if case=='ok': return ecok(X,S,a[1])
        return And(ne(ecval(X,S,a[1]),0,32),eq(eccat(X,S,a[1]),SYS))
    def result(s,X,S,a,case,i): return isize(S,finode(S,a[0])) if case=='ok' else 0
    def post(s,X,S0,S,a,ret,case): return [('size',eq(ret,isize(S0,finode(S0,a[0]))))] if case=='ok' else []
class FTrunc(F):
    name='posix_file.trunc'; fn=r'^nudb::posix_file::trunc\('; pats=(fn,); cases=('ok','fail')
    def setup(s,X,S): return [s.setupfile(X,S,'write'),fresh('length'),mkec(X,S)]
    def pre(s,X,S,a): return [('file is open',fopen(X,S,a[0])),('no error on entry',ecok(X,S,a[2])),('file opened for writing',fmode(S,a[0]) in('write','append')),('range',ule(a[1],MAXF))]
    def mods(s,X,S,a,case):
        k=finode(S,a[0])
        return [('g',('imem',k)),('g',('isize',k)),('g',('idirty',k))] if case=='ok' else ecmods(a[2])
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        k=finode(S,a[0]); T=S.copy()
        ev(X,S,'trunc',k,a[1])
        do_trunc(X,S,k,a[1])
        ev(X,T,'truncfail',k,a[1])
        ecset(X,T,a[2],syserr(X,T,a[2]),SYS)
        return Alt([(T,None),(S,None)])
    guard=FWrite.guard
    def guard(s,X,S0,S,a,ret,case):
        return ecok(X,S,a[2]) if case=='ok' else And(ne(ecval(X,S,a[2]),0,32),eq(eccat(X,S,a[2]),SYS))
    def post(s,X,S0,S,a,ret,case):
        k=finode(S0,a[0])
        if case!='ok': return []
        return [('size',eq(isize(S,k),a[1])),('kept content',Forall('byte',lambda x:Implies(And(ult(x,a[1]),ult(x,isize(S0,k))),eq(MM.read1(imem(S,k),x),MM.read1(imem(S0,k),x),8))))]
def do_trunc(X,S,k,n):
    S.g[('isize',k)]=n; S.g[('imem',k)]=MM.Fil(n,1<<62,0,imem(S,k)); S.g[('idirty',k)]=True
class FSync(F):
    name='posix_file.sync'; fn=r'^nudb::posix_file::sync\('; pats=(fn,); cases=('ok','fail')
    def setup(s,X,S):
        p=s.setupfile(X,S,'write'); S.g[('idirty','ino')]=freshb('dirty'); return [p,mkec(X,S)]
    def pre(s,X,S,a): return [('file is open',fopen(X,S,a[0])),('no error on entry',ecok(X,S,a[1]))]
    def mods(s,X,S,a,case): return [('g',('idirty',finode(S,a[0])))] if case=='ok' else ecmods(a[1])
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        k=finode(S,a[0]); T=S.copy(); S.g[('idirty',k)]=False; ev(X,S,'sync',k)
        ev(X,T,'syncfail',k)
        ecset(X,T,a[1],syserr(X,T,a[1]),SYS)
        return Alt([(T,None),(S,None)])
    def guard(s,X,S0,S,a,ret,case):
        return ecok(X,S,a[1]) if case=='ok' else And(ne(ecval(X,S,a[1]),0,32),eq(eccat(X,S,a[1]),SYS))
    def post(s,X,S0,S,a,ret,case): return [('durable',Not(S.g[('idirty',finode(S,a[0]))]))] if case=='ok' else []
MODES={0:'scan',1:'read',2:'append',3:'write'}
def pathino(X,S,p):
    "inode of a path object: paths are distinct unless the same string"
    return ('p',)+tuple(str(x) for x in strid(X,S,p))
def needino(S,k):
    if ('isize',k) not in S.g: mkinode(S,k,exists=freshb('exists'))
class FOpen(F):
    name='posix_file.open'; fn=r'^nudb::posix_file::open\('; pats=(fn,); cases=('ok','fail'); mode=1; cre=False
    def setup(s,X,S):
        p=S.new('arg:file',4); X.wr(S,p,OFF['file.fd_'][0],4,0xffffffff); S.g['kclosed']=()
        path=S.new('arg:path',32); S.g[('str','arg:path',0)]=('path','P'); needino(S,pathino(X,S,path)); S.g['sysopen']=None
        return [p,s.mode,path,mkec(X,S)]
    def pre(s,X,S,a): return [('file is closed',Not(fopen(X,S,a[0]))),('no error on entry',ecok(X,S,a[3]))]
    def mods(s,X,S,a,case): return [('c',a[0].r,add(a[0].o,OFF['file.fd_'][0]),4)]+([] if case=='ok' else ecmods(a[3]))+([('g',('iexist',pathino(X,S,a[2]))),('g',('isize',pathino(X,S,a[2]))),('g',('imem',pathino(X,S,a[2])))] if s.cre and case=='ok' else [])
    def modeof(s,S,a):
        m=a[1]
        if not isinstance(m,int): raise Unsupported('symbolic file mode')
        return MODES[m]
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        k=pathino(X,S,a[2]); needino(S,k); p=a[0]; T=S.copy()
        ex=S.g[('iexist',k)]
        out=[]
        # failure
        v=syserr(X,T,a[3])
        if not s.cre: X.assume(T,Iff(eq(v,2,32),Not(ex)))
        else: X.assume(T,Iff(eq(v,17,32),ex))
        ecset(X,T,a[3],v,SYS); X.wr(T,p,OFF['file.fd_'][0],4,fresh('fd',32)); ev(X,T,'createfail' if s.cre else 'openfail',k)
        out.append((T,None))
        c=Not(ex) if s.cre else ex
        if X.feasible(S,c):
            X.assume(S,c)
            fd=fresh('fd',32); X.assume(S,ule(fd,0x7fffffff,32)); X.wr(S,p,OFF['file.fd_'][0],4,fd)
            S.g[('fino',)+fkey(p)]=k; S.g[('fmode',)+fkey(p)]=s.modeof(S,a)
            if s.cre:
                S.g[('iexist',k)]=True; S.g[('isize',k)]=0; S.g[('imem',k)]=MM.Fill0(0); S.g[('idirty',k)]=False
            ev(X,S,'create' if s.cre else 'open',k,s.modeof(S,a))
            out.append((S,None))
        return Alt(out)
    def guard(s,X,S0,S,a,ret,case):
        return ecok(X,S,a[3]) if case=='ok' else And(ne(ecval(X,S,a[3]),0,32),eq(eccat(X,S,a[3]),SYS))
    def post(s,X,S0,S,a,ret,case):
        k=pathino(X,S0,a[2]); o=S.g.get('sysopen')
        r=[]
        if case=='ok':
            r.append(('handle refers to the named file',And(o is not None, o is not None and eq(o[0],X.rd(S,a[0],4,OFF['file.fd_'][0]),32), fopen(X,S,a[0]))))
            if o is not None:
                acc={'scan':0,'read':0,'append':2,'write':2}[MODES[s.mode]]
                r.append(('access mode grants exactly what is named',o[1]&3==acc))
                r.append(('append flag',bool(o[1]&0o2000)==(MODES[s.mode]=='append')))
                r.append(('never truncates',not o[1]&0o1000))
                r.append(('created new' if s.cre else 'existing file',Not(S0.g[('iexist',k)]) if s.cre else S0.g[('iexist',k)]))
        else:
            v=ecval(X,S,a[3])
            r.append(('missing file reported as such' if not s.cre else 'existing file reported as such',Implies(Not(S0.g[('iexist',k)]),eq(v,2,32)) if not s.cre else Implies(S0.g[('iexist',k)],eq(v,17,32))))
        return r
class FCreate(FOpen):
    name='posix_file.create'; fn=r'^nudb::posix_file::create\('; pats=(fn,); cre=True; mode=2
    def mods(s,X,S,a,case):
        return super().mods(X,S,a,case)
    def post(s,X,S0,S,a,ret,case):
        k=pathino(X,S0,a[2]); r=super().post(X,S0,S,a,ret,case)
        r.append(('an existing file is never touched',Implies(S0.g[('iexist',k)],And(eq(isize(S,k),isize(S0,k)),imem(S,k) is imem(S0,k)))))
        if case=='ok': r.append(('new file is empty',eq(isize(S,k),0)))
        return r
class FErase(F):
    name='posix_file.erase'; fn=r'^nudb::posix_file::erase\('; pats=(fn,); cases=('ok','fail')
    def setup(s,X,S):
        path=S.new('arg:path',32); S.g[('str','arg:path',0)]=('path','P'); needino(S,pathino(X,S,path))
        return [path,mkec(X,S)]
    def pre(s,X,S,a): return [('no error on entry',ecok(X,S,a[1]))]
    def mods(s,X,S,a,case): return [('g',('iexist',pathino(X,S,a[0])))] if case=='ok' else ecmods(a[1])
    def apply(s,X,S,a,i):
        for lab,c in s.pre(X,S,a): X.prove(S,c,f'requires of {s.name}: {lab}')
        k=pathino(X,S,a[0]); needino(S,k); T=S.copy(); ex=S.g[('iexist',k)]
        v=syserr(X,T,a[1]); X.assume(T,Iff(eq(v,2,32),Not(ex))); ecset(X,T,a[1],v,SYS); ev(X,T,'erasefail',k); out=[(T,None)]
        if X.feasible(S,ex):
            X.assume(S,ex); ev(X,S,'erase',k); S.g[('iexist',k)]=False; out.append((S,None))
        return Alt(out)
    def guard(s,X,S0,S,a,ret,case):
        return ecok(X,S,a[1]) if case=='ok' else And(ne(ecval(X,S,a[1]),0,32),eq(eccat(X,S,a[1]),SYS))
    def post(s,X,S0,S,a,ret,case):
        k=pathino(X,S0,a[0]); ex0=S0.g[('iexist',k)]
        if case=='ok': return [('file removed',And(ex0,Not(S.g[('iexist',k)])))]
        return [('missing file reported',Implies(Not(ex0),eq(ecval(X,S,a[1]),2,32)))]
class FClose(F):
    name='posix_file.close'; fn=r'^nudb::posix_file::close\('; pats=(fn,); anyopen=True
    def setup(s,X,S):
        p=s.setupfile(X,S,'read'); o=OFF['file.fd_'][0]; fd=fresh('fd',32); X.wr(S,p,o,4,fd); S.g['kfd']=fd; return [p]
    def mods(s,X,S,a,case): return [('c',a[0].r,add(a[0].o,OFF['file.fd_'][0]),4)]
    def effect(s,X,S0,S,a,ret,case):
        X.wr(S,a[0],OFF['file.fd_'][0],4,0xffffffff)
        ev(X,S,'close',S.g.get(('fino',)+fkey(a[0])),fopen(X,S0,a[0]))
    def check_exit(s,X,S0,T,a,ret):
        fd=X.rd(S0,a[0],4,OFF['file.fd_'][0]); op=ne(fd,0xffffffff,32); cl=T.g['kclosed']
        X.prove(T,eq(X.rd(T,a[0],4,OFF['file.fd_'][0]),0xffffffff,32),'ensures the file is closed')
        X.prove(T,Implies(op,len(cl)==1),'ensures an open handle is released exactly once')
        X.prove(T,Implies(Not(op),len(cl)==0),'ensures a closed file releases nothing')
        for c in cl: X.prove(T,eq(c,fd,32),'ensures the handle released is its own')
class FDtor(FClose):
    nocontract=('posix_file.close',)
    name='posix_file.dtor'; fn=r'^nudb::posix_file::~posix_file\('; pats=(fn,)
class FMove(F):
    name='posix_file.move-ctor'; fn=r'^nudb::posix_file::posix_file\(nudb::posix_file&&\)'; pats=(fn,)
    def setup(s,X,S):
        q=s.setupfile(X,S,'read'); o=OFF['file.fd_'][0]; X.wr(S,q,o,4,fresh('fd',32)); S.g['kfd']=None
        return [S.new('arg:new',4),q]
    def mods(s,X,S,a,case):
        o=OFF['file.fd_'][0]
        return [('c',a[0].r,add(a[0].o,o),4),('c',a[1].r,add(a[1].o,o),4)]
    def effect(s,X,S0,S,a,ret,case):
        o=OFF['file.fd_'][0]; X.wr(S,a[0],o,4,X.rd(S0,a[1],4,o)); X.wr(S,a[1],o,4,0xffffffff)
        for t in('fino','fmode'):
            if (t,)+fkey(a[1]) in S.g: S.g[(t,)+fkey(a[0])]=S.g[(t,)+fkey(a[1])]
    def result(s,X,S,a,case,i): return None
    def check_exit(s,X,S0,T,a,ret):
        o=OFF['file.fd_'][0]
        X.prove(T,eq(X.rd(T,a[0],4,o),X.rd(S0,a[1],4,o),32),'ensures the handle is transferred')
        X.prove(T,eq(X.rd(T,a[1],4,o),0xffffffff,32),'ensures the source is closed')
        X.prove(T,len(T.g['kclosed'])==0,'ensures nothing is closed')
class FAssign(FMove):
    nocontract=('posix_file.close',)
    name='posix_file.move-assign'; fn=r'^nudb::posix_file::operator=\(nudb::posix_file&&\)'; pats=(fn,)
    def setup(s,X,S):
        a=super().setup(X,S); X.wr(S,a[0],OFF['file.fd_'][0],4,fresh('fd',32)); return a
    def effect(s,X,S0,S,a,ret,case):
        if a[0].r==a[1].r and eqv(a[0].o,a[1].o): raise Unsupported('self move')
        ev(X,S,'close',S.g.get(('fino',)+fkey(a[0])),fopen(X,S0,a[0]))
        super().effect(X,S0,S,a,ret,case)
    def result(s,X,S,a,case,i): return a[0]
    def check_exit(s,X,S0,T,a,ret):
        o=OFF['file.fd_'][0]; cl=T.g['kclosed']; fd=X.rd(S0,a[0],4,o)
        X.prove(T,eq(X.rd(T,a[0],4,o),X.rd(S0,a[1],4,o),32),'ensures the handle is transferred')
        X.prove(T,eq(X.rd(T,a[1],4,o),0xffffffff,32),'ensures the source is closed')
        X.prove(T,Implies(ne(fd,0xffffffff,32),len(cl)==1),'ensures the old handle is released once')
        X.prove(T,Implies(eq(fd,0xffffffff,32),len(cl)==0),'ensures nothing to release')
        for c in cl: X.prove(T,eq(c,fd,32),'ensures the handle released is the old one')
        X.prove(T,isinstance(ret,Ptr) and ret.same(a[0]),'ensures returns *this')
class FSelf(FAssign):
    name='posix_file.self-assign'
    def setup(s,X,S):
        a=super().setup(X,S); return [a[1],a[1]]
    def check_exit(s,X,S0,T,a,ret):
        o=OFF['file.fd_'][0]
        X.prove(T,eq(X.rd(T,a[0],4,o),X.rd(S0,a[0],4,o),32),'ensures self-move keeps the handle'); X.prove(T,len(T.g['kclosed'])==0,'ensures nothing closed')
class FOpenErr(F): pass
def v(cls,**kw):
    o=cls()
    for k,x in kw.items(): setattr(o,k,x)
    if 'mode' in kw and isinstance(kw['mode'],int): o.name+=f'({MODES[kw["mode"]]})'
    return o
CONTRACTS=[FRead(),FWrite(),FSize(),FTrunc(),FSync(),FOpen(),FCreate(),FErase(),FClose(),FDtor(),FMove(),FAssign()]
PROOFS=[FRead(),FWrite(),FWriteApp(),FSize(),FTrunc(),FSync(),FErase(),FClose(),FDtor(),FMove(),FAssign(),FSelf()]
for m in range(4): PROOFS+=[v(FOpen,mode=m),v(FCreate,mode=m)]

# ------------------------------------------------ assumed system call contracts
def errnoptr(S):
    if '@errno' not in S.mem: S.new('@errno',4)
    return Ptr('@errno',0)
def seterr(X,S):
    e=fresh('errno',32); X.assume(S,And(ne(e,0,32),ult(e,4096,32))); X.wr(S,errnoptr(S),0,4,e); return e
def own(X,S,fd): X.prove(S,And(eq(fd,S.g['kfd'],32),ne(fd,0xffffffff,32)),'system call on the file\'s own open descriptor')
@h(r'^pread(64)?$')
def _pread(X,S,a,i,dem):
    "pread: -1 with errno, or 0<=n<=count bytes of the file at offset; 0 only at or past end of file (or count 0)"
    fd,buf,cnt,off=a; own(X,S,fd); k=S.g['kino']; z=isize(S,k)
    X.prove(S,And(ule(cnt,(1<<63)-1),ule(off,(1<<63)-1)),'pread arguments in range')
    X.chk(S,buf,cnt,'pread buffer')
    T=S.copy(); seterr(X,T)
    n=fresh('nread'); X.assume(S,And(ule(n,cnt),Or(eq(n,0),And(ule(off,z),ule(n,sub(z,off)))),Implies(eq(n,0),Or(eq(cnt,0),uge(off,z)))))
    S.mem[buf.r]=MM.copy(X.region(S,buf),buf.o,n,imem(S,k),off); X.onwrite(S,buf,n)
    return Alt([(T,(1<<64)-1),(S,n)])
@h(r'^pwrite(64)?$')
def _pwrite(X,S,a,i,dem):
    "pwrite: -1 with errno, or 0<=n<=count bytes stored at offset (at end of file under O_APPEND)"
    fd,buf,cnt,off=a; own(X,S,fd); k=S.g['kino']
    X.prove(S,And(ule(cnt,(1<<63)-1),ule(off,(1<<63)-1)),'pwrite arguments in range')
    X.chk(S,buf,cnt,'pwrite buffer')
    T=S.copy(); seterr(X,T)
    n=fresh('nwritten'); X.assume(S,ule(n,cnt))
    if S.g['kappend']: off=isize(S,k)
    z=isize(S,k); e=add(off,n)
    S.g[('imem',k)]=MM.copy(imem(S,k),off,n,X.region(S,buf),buf.o)
    S.g[('isize',k)]=If(Or(eq(n,0),ule(e,z)),z,e); S.g[('idirty',k)]=True
    return Alt([(T,(1<<64)-1),(S,n)])
@h(r'^fsync$|^fdatasync$')
def _fsync(X,S,a,i,dem):
    "fsync: 0 and everything written so far is durable, or -1 with errno"
    own(X,S,a[0]); T=S.copy(); seterr(X,T)
    S.g[('idirty',S.g['kino'])]=False
    return Alt([(T,0xffffffff),(S,0)])
@h(r'^ftruncate(64)?$')
def _ftr(X,S,a,i,dem):
    "ftruncate: 0 and the size is exactly length, or -1 with errno"
    own(X,S,a[0]); T=S.copy(); seterr(X,T); do_trunc(X,S,S.g['kino'],a[1])
    return Alt([(T,0xffffffff),(S,0)])
@h(r'^fstat(64)?$')
def _fstat(X,S,a,i,dem):
    "fstat: 0 with st_size the file size, or -1 with errno"
    own(X,S,a[0]); X.chk(S,a[1],144,'fstat buffer'); T=S.copy(); seterr(X,T)
    S.mem[a[1].r]=MM.copy(X.region(S,a[1]),a[1].o,144,MM.Base('stat','obj'),0)
    X.wr(S,a[1],48,8,isize(S,S.g['kino']))
    return Alt([(T,0xffffffff),(S,0)])
@h(r'^open(64)?$')
def _open(X,S,a,i,dem):
    "open: -1 with errno (ENOENT iff absent without O_CREAT, EEXIST iff present with O_CREAT|O_EXCL), or a new descriptor"
    k=('p',)+tuple(str(x) for x in S.g[('cstr',a[0].r)]); fl=a[1]
    if not isinstance(fl,int): raise Unsupported('symbolic open flags')
    X.prove(S,S.g.get('sysopen') is None,'opens once')
    cre=bool(fl&0o100); exc=bool(fl&0o200); ex=S.g[('iexist',k)]; out=[]
    T=S.copy(); e=seterr(X,T)
    if not cre: X.assume(T,Iff(eq(e,2,32),Not(ex)))
    elif exc: X.assume(T,Iff(eq(e,17,32),ex))
    out.append((T,0xffffffff))
    if cre and len(a)<3: X.prove(S,False,'O_CREAT needs a mode')
    for was in(True,False):
        if was and cre and exc: continue
        if not was and not cre: continue
        U=S.copy()
        c=ex if was else Not(ex)
        if not X.feasible(U,c): continue
        X.assume(U,c); fd=fresh('fd',32); X.assume(U,ule(fd,0x7fffffff,32))
        U.g['sysopen']=(fd,fl); U.g['kfd']=fd
        if not was: U.g[('iexist',k)]=True; U.g[('isize',k)]=0; U.g[('imem',k)]=MM.Fill0(0)
        elif fl&0o1000: U.g[('isize',k)]=0
        out.append((U,fd))
    return Alt(out)
@h(r'^posix_fadvise(64)?$')
def _fadv(X,S,a,i,dem):
    "posix_fadvise: 0 or one of the documented error numbers EBADF, EINVAL, ESPIPE; does not set errno; 0 on a regular file just created"
    own(X,S,a[0])
    if S.g['sysopen'][1]&0o300==0o300: return 0
    T=S.copy()
    r=fresh('fadv',32); X.assume(T,Or(*[eq(r,e,32) for e in(9,22,29)])); return Alt([(T,r),(S,0)])
@h(r'^close$')
def _close(X,S,a,i,dem):
    S.g['kclosed']=S.g['kclosed']+(a[0],)
    X.prove(S,ne(a[0],0xffffffff,32),'closes only a valid descriptor')
    r=fresh('close',32); return r
@h(r'^unlink$')
def _unlink(X,S,a,i,dem):
    "unlink: 0 and the path is gone, or -1 with errno (ENOENT iff absent)"
    k=('p',)+tuple(str(x) for x in S.g[('cstr',a[0].r)]); ex=S.g[('iexist',k)]
    T=S.copy(); e=seterr(X,T); X.assume(T,Iff(eq(e,2,32),Not(ex))); out=[(T,0xffffffff)]
    if X.feasible(S,ex): X.assume(S,ex); S.g[('iexist',k)]=False; out.append((S,0))
    return Alt(out)
