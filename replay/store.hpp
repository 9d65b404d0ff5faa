// The real store, recover, rekey and create templates over the in-memory file
// system, checked against a map and against an independent parser of the files.
#pragma once
#include "memfile.hpp"
#include <thread>
#include <condition_variable>
namespace nudb{ namespace test{ class context_test { public:
 template<class S> static auto& mx(S& s){ return s.m_; }
 template<class S> static auto& ux(S& s){ return s.u_; }
 static void ins(context& c,detail::store_base& b){ c.insert(b); }
 static void era(context& c,detail::store_base& b){ c.erase(b); }
}; }}
namespace st {
using namespace nudb; using namespace mf; using acc=nudb::test::context_test;
static unsigned g_nh=0;          // number of distinct hashes (0: the real hash)
struct wh { u64 salt; explicit wh(u64 s):salt(s){} u64 operator()(void const* p,std::size_t n) const { xxhasher x(salt); u64 h=x(p,n); if(!g_nh) return h; u64 z=((h>>16)%g_nh+1)*0x9e3779b97f4a7c15ull; return z^(z>>29); } };
using S=basic_store<wh,memfile>; using model=std::map<img,img>;
inline u64 be(u8 const* p,int n){ u64 v=0; for(int i=0;i<n;++i) v=v<<8|p[i]; return v; }
inline void pb(u8* p,u64 v,int n){ for(int i=n;i--;){ p[i]=(u8)v; v>>=8; } }
inline u64 hsh(u8 const* k,size_t n,u64 salt){ return wh(salt)(k,n)>>16; }
inline u64 addr(u64 h,u64 nb){ u64 m=1; while(m<nb) m*=2; u64 n=h%m; if(n>=nb) n-=m/2; return n; }
struct rec{ u64 off; img key,val; };
struct dbv { u64 ks=0,bs=0,cap=0,nb=0,salt=0; model m; std::vector<rec> recs; std::map<u64,u64> spills; u64 chains=0; };
struct bad{ std::string why; }; static bool g_soft=false,g_lenient=false;   // soft: throw instead of failing; lenient: only what verify promises
#define PC(c,...) do{ if(!(c)){ if(g_soft){ char pcb[300]; snprintf(pcb,sizeof pcb,__VA_ARGS__); throw bad{pcb}; } fail(__VA_ARGS__);} }while(0)
// data file: header, then records
inline void parsedat(dbv& r,img const& d,const char* w){
 PC(d.size()>=92,"%s: data file of %zu bytes has no header",w,d.size()); PC(!memcmp(d.data(),"nudb.dat",8)&&be(&d[8],2)==2,"%s: data file header broken",w); r.ks=be(&d[26],2);
 size_t p=92; while(p<d.size()){ PC(p+6<=d.size(),"%s: data file ends inside a record at %zu of %zu",w,p,d.size()); u64 z=be(&d[p],6);
  if(z){ PC(z<=d.size()&&p+6+r.ks+z<=d.size(),"%s: data record at %zu reaches past the end",w,p); rec x{p,img(&d[p+6],&d[p+6]+r.ks),img(&d[p+6]+r.ks,&d[p+6]+r.ks+z)}; PC(g_lenient||!r.m.count(x.key),"%s: a key is stored twice (second record at %zu)",w,p); r.m[x.key]=x.val; r.recs.push_back(x); p+=6+r.ks+z; }
  else { PC(p+8<=d.size(),"%s: data file ends inside a spill header at %zu",w,p); u64 q=be(&d[p+6],2); PC(p+8+q<=d.size()&&q>=8&&(g_lenient||q==8+18*be(&d[p+8],2)),"%s: spill record at %zu is malformed",w,p); r.spills[p+8]=q; p+=8+q; } } }
// the whole database: every record is indexed exactly once, in the chain of the bucket its hash addresses
inline dbv parse(img const& d,img const& k,const char* w){
 dbv r; parsedat(r,d,w); PC(k.size()>=104,"%s: key file of %zu bytes has no header",w,k.size()); PC(!memcmp(k.data(),"nudb.key",8)&&be(&k[8],2)==2,"%s: key file header broken",w); PC(be(&k[26],2)==r.ks,"%s: key sizes differ",w);
 r.salt=be(&k[28],8); r.bs=be(&k[44],2); r.cap=(r.bs-8)/18; PC(k.size()%r.bs==0,"%s: key file of %zu bytes is not whole blocks of %llu",w,k.size(),(unsigned long long)r.bs); r.nb=k.size()/r.bs-1;
 std::map<u64,rec const*> at; for(auto const& x:r.recs) at[x.off]=&x; std::set<u64> seen,sp;
 for(u64 n=0;n<r.nb;++n){ u8 const* b=&k[(n+1)*r.bs]; u64 lim=r.bs; bool first=true;
  for(;;){ u64 c=be(b,2),s=be(b+2,6); PC(c<=r.cap&&8+18*c<=lim,"%s: bucket %llu has count %llu",w,(unsigned long long)n,(unsigned long long)c); u64 last=0;
   for(u64 i=0;i<c;++i){ u8 const* e=b+8+18*i; u64 o=be(e,6),z=be(e+6,6),h=be(e+12,6); PC(g_lenient||h>=last,"%s: bucket %llu is not sorted",w,(unsigned long long)n); last=h; auto f=at.find(o); PC(f!=at.end(),"%s: bucket %llu refers to offset %llu where no record starts",w,(unsigned long long)n,(unsigned long long)o); PC(seen.insert(o).second,"%s: record at %llu is indexed twice (bucket %llu)",w,(unsigned long long)o,(unsigned long long)n); PC(f->second->val.size()==z,"%s: entry for %llu has size %llu, the record %zu",w,(unsigned long long)o,(unsigned long long)z,f->second->val.size()); u64 hh=hsh(f->second->key.data(),r.ks,r.salt); PC(h==hh,"%s: entry for %llu has a wrong hash",w,(unsigned long long)o); PC(addr(h,r.nb)==n,"%s: record at %llu is indexed in bucket %llu but its hash addresses %llu of %llu",w,(unsigned long long)o,(unsigned long long)n,(unsigned long long)addr(h,r.nb),(unsigned long long)r.nb); }
   if(first&&!g_lenient) for(u64 i=8+18*c;i<r.bs;++i) PC(!b[i],"%s: bucket %llu is not zero padded",w,(unsigned long long)n);
   first=false; if(!s) break; ++r.chains; PC(r.spills.count(s)||g_lenient,"%s: bucket %llu points at %llu where no spill record is",w,(unsigned long long)n,(unsigned long long)s); PC(sp.insert(s).second||g_lenient,"%s: spill record at %llu is linked twice",w,(unsigned long long)s); PC(r.chains<100000,"%s: endless chain",w); if(!r.spills.count(s)){ PC(s+8<=d.size()&&s+8+18*be(&d[s],2)<=d.size(),"%s: spill at %llu past the end",w,(unsigned long long)s); lim=r.bs; } else lim=r.spills[s]; b=&d[s]; } }
 PC(seen.size()==r.recs.size(),"%s: %zu of %zu records are indexed",w,seen.size(),r.recs.size()); return r; }
inline void samemodel(model const& a,model const& b,const char* w){ if(a==b) return; for(auto const& x:b){ auto f=a.find(x.first); CHECK(f!=a.end(),"%s: a key is missing (%zu stored, %zu expected)",w,a.size(),b.size()); CHECK(f->second==x.second,"%s: a value differs",w); } fail("%s: %zu keys stored, %zu expected",w,a.size(),b.size()); }
// crash images -------------------------------------------------------------
using snap=std::map<std::string,node>;
inline snap takesnap(){ std::lock_guard<std::recursive_mutex> l(g.m); snap r; for(auto& x:g.f) r[x.first]=*x.second; return r; }
inline img logimg(node const& n,int how){ img c=n.dur; size_t j= how==0?0: how==1?n.pend.size():rnd(n.pend.size()+1); for(size_t i=0;i<j;++i) apply(c,n.pend[i]); if(how==3&&j<n.pend.size()&&!n.pend[j].trunc){ wop t=n.pend[j]; t.data.resize(rnd(t.data.size()+1)); apply(c,t);} return c; }
inline void crash(snap const& s,int how){ g.f.clear(); for(auto const& x:s){ int h=how>3?(int)rnd(4):how; g.put(x.first,x.first=="l"?logimg(x.second,h):crashimg(x.second,h)); } }
struct hookguard { std::function<void(opn const&)> old; hookguard(std::function<void(opn const&)> h){ old=g.hook; g.hook=h; } ~hookguard(){ g.hook=old; } };
static long g_cases=0,g_distinct=0; static std::set<std::string> g_seen;
inline void did(std::string const& s){ ++g_cases; if(g_seen.size()<200000&&g_seen.insert(s).second) ++g_distinct; }
inline void report(){ printf("CASES %ld DISTINCT %ld\n",g_cases,g_distinct); int k=0; for(auto const& x:g_seen){ if(k++>5) break; printf("SAMPLE %s\n",x.c_str()); } }
inline void onalarm(int){ dumpcase("an operation never finishes"); _exit(10); }
inline void watchdog(unsigned s=150){ signal(SIGALRM,onalarm); alarm(s); }
const error_code EIOC{EIO,boost::system::system_category()};
// recovery, interrupted by faults and crashes, of the files now in g; returns the contents
inline dbv recov(model const& o,model const& n,bool oldok,bool newok,int depth,const char* w){
 for(int tries=0;;++tries){ CHECK(tries<60,"%s: recovery does not succeed",w); bool flt=tries<20&&chance(2),cr=depth>0&&chance(2); snap sn; bool have=false; long at=(long)rnd(24),cnt=0; bool hadlog=g.has("l");
  hookguard hg([&](opn const&){ if(cr&&cnt++==at&&!have){ sn=takesnap(); have=true; } }); auto before=takesnap(); if(flt) g.arm((long)rnd(24)); error_code ec; recover<wh,memfile>("d","k","l",ec); bool failed=g.failed; g.disarm();
  if(flt&&failed){ CHECK(ec,"%s: an I/O error during recovery is not reported",w); }
  if(ec){ CHECK(failed,"%s: recovery fails: %s",w,ec.message().c_str()); if(!have){ if(chance(2)) crash(takesnap(),4); continue; } }
  if(have&&chance(2)){ logcase("  crash during recovery at operation %ld",at); g.hook=nullptr; crash(sn,4); return recov(o,n,oldok,newok,depth-1,w); }
  if(ec) continue;
  (void)hadlog; CHECK(!g.has("l"),"%s: the log remains after recovery",w); for(auto f:{"d","k"}){ CHECK(g.has(f),"%s: file %s is gone",w,f); auto& nd=*g.f[f]; CHECK(nd.pend.empty(),"%s: %s is not durable when the log is discarded",w,f); }
  break; }
 g.hook=nullptr; dbv r=parse(g.get("d"),g.get("k"),w); bool io=oldok&&r.m==o,in=newok&&r.m==n; if(!io&&!in){ if(!oldok) samemodel(r.m,n,w); else if(!newok) samemodel(r.m,o,w); else samemodel(r.m,r.m.size()==n.size()?n:o,w); } return r; }
// the write-ahead rule, checked at each operation of a commit ---------------
struct monitor { img d0,k0; u64 bs=0; bool on=false; std::thread::id tid;
 void start(){ d0=g.get("d"); k0=g.get("k"); bs=be(&k0[44],2); on=true; tid=std::this_thread::get_id(); }
 void op(opn const& x){ if(!on||tid!=std::this_thread::get_id()) return; std::lock_guard<std::recursive_mutex> l(g.m);
  bool w=x.op=="write",t=x.op=="trunc";
  if((w&&x.n&&(x.path=="d"||x.path=="k"))||(t&&(x.path=="d"||x.path=="k"))){ CHECK(g.has("l"),"%s of %s while there is no log",x.op.c_str(),x.path.c_str()); auto const& L=g.f["l"]->dur; CHECK(L.size()>=62,"%s of %s before the log header is durable",x.op.c_str(),x.path.c_str()); CHECK(!memcmp(L.data(),"nudb.log",8)&&be(&L[46],8)==k0.size()&&be(&L[54],8)==d0.size(),"the durable log records the sizes %llu,%llu, the files have %zu,%zu",(unsigned long long)be(&L[46],8),(unsigned long long)be(&L[54],8),k0.size(),d0.size());
   CHECK(!t,"commit truncates %s",x.path.c_str());
   if(x.path=="d") CHECK(x.off>=d0.size(),"commit overwrites the data file at %llu",(unsigned long long)x.off);
   else { std::map<u64,img> lg; size_t p=62; while(p+16<=L.size()){ u64 i=be(&L[p],8),c=be(&L[p+8],2); if(p+16+18*c>L.size()) break; lg.emplace(i,img(&L[p+8],&L[p+8]+8+18*c)); p+=16+18*c; }
    for(u64 b=x.off/bs;b*bs<x.off+x.n&&b*bs<k0.size();++b){ if(b==0) fail("commit overwrites the key file header"); auto f=lg.find(b-1); CHECK(f!=lg.end(),"bucket %llu is overwritten before its contents are durable in the log",(unsigned long long)(b-1)); CHECK(!memcmp(f->second.data(),&k0[b*bs],f->second.size()),"the log holds a different image of bucket %llu",(unsigned long long)(b-1)); } } }
  if((t||x.op=="erase")&&x.path=="l"){ for(auto f:{"d","k"}) CHECK(g.f[f]->pend.empty(),"the log is discarded while %s is not durable",f); }
  if(x.op=="erase") CHECK(x.path=="l","commit erases %s",x.path.c_str()); } };
struct cfg { u64 ks,bs; float lf; unsigned nh; u64 salt,appnum,uid; u64 cap() const { return (bs-8)/18; } };
inline cfg mkcfg(){ cfg c; c.ks=chance(5)?1+rnd(3):chance(4)?32:4+rnd(20); c.bs=chance(2)?104:104+rnd(chance(4)?3000:200); c.lf= chance(3)?0.9f:0.1f+0.8f*(float)rnd(1000)/1000; c.nh=chance(3)?0:chance(2)?1+(unsigned)rnd(4):5+(unsigned)rnd(200); c.salt=rnd(); c.appnum=rnd(); c.uid=rnd(); return c; }
struct world { cfg c; context ctx; std::unique_ptr<S> s; model com,pnd; std::vector<img> pool; u64 thresh=0,frac=0,nb=0; monitor mon; std::string sig; bool big=false;
 std::recursive_mutex mm;
 bool has(img const& k){ return com.count(k)||pnd.count(k); }
 explicit world(cfg const& x):c(x){ g_nh=c.nh; g.f.clear(); g.hook=nullptr; g.disarm(); error_code ec; create<wh,memfile>("d","k","l",c.appnum,c.uid,c.salt,c.ks,c.bs,c.lf,ec); CHECK(!ec,"create: %s",ec.message().c_str()); g.f.erase("l"); logcase("key size %llu, block %llu, load %g, %u hashes",(unsigned long long)c.ks,(unsigned long long)c.bs,c.lf,c.nh); reopen(); }
 void setthr(){ u64 lf=be(&g.get("k")[46],2); thresh=std::max<u64>(65536,lf*c.cap()); frac=thresh/2; nb=g.get("k").size()/c.bs-1; }
 void reopen(){ s.reset(new S(ctx)); error_code ec; s->open("d","k","l",ec); CHECK(!ec,"open: %s",ec.message().c_str()); CHECK(s->is_open()&&s->key_size()==c.ks&&s->block_size()==c.bs&&s->appnum()==c.appnum,"the open store reports wrong parameters"); setthr(); }
 img newkey(){ img k(c.ks); if(!pool.empty()&&chance(3)){ k=pool[rnd(pool.size())]; k[chance(2)?c.ks-1:rnd(c.ks)]^=(u8)(1<<rnd(8)); } else for(auto& b:k) b=(u8)rnd(); return k; }
 img newval(){ u64 n= big&&chance(8)?rnd(40000)+1: chance(20)?rnd(3000)+1:1+rnd(40); return bytes(n); }
 void ins(img const& k,img const& v,error_code* want=nullptr){ bool had=has(k); error_code ec; { Exact kb(k.size()),vb(v.size()); memcpy(kb.p,k.data(),k.size()); memcpy(vb.p,v.data(),v.size()); s->insert(kb.p,vb.p,v.size(),ec); memset(kb.p,0xdd,k.size()); memset(vb.p,0xdd,v.size()); }
  if(want){ *want=ec; if(!ec){ CHECK(!had,"insert of a present key succeeds"); pnd[k]=v; pool.push_back(k); } return; }
  if(had) CHECK(ec==error::key_exists,"insert of a present key: %s",ec.message().c_str()); else { CHECK(!ec,"insert of a new key: %s",ec.message().c_str()); pnd[k]=v; pool.push_back(k); } }
 // n callbacks, value and error of a fetch
 error_code raw(img const& k,int& n,img& v){ error_code ec; Exact kb(k.size()); memcpy(kb.p,k.data(),k.size()); n=0; s->fetch(kb.p,[&](void const* p,std::size_t z){ ++n; v.assign((u8 const*)p,(u8 const*)p+z); },ec); return ec; }
 void get(img const& k){ int n; img v; auto ec=raw(k,n,v); auto f=pnd.find(k); if(f==pnd.end()){ f=com.find(k); if(f==com.end()){ CHECK(ec==error::key_not_found,"fetch of an absent key: %s",ec.message().c_str()); CHECK(!n,"callback for an absent key"); return; } } CHECK(!ec,"fetch of a stored key: %s",ec.message().c_str()); CHECK(n==1,"%d callbacks for a stored key",n); CHECK(v==f->second,"fetch delivers %zu bytes, the value stored has %zu%s",v.size(),f->second.size(),v.size()==f->second.size()?" others":""); }
 img anykey(){ return !pool.empty()&&!chance(4)?pool[rnd(pool.size())]:newkey(); }
 void one(){ if(chance(2)){ img k=anykey(); get(k); } else { img k=chance(4)?anykey():newkey(); ins(k,newval()); } }
 void unlocked(const char* w){ CHECK(acc::mx(*s).try_lock(),"%s leaves the store locked",w); acc::mx(*s).unlock(); CHECK(acc::ux(*s).try_lock(),"%s leaves the insert lock held",w); acc::ux(*s).unlock(); }
 void expectgrow(u64 n){ for(u64 i=0;i<n;++i){ frac+=65536; if(frac>=thresh){ frac-=thresh; ++nb; } } }
 // after a successful commit of `done`
 void settled(model const& done,const char* w){ expectgrow(done.size()); for(auto const& x:done) com[x.first]=x.second; dbv r=parse(g.get("d"),g.get("k"),w); samemodel(r.m,com,w); CHECK(r.nb==nb,"%s: %llu buckets, the load threshold prescribes %llu",w,(unsigned long long)r.nb,(unsigned long long)nb); for(auto f:{"d","k"}) CHECK(g.f[f]->pend.empty(),"%s: %s is not durable",w,f); }
 // flush with reads and inserts at its file operations
 bool inhook=false;
 void flush(bool busy){ model done=pnd; bool m=chance(2); auto me=std::this_thread::get_id(); if(pnd.empty()){ ctx.flush(); return; } mon.start(); model late; bool infl=true; (void)infl;
  { hookguard hg([&](opn const& x){ if(inhook||std::this_thread::get_id()!=me) return; if(m||true) mon.op(x); if(busy&&chance(6)){ inhook=true; one(); inhook=false; } }); ctx.flush(); } mon.on=false;
  for(auto const& x:done) pnd.erase(x.first); settled(done,"after a commit"); CHECK(g.get("l").empty(),"the log is not empty after a commit"); unlocked("a commit"); }
 void closeit(){ model done=pnd; error_code ec; mon.start(); { hookguard hg([&](opn const& x){ mon.op(x); }); s->close(ec); } mon.on=false; CHECK(!ec,"close: %s",ec.message().c_str()); CHECK(!s->is_open(),"open after close"); CHECK(!g.has("l"),"the log remains after a clean close"); pnd.clear(); settled(done,"after close"); { long c0=g.count; g.record=true; g.ops.clear(); s.reset(); g.record=false; CHECK(g.ops.empty(),"file operations after close"); (void)c0; } }
};
// ---- scenarios ------------------------------------------------------------
inline u64 amount(cfg const& c){ return chance(3)?1+rnd(4):1+rnd(c.bs>400?150:60); }
// operations against a map, with reads and inserts during commits
inline void ops_case(bool busy=true,bool faults=true){ newcase(); world w(mkcfg()); w.big=chance(4); int rounds=1+(int)rnd(6);
 for(int r=0;r<rounds;++r){ u64 n=amount(w.c); logcase("round %d: %llu operations",r,(unsigned long long)n);
  for(u64 i=0;i<n;++i){ w.one(); if(faults&&chance(5)&&!w.pool.empty()){ img k=w.anykey(); long at=(long)rnd(5); if(chance(2)){ g.arm(at); int c; img v; auto ec=w.raw(k,c,v); bool f=g.failed; g.disarm(); if(f){ CHECK(ec==EIOC,"a read error during fetch is reported as: %s",ec.message().c_str()); CHECK(!c,"callback although a read failed"); } else w.get(k); w.unlocked("fetch"); }
    else { if(chance(2)) k=w.newkey(); bool had=w.has(k); img v=w.newval(); g.arm(at); error_code ec; w.ins(k,v,&ec); bool f=g.failed; g.disarm(); if(f) CHECK(ec==EIOC,"a read error during insert is reported as: %s",ec.message().c_str()); else CHECK(had?ec==error::key_exists:!ec,"insert: %s",ec.message().c_str()); w.unlocked("insert"); } } }
  w.flush(busy&&!chance(3)); for(int i=0;i<12;++i) w.get(w.anykey());
  if(chance(3)){ w.closeit(); w.reopen(); logcase("closed and reopened"); } }
 w.closeit(); dbv v=parse(g.get("d"),g.get("k"),"at the end"); if(chance(2)){ w.reopen(); int q=0; for(auto const& x:w.com){ w.get(x.first); if(++q>60) break; } error_code ec; w.s->close(ec); CHECK(!ec,"close of an idle store: %s",ec.message().c_str()); CHECK(!g.has("l"),"log left by an idle store"); }
 char b[128]; snprintf(b,sizeof b,"ops keysize %llu block %llu hashes %u: %zu keys %llu buckets %llu spills",(unsigned long long)w.c.ks,(unsigned long long)w.c.bs,w.c.nh,w.com.size(),(unsigned long long)v.nb,(unsigned long long)v.chains); did(b); }
// one commit with crashes at its operations, or an I/O error at one of them
inline void commit_case(bool crashes,bool faults){ newcase(); world w(mkcfg()); int pre=(int)rnd(4); for(int r=0;r<pre;++r){ u64 n=amount(w.c); for(u64 i=0;i<n;++i) w.ins(w.newkey().empty()?img():[&]{ img k; do k=w.newkey(); while(w.has(k)&&w.c.ks>2); return k; }(),w.newval()); w.flush(false); }
 u64 n=amount(w.c); for(u64 i=0;i<n;++i){ img k=w.newkey(); if(w.has(k)) continue; w.ins(k,w.newval()); } if(w.pnd.empty()) return;
 model o=w.com,nw=w.com; for(auto const& x:w.pnd) nw[x.first]=x.second; bool viaclose=chance(3); char b[160];
 if(faults&&(!crashes||chance(2))){ long at=(long)rnd(chance(2)?12:40); logcase("error at operation %ld of %s of %zu inserts over %zu keys",at,viaclose?"close":"flush",w.pnd.size(),o.size()); error_code ce; snap pre0=takesnap(); w.mon.start(); { hookguard hg([&](opn const& x){ w.mon.op(x); }); g.arm(at,chance(3)?1000000:1); if(viaclose) w.s->close(ce); else w.ctx.flush(); } bool f=g.failed; g.disarm(); w.mon.on=false;
  bool eraseonly=false;
  if(!f){ if(viaclose){ CHECK(!ce,"close: %s",ce.message().c_str()); parse(g.get("d"),g.get("k"),"after close"); samemodel(parse(g.get("d"),g.get("k"),"close").m,nw,"after close"); } else { model d=w.pnd; w.pnd.clear(); w.settled(d,"after a commit"); error_code ec; w.s->close(ec); CHECK(!ec,"close: %s",ec.message().c_str()); } }
  else { if(viaclose){ CHECK(ce,"close does not report the I/O error"); eraseonly=!g.f["d"]->pend.size()&&!g.f["k"]->pend.size(); }
   else { // sticky
    g.record=true; g.ops.clear(); for(int i=0;i<4;++i){ int c; img v; img k=i<2?w.newkey():w.anykey(); auto ec=w.raw(k,c,v); CHECK(ec==EIOC,"fetch after a failed commit: %s",ec.message().c_str()); CHECK(!c,"callback after a failed commit"); error_code ie; img k2=w.newkey(),vv=w.newval(); w.s->insert(k2.data(),vv.data(),vv.size(),ie); CHECK(ie==EIOC,"insert after a failed commit: %s",ie.message().c_str()); } g.record=false; CHECK(g.ops.empty(),"file operation %s on %s after a failed commit",g.ops.empty()?"":g.ops[0].op.c_str(),g.ops.empty()?"":g.ops[0].path.c_str());
    CHECK(w.s->is_open(),"closed by a failed commit"); error_code ec; g.record=true; g.ops.clear(); bool again=chance(4)&&false; (void)again; w.s->close(ec); g.record=false; CHECK(ec,"close after a failed commit reports no error"); for(auto const& x:g.ops) CHECK(x.op!="trunc"&&!(x.op=="erase"&&x.path=="l"),"%s of %s after a failed commit",x.op.c_str(),x.path.c_str()); CHECK(g.has("l"),"the log is discarded after a failed commit"); }
   CHECK(!w.s->is_open(),"open after close"); if(g.has("l")) (void)eraseonly; }
  g.record=true; g.ops.clear(); w.s.reset(); g.record=false; CHECK(g.ops.empty(),"%s of %s after close",g.ops[0].op.c_str(),g.ops[0].path.c_str());
  if(chance(3)) crash(takesnap(),4); dbv r=recov(o,nw,f,true,2,"after a failed commit"); snprintf(b,sizeof b,"error at op %ld of %s, %zu+%zu keys: %s",at,viaclose?"close":"flush",o.size(),nw.size()-o.size(),!f?"not reached":r.m==nw?"committed":"rolled back"); did(b); (void)pre0;
  w.com=r.m; w.pnd.clear(); w.reopen(); for(int i=0;i<10;++i) w.get(w.anykey()); for(int i=0;i<6;++i) w.one(); w.closeit(); return; }
 std::vector<std::pair<long,snap>> sn; std::set<long> at; for(int i=0;i<6;++i) at.insert((long)rnd(chance(2)?10:40)); long cnt=0; at.insert(0); error_code ce; w.mon.start();
 { hookguard hg([&](opn const& x){ w.mon.op(x); if(at.count(cnt)) sn.push_back({cnt,takesnap()}); ++cnt; }); if(viaclose) w.s->close(ce); else w.ctx.flush(); } w.mon.on=false; CHECK(!ce,"close: %s",ce.message().c_str()); sn.push_back({cnt,takesnap()}); if(!viaclose){ model d=w.pnd; w.pnd.clear(); w.settled(d,"after a commit"); error_code ec; w.s->close(ec); } w.s.reset();
 for(auto const& x:sn) for(int how:{0,1,2,3}){ logcase("crash at operation %ld of %ld of %s, image %d",x.first,cnt,viaclose?"close":"flush",how); crash(x.second,how); bool first=x.first==0,lastt=x.first==cnt; dbv r=recov(o,nw,!lastt,!first,2,"after a crash"); snprintf(b,sizeof b,"crash at op %ld of %ld (%s) image %d, %zu+%zu keys: %s",x.first,cnt,viaclose?"close":"flush",how,o.size(),nw.size()-o.size(),r.m==nw?"committed":"rolled back"); did(b); if(chance(3)){ w.com=r.m; w.pnd.clear(); w.reopen(); for(int i=0;i<6;++i) w.get(w.anykey()); for(int i=0;i<4;++i) w.one(); w.closeit(); } } }
}
