// Buckets in files, the pending pool and caches, readers during commits, the context.
#pragma once
#include "scen.hpp"
#include <nudb/detail/bucket.hpp>
#include <nudb/detail/pool.hpp>
#include <nudb/detail/cache.hpp>
#include <nudb/detail/gentex.hpp>
#include <nudb/detail/bulkio.hpp>
#include <mutex>
namespace st {
using namespace nudb::detail;
struct ent{ u64 o,s,h; };
inline img bimg(std::vector<ent> const& m,u64 spill,u64 size){ img r(size); pb(&r[0],m.size(),2); pb(&r[2],spill,6); for(size_t i=0;i<m.size();++i){ pb(&r[8+18*i],m[i].o,6); pb(&r[14+18*i],m[i].s,6); pb(&r[20+18*i],m[i].h,6);} return r; }
inline std::vector<ent> rndents(u64 n){ std::vector<ent> m; for(u64 i=0;i<n;++i) m.push_back({rnd()&0xffffffffffffull,chance(3)?rnd()&0xffffffffull:rnd(9),chance(3)?rnd(4):rnd()&0xffffffffffffull}); std::stable_sort(m.begin(),m.end(),[](ent const& a,ent const& b){ return a.h<b.h; }); return m; }
// C05 ------------------------------------------------------------------------
inline void bucketio_case(){ newcase(); clearfs(); u64 cap=1+rnd(chance(3)?60:6),bs=8+18*cap+rnd(18); if(bs<104) bs=104; cap=(bs-8)/18; u64 n=chance(3)?cap:rnd(cap+1),sp=chance(2)?0:rnd()&0xffffffffffffull; auto m=rndents(n); Exact x(bs); { img full=bimg(m,sp,bs); for(u64 i=8+18*n;i<bs;++i) full[i]=(u8)rnd(); memcpy(x.p,full.data(),bs); } bucket b(bs,x.p); char s[120]; snprintf(s,sizeof s,"bucket of %llu in block %llu spill %llx",(unsigned long long)n,(unsigned long long)bs,(unsigned long long)sp); logcase("%s",s); img keep(x.p,x.p+8+18*n);
 auto samb=[&](bucket& c,const char* w){ CHECK(c.size()==n&&c.spill()==sp,"%s: count %llu spill %llu, stored %llu %llu",w,(unsigned long long)c.size(),(unsigned long long)c.spill(),(unsigned long long)n,(unsigned long long)sp); for(u64 i=0;i<n;++i){ auto e=c[i]; CHECK(e.offset==m[i].o&&e.size==m[i].s&&e.hash==m[i].h,"%s: entry %llu differs",w,(unsigned long long)i); } CHECK(c.actual_size()==8+18*n&&c.empty()==(n==0)&&c.full()==(n>=cap),"%s: derived values",w); };
 u64 off=rnd(3)*bs; memfile f; error_code ec; g.put("k",bytes(off)); f.open(file_mode::write,"k",ec); b.write(f,off,ec); CHECK(!ec,"write: %s",ec.message().c_str()); CHECK(!memcmp(x.p,keep.data(),keep.size()),"write changes the bucket"); img& kf=g.get("k"); CHECK(kf.size()==off+bs,"write makes %zu bytes, a block is %llu",kf.size()-off,(unsigned long long)bs); img want=bimg(m,sp,bs); CHECK(!memcmp(&kf[off],want.data(),bs),"the block written is not count, spill, entries and zero padding"); kf.resize(kf.size()+rnd(30));
 { Exact y(bs); for(u64 i=0;i<bs;++i) y.p[i]=(u8)rnd(); bucket c(bs,y.p); c.read(f,off,ec); CHECK(!ec,"read: %s",ec.message().c_str()); samb(c,"read back"); }
 { Exact y(8+18*n); ostream os(y.p,8+18*n); b.write(os); CHECK(os.size()==8+18*n,"compact size"); img cw=bimg(m,sp,8+18*n); CHECK(!memcmp(y.p,cw.data(),cw.size()),"the compact form is not exactly the entries in use");
  g.put("c",cw); u64 pre=rnd(40); img z=bytes(pre); z.insert(z.end(),cw.begin(),cw.end()); u64 tail=rnd(40); auto tt=bytes(tail); z.insert(z.end(),tt.begin(),tt.end()); g.put("c",z); memfile cf; cf.open(file_mode::read,"c",ec); bulk_reader<memfile> r(cf,pre,z.size(),1+rnd(200)); Exact y2(bs); bucket c(bs,y2.p); c.read(r,ec); CHECK(!ec,"compact read: %s",ec.message().c_str()); samb(c,"compact read"); CHECK(r.offset()==pre+cw.size(),"compact read leaves the reader at %llu, expected %llu",(unsigned long long)r.offset(),(unsigned long long)(pre+cw.size()));
  Exact y3(bs); bucket c3(bs,y3.p); c3.read(cf,pre,ec); if(!ec) samb(c3,"compact form read from the file"); else { CHECK(ec==error::short_read&&pre+8+18*cap>z.size(),"reading the compact form from a file: %s",ec.message().c_str()); ec={}; }
  // truncated and corrupt forms
  img t=z; t.resize(pre+rnd(cw.size())); g.put("t",t); memfile tf; ec={}; tf.open(file_mode::read,"t",ec); { Exact q(bs); memset(q.p,0,bs); bucket d(bs,q.p); error_code e; d.read(tf,pre,e); CHECK(e==error::short_read,"a bucket cut short is read from a file: %s",e.message().c_str()); } { Exact q(bs); memset(q.p,0,bs); bucket d(bs,q.p); bulk_reader<memfile> r2(tf,pre,t.size(),1+rnd(200)); error_code e; d.read(r2,e); CHECK(e==error::short_read,"a bucket cut short is read from a stream: %s",e.message().c_str()); }
  img bad=bytes(2000+bs*3); u64 cc=chance(2)?cap+1+rnd(3):cap+1+rnd(65535-cap); pb(&bad[0],cc,2); g.put("b",bad); memfile bf; bf.open(file_mode::read,"b",ec); { Exact q(bs); memset(q.p,0,bs); bucket d(bs,q.p); error_code e; d.read(bf,0,e); CHECK(e,"a bucket with count %llu of %llu is accepted from a file",(unsigned long long)cc,(unsigned long long)cap); } { Exact q(bs); memset(q.p,0,bs); bucket d(bs,q.p); bulk_reader<memfile> r2(bf,0,bad.size(),1+rnd(300)); error_code e; d.read(r2,e); CHECK(e,"a bucket with count %llu of %llu is accepted from a stream",(unsigned long long)cc,(unsigned long long)cap); }
  for(int op=0;op<4;++op){ error_code e; Exact q(bs); memset(q.p,0,bs); bucket d(bs,q.p); g.arm((long)rnd(2)); if(op==0) d.read(f,off,e); else if(op==1){ bulk_reader<memfile> r2(cf,pre,z.size(),1+rnd(40)); d.read(r2,e); } else if(op==2) d.read(cf,pre,e); else b.write(f,off,e); bool ff=g.failed; g.disarm(); if(ff) CHECK(e==EIOC,"an I/O error in operation %d is reported as: %s",op,e.message().c_str()); else CHECK(!e||(op==2&&e==error::short_read&&pre+8+18*cap>z.size()),"operation %d: %s",op,e.message().c_str()); } }
 did(s); }
// C06: one overflow ------------------------------------------------------------
inline void spill_case(){ newcase(); clearfs(); u64 cap=5+rnd(6),bs=8+18*cap+rnd(18); if(bs<104) bs=104; cap=(bs-8)/18; u64 n=chance(2)?cap:rnd(cap+1),sp=chance(2)?0:1+rnd(1<<20); auto m=rndents(n); Exact x(bs); img full=bimg(m,sp,bs); memcpy(x.p,full.data(),bs); bucket b(bs,x.p); error_code ec; u64 start=rnd(300); g.put("d",bytes(start)); img d0=g.get("d"); memfile f; f.open(file_mode::append,"d",ec); u64 bsz=1+rnd(400); bulk_writer<memfile> w(f,start,bsz); u64 pre=rnd(200); img junk=bytes(pre); if(pre){ auto os=w.prepare(pre,ec); if(pre) memcpy(os.data(pre),junk.data(),pre); CHECK(!ec,"prepare"); } u64 o0=w.offset(); CHECK(o0==start+pre,"writer at %llu",(unsigned long long)o0); bool flt=chance(3); if(flt) g.arm(0); maybe_spill(b,w,ec); bool ff=g.failed; g.disarm(); char s[100]; snprintf(s,sizeof s,"overflow of %llu/%llu after %llu+%llu bytes, buffer %llu",(unsigned long long)n,(unsigned long long)cap,(unsigned long long)start,(unsigned long long)pre,(unsigned long long)bsz); logcase("%s",s);
 if(ff){ CHECK(ec==EIOC,"an I/O error while spilling is reported as: %s",ec.message().c_str()); did(s); return; } CHECK(!ec,"maybe_spill: %s",ec.message().c_str()); w.flush(ec); CHECK(!ec,"flush"); img const& d=g.get("d"); CHECK((!start||!memcmp(d.data(),d0.data(),start))&&(!pre||!memcmp(&d[start],junk.data(),pre)),"earlier bytes changed");
 if(n<cap){ CHECK(d.size()==start+pre,"a bucket that is not full is spilled"); CHECK(b.size()==n&&b.spill()==sp&&!memcmp(x.p,full.data(),8+18*n),"a bucket that is not full is changed"); }
 else { u64 z=8+18*n; CHECK(d.size()==o0+8+z,"the spill record has %zu bytes, expected %llu",d.size()-o0,(unsigned long long)(8+z)); CHECK(be(&d[o0],6)==0&&be(&d[o0+6],2)==z,"spill record header"); CHECK(!memcmp(&d[o0+8],full.data(),z),"the spill record does not hold the bucket"); CHECK(b.size()==0&&b.spill()==o0+8,"the emptied bucket has %llu entries and points at %llu, the record is at %llu",(unsigned long long)b.size(),(unsigned long long)b.spill(),(unsigned long long)(o0+8)); CHECK(be(x.p,2)==0&&be(x.p+2,6)==o0+8,"stored header of the emptied bucket"); }
 did(s); }
// C10 ------------------------------------------------------------------------
inline void pool_case(){ newcase(); u64 ks=1+rnd(chance(3)?100:8); pool a(ks,"a"),b(ks,"b"); struct pe{ u64 h; img v; }; std::map<img,pe> ma,mb; int n=20+(int)rnd(200); std::vector<img> keys; char s[100]; snprintf(s,sizeof s,"pool key size %llu, %d operations %llu",(unsigned long long)ks,n,(unsigned long long)rnd());
 auto chk=[&](pool& p,std::map<img,pe>& m,const char* w){ CHECK(p.size()==m.size()&&p.empty()==m.empty(),"%s: %zu entries, expected %zu",w,p.size(),m.size()); u64 t=0; for(auto const& e:m) t+=e.second.v.size(); CHECK(p.data_size()==t,"%s: data size %zu, expected %llu",w,p.data_size(),(unsigned long long)t); auto i=m.begin(); std::vector<std::pair<u64,u64>> rg; for(auto const& e:p){ CHECK(i!=m.end(),"%s: too many entries",w); CHECK(!memcmp(e.first.key,i->first.data(),ks),"%s: keys differ or are out of order",w); CHECK(e.first.size==i->second.v.size()&&!memcmp(e.first.data,i->second.v.data(),e.first.size),"%s: value differs",w); CHECK(e.first.hash==i->second.h,"%s: hash differs",w); CHECK((u64)e.first.key%8==0&&(u64)e.first.data%8==0,"%s: misaligned copy",w); rg.push_back({(u64)e.first.key,ks}); rg.push_back({(u64)e.first.data,e.first.size}); ++i; } std::sort(rg.begin(),rg.end()); for(size_t j=1;j<rg.size();++j) CHECK(rg[j-1].first+rg[j-1].second<=rg[j].first,"%s: copies overlap",w);
  for(int q=0;q<6;++q){ img k= keys.empty()||chance(3)?bytes(ks):keys[rnd(keys.size())]; Exact kk(ks); memcpy(kk.p,k.data(),ks); auto f=p.find(kk.p); auto g2=m.find(k); if(g2==m.end()) CHECK(f==p.end(),"%s: an absent key is found",w); else { CHECK(f!=p.end(),"%s: a present key is not found",w); CHECK(f->first.size==g2->second.v.size()&&!memcmp(f->first.data,g2->second.v.data(),f->first.size)&&!memcmp(f->first.key,k.data(),ks)&&f->first.hash==g2->second.h,"%s: find returns another entry",w); } } };
 for(int i=0;i<n;++i){ u64 q=rnd(40); if(q<32){ img k=bytes(ks); if(ks>2&&!keys.empty()&&chance(2)){ k=keys[rnd(keys.size())]; k[rnd(ks)]^=1; } if(ma.count(k)) continue; img v=bytes(1+rnd(chance(10)?5000:40)); u64 h=rnd()>>16; { Exact kb(ks),vb(v.size()); memcpy(kb.p,k.data(),ks); memcpy(vb.p,v.data(),v.size()); a.insert(h,kb.p,vb.p,v.size()); memset(kb.p,0xee,ks); memset(vb.p,0xee,v.size()); } ma[k]={h,v}; keys.push_back(k); }
  else if(q<35){ swap(a,b); std::swap(ma,mb); logcase("swap"); } else if(q==35){ a.clear(); ma.clear(); logcase("clear"); } else if(q==36){ a.periodic_activity(); } else if(q==37){ pool c(std::move(a)); chk(c,ma,"moved"); swap(a,c); } if(chance(12)){ chk(a,ma,"pool"); chk(b,mb,"other pool"); } }
 chk(a,ma,"pool"); chk(b,mb,"other pool"); did(s); }
inline void cache_case(){ newcase(); u64 cap=5+rnd(8),bs=8+18*cap+rnd(18); if(bs<104) bs=104; cap=(bs-8)/18; cache c(8,bs,"c"),d(8,bs,"d"); std::map<u64,img> mc,md; int n=20+(int)rnd(100); char s[100]; snprintf(s,sizeof s,"cache block %llu, %d operations %llu",(unsigned long long)bs,n,(unsigned long long)rnd()); if(chance(2)) c.reserve(rnd(30)+1);
 auto im=[&](bucket b){ img r; std::vector<ent> m; for(u64 i=0;i<b.size();++i){ auto e=b[i]; m.push_back({e.offset,e.size,e.hash}); } return bimg(m,b.spill(),8+18*b.size()); };
 auto chk=[&](cache& x,std::map<u64,img>& m,const char* w){ CHECK(x.size()==m.size()&&x.empty()==m.empty(),"%s: %zu buckets, expected %zu",w,x.size(),m.size()); std::set<u64> seen; for(auto const& e:x){ CHECK(m.count(e.first)&&seen.insert(e.first).second,"%s: bucket number %llu",w,(unsigned long long)e.first); CHECK(im(e.second)==m[e.first],"%s: bucket %llu differs from the one stored",w,(unsigned long long)e.first); CHECK(e.second.block_size()==bs,"block size"); } CHECK(seen.size()==m.size(),"%s: iteration finds %zu of %zu",w,seen.size(),m.size()); for(int i=0;i<6;++i){ u64 k=rnd(40); auto f=x.find(k); CHECK((f!=x.end())==(m.count(k)!=0),"%s: find(%llu)",w,(unsigned long long)k); if(f!=x.end()){ CHECK(f->first==k&&im(f->second)==m[k],"%s: find returns another bucket",w); } } };
 for(int i=0;i<n;++i){ u64 k=rnd(40),q=rnd(20); if(q<8){ if(mc.count(k)) continue; auto m=rndents(rnd(cap+1)); u64 sp=rnd(1<<20); Exact x(bs); img f=bimg(m,sp,bs); memcpy(x.p,f.data(),bs); bucket b(bs,x.p); auto it=c.insert(k,b); CHECK(it->first==k,"insert"); memset(x.p,0xee,bs); mc[k]=bimg(m,sp,8+18*m.size()); CHECK(im(it->second)==mc[k],"insert returns another bucket"); }
  else if(q<11){ if(mc.count(k)) continue; bucket b=c.create(k); CHECK(b.size()==0&&b.spill()==0&&b.block_size()==bs,"create"); mc[k]=bimg({},0,8); }
  else if(q<17){ auto f=c.find(k); if(f==c.end()) continue; bucket b=f->second; if(b.size()<cap&&chance(3)<1){ b.insert(rnd(100),rnd(100),rnd(100)); } else if(b.size()&&chance(2)) b.erase(rnd(b.size())); else b.spill(rnd(1000)); mc[k]=im(b); bucket b2=c.find(k)->second; CHECK(im(b2)==mc[k],"a change to a cached bucket is not seen"); }
  else if(q==17){ swap(c,d); std::swap(mc,md); } else if(q==18&&chance(4)){ c.clear(); mc.clear(); } else if(q==19) { c.periodic_activity(); } if(chance(8)){ chk(c,mc,"cache"); chk(d,md,"other cache"); } }
 chk(c,mc,"cache"); chk(d,md,"other cache"); did(s); }
inline void arena_case(){ newcase(); arena a("x"),b("y"); if(chance(2)) a.hint(rnd(4000)); std::vector<std::tuple<u8*,size_t,u8>> la,lb; int n=50+(int)rnd(300); for(int i=0;i<n;++i){ u64 q=rnd(60); if(q<50){ size_t z=1+rnd(chance(8)?9000:60); u8* p=a.alloc(z); CHECK(p&&((u64)p%8)==0,"allocation of %zu is misaligned",z); u8 f=(u8)rnd(); memset(p,f,z); la.emplace_back(p,z,f); } else if(q<56){ swap(a,b); std::swap(la,lb); } else if(q==56){ a.clear(); la.clear(); } else if(q==57){ a.periodic_activity(); } else if(q==58) a.hint(rnd(5000)); else { arena c(std::move(a)); swap(a,c); }
  if(chance(20)||i==n-1) for(auto* l:{&la,&lb}) for(auto const& e:*l) for(size_t j=0;j<std::get<1>(e);++j) CHECK(std::get<0>(e)[j]==std::get<2>(e),"an allocation of %zu bytes is overwritten by another",std::get<1>(e)); } did("arena "+std::to_string(n)+" "+std::to_string(g_cases)); }
// C21 ------------------------------------------------------------------------
inline void gentex_case(){ newcase(); gentex g2; std::vector<std::pair<size_t,int>> held; int era=0; std::string seq; int n=10+(int)rnd(60); std::unique_ptr<std::thread> fin; std::atomic<int> done{0}; for(int i=0;i<n;++i){ u64 q=rnd(12); if(q<5){ held.push_back({g2.lock_gen(),era}); seq+='L'; } else if(q<9){ if(held.empty()) continue; size_t k=rnd(held.size()); g2.unlock_gen(held[k].first); held.erase(held.begin()+k); seq+='U'; } else { g2.start(); ++era; seq+='S'; bool old=false; for(auto const& h:held) if(h.second<era) old=true; logcase("%s%s",seq.c_str(),old?" finish must wait":" finish must not wait"); done=0; std::thread t([&]{ g2.finish(); done=1; }); if(old){ for(int w=0;w<3;++w){ std::this_thread::yield(); } if(chance(4)) std::this_thread::sleep_for(std::chrono::milliseconds(2)); CHECK(!done,"finish returns while an earlier reader is registered"); int more=(int)rnd(3); for(int z=0;z<more;++z) held.push_back({g2.lock_gen(),era}); // later readers do not matter
   for(size_t k=held.size();k-->0;) if(held[k].second<era){ bool last=true; for(size_t j=0;j<held.size();++j) if(j!=k&&held[j].second<era) last=false; if(last){ if(chance(3)) std::this_thread::sleep_for(std::chrono::milliseconds(1)); CHECK(!done,"finish returns while an earlier reader is registered"); } g2.unlock_gen(held[k].first); held.erase(held.begin()+k); } } t.join(); seq+='F'; } }
 did(seq); }
// readers held up in the middle of a read while commits run
inline void readers_case(){ newcase(); cfg c=mkcfg(); if(c.ks<4) c.ks=4; world w(c); u64 n=60+rnd(120); for(u64 i=0;i<n;++i) w.ins(w.newkey(),w.newval()); for(int z=0;z<1&&!w.pnd.empty();++z) w.flush(false); model fixed=w.com; std::vector<img> ks; for(auto const& x:fixed) ks.push_back(x.first);
 std::atomic<bool> stop{false}; std::mutex pm; struct pz{ u64 off,n; }; std::map<int,pz> paused; std::atomic<long> pauses{0}; std::atomic<long> reads{0}; static thread_local int me=-1; g.hook=[&](opn const& x){ if(me>=0){ if(x.op=="read"&&(x.path=="k"||(x.path=="d"&&(pauses++%5)==0))){ { std::lock_guard<std::mutex> l(pm); if(x.path=="k") paused[me]={x.off,x.n}; } std::this_thread::sleep_for(std::chrono::microseconds(50+(pauses++*131)%3000)); { std::lock_guard<std::mutex> l(pm); paused.erase(me); } } } else if(x.op=="write"&&x.path=="k"){ std::lock_guard<std::mutex> l(pm); for(auto const& p:paused) CHECK(x.off+x.n<=p.second.off||p.second.off+p.second.n<=x.off,"a commit overwrites key file bytes %llu..%llu while a reader is reading %llu..%llu",(unsigned long long)x.off,(unsigned long long)(x.off+x.n),(unsigned long long)p.second.off,(unsigned long long)(p.second.off+p.second.n)); } };
 // what the readers may see: committed keys always; keys being inserted once announced
 std::mutex am; std::vector<std::pair<img,img>> ann(fixed.begin(),fixed.end()); std::vector<std::thread> ts; int nt=2+(int)rnd(3); u64 seed=rnd(); for(int t=0;t<nt;++t) ts.emplace_back([&,t]{ me=t; u64 z=seed+t*7919; auto r=[&](u64 m){ z=z*6364136223846793005ull+1442695040888963407ull; return (z>>33)%m; }; while(!stop){ std::pair<img,img> e; { std::lock_guard<std::mutex> l(am); e=ann[r(ann.size())]; } error_code ec; ++reads; if(r(4)){ int cb=0; bool ok=false; Exact kb(e.first.size()); memcpy(kb.p,e.first.data(),e.first.size()); w.s->fetch(kb.p,[&](void const* p,std::size_t q){ ++cb; ok=q==e.second.size()&&!memcmp(p,e.second.data(),q); },ec); CHECK(!ec,"a fetch during commits: %s",ec.message().c_str()); CHECK(cb==1&&ok,"a fetch during commits delivers something else"); } else { w.s->insert(e.first.data(),e.second.data(),e.second.size(),ec); CHECK(ec==error::key_exists,"an insert of a present key during commits: %s",ec.message().c_str()); } } });
 int rounds=2+(int)rnd(3); for(int i=0;i<rounds;++i){ u64 q=5+rnd(80); for(u64 j=0;j<q;++j){ img k=w.newkey(),v=w.newval(); if(w.has(k)) continue; error_code ec; w.s->insert(k.data(),v.data(),v.size(),ec); CHECK(!ec,"insert: %s",ec.message().c_str()); w.pnd[k]=v; std::lock_guard<std::mutex> l(am); ann.push_back({k,v}); } model done=w.pnd; w.ctx.flush(); w.pnd.clear(); for(auto const& x:done) w.com[x.first]=x.second; }
 stop=true; for(auto& t:ts) t.join(); g.hook=nullptr; dbv r=parse(g.get("d"),g.get("k"),"after commits with readers"); samemodel(r.m,w.com,"after commits with readers"); w.pnd.clear(); w.unlocked("a run with readers"); error_code ec; w.s->close(ec); CHECK(!ec,"close"); char b[120]; snprintf(b,sizeof b,"readers: %d threads, %d commits, %zu keys, %ld reads",nt,rounds,w.com.size(),(long)reads); did(b); }
// C22 ------------------------------------------------------------------------
struct fake: nudb::detail::store_base { std::atomic<int> in{0}; std::atomic<long> runs{0}; std::atomic<bool> open{false}; int us=0; void flush() override { CHECK(open,"a store is flushed that is not open"); CHECK(in++==0,"a store is flushed by two threads at once"); ++runs; if(us) std::this_thread::sleep_for(std::chrono::microseconds(us)); CHECK(open,"a store is closed while it is being flushed"); in--; } };
inline void context_case(bool threads){ newcase(); context ctx; int n=1+(int)rnd(6); std::vector<std::unique_ptr<fake>> f; for(int i=0;i<n;++i){ f.emplace_back(new fake); f.back()->us=chance(2)?0:(int)rnd(800); }
 if(!threads){ int ops=20+(int)rnd(60); std::string seq; for(int i=0;i<ops;++i){ u64 q=rnd(10); fake& x=*f[rnd(n)]; if(q<4){ if(x.open) continue; x.open=true; acc::ins(ctx,x); seq+='I'; } else if(q<6){ if(!x.open) continue; acc::era(ctx,x); x.open=false; seq+='E'; } else { std::vector<long> b; for(auto& y:f) b.push_back(y->runs); ctx.flush(); seq+='F'; for(int j=0;j<n;++j) CHECK(f[j]->runs==b[j]+(f[j]->open?1:0),"a service pass considers store %d %ld times (open: %d) after %s",j,f[j]->runs-b[j],(int)f[j]->open,seq.c_str()); } logcase("%s",seq.c_str()); } for(auto& x:f) if(x->open){ acc::era(ctx,*x); x->open=false; } ctx.flush(); did("context "+seq); return; }
 // passes by hand from one thread, inserts and erases from others
 std::atomic<bool> stop{false}; std::vector<std::thread> ts; std::atomic<long> ops{0}; u64 seed=rnd(); for(int t=0;t<n;++t) ts.emplace_back([&,t]{ u64 z=seed+t*104729; auto r=[&](u64 m){ z=z*6364136223846793005ull+1442695040888963407ull; return (z>>33)%m; }; fake& x=*f[t]; while(!stop){ x.open=true; acc::ins(ctx,x); long b=x.runs; if(r(3)==0){ for(int k=0;k<4000&&x.runs<b+2&&!stop;++k) std::this_thread::sleep_for(std::chrono::microseconds(100)); CHECK(stop||x.runs>=b+2,"an open store is not serviced"); } else if(r(2)) std::this_thread::sleep_for(std::chrono::microseconds(r(500))); acc::era(ctx,x); x.open=false; CHECK(!x.in,"closed while being flushed"); ++ops; } });
 auto end=std::chrono::steady_clock::now()+std::chrono::milliseconds(150+rnd(300)); std::vector<std::thread> fl; int nf=1; for(int i=0;i<nf;++i) fl.emplace_back([&]{ while(!stop) ctx.flush(); }); std::this_thread::sleep_until(end); stop=true; for(auto& t:ts) t.join(); for(auto& t:fl) t.join(); did("context threads "+std::to_string(n)+" "+std::to_string(g_cases)); }
}
