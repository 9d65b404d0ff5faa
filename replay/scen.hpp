// Further scenarios: creating, opening, recovering, rekeying, visiting and
// verifying databases, readers during commits, the context, the pending pool.
#pragma once
#include "store.hpp"
#include <fstream>
#include <sys/stat.h>
#include <fcntl.h>
#include <cmath>
namespace st {
inline img keyhdr(u64 uid,u64 app,u64 ks,u64 salt,u64 bs,u64 lf){ img h(104); memcpy(&h[0],"nudb.key",8); pb(&h[8],2,2); pb(&h[10],uid,8); pb(&h[18],app,8); pb(&h[26],ks,2); pb(&h[28],salt,8); pb(&h[36],wh(salt)(&salt,8),8); pb(&h[44],bs,2); pb(&h[46],lf,2); return h; }
inline img dathdr(u64 uid,u64 app,u64 ks){ img h(92); memcpy(&h[0],"nudb.dat",8); pb(&h[8],2,2); pb(&h[10],uid,8); pb(&h[18],app,8); pb(&h[26],ks,2); return h; }
inline img loghdr(u64 uid,u64 app,u64 ks,u64 salt,u64 bs,u64 kfs,u64 dfs){ img h(62); memcpy(&h[0],"nudb.log",8); pb(&h[8],2,2); pb(&h[10],uid,8); pb(&h[18],app,8); pb(&h[26],ks,2); pb(&h[28],salt,8); pb(&h[36],wh(salt)(&salt,8),8); pb(&h[44],bs,2); pb(&h[46],kfs,8); pb(&h[54],dfs,8); return h; }
inline void clearfs(){ g.f.clear(); g.hook=nullptr; g.disarm(); g.record=false; g.ops.clear(); }
// C15 ------------------------------------------------------------------------
inline void create_case(){ newcase(); clearfs(); g_nh=0; char b[200];
 u64 ks= chance(3)?(chance(2)?0:chance(2)?65535+rnd(3):rnd()>>rnd(40)):1+rnd(300), bs= chance(3)?(chance(2)?rnd(130):65530+rnd(10)):chance(10)?rnd()>>rnd(40):104+rnd(4000); float lf= chance(3)?(chance(4)?NAN:chance(3)?0.f:chance(2)?1.f+(float)rnd(100)/50-1.f:chance(2)?-0.5f:1e-5f*(float)(1+rnd(3))):(float)(1+rnd(999))/1000; if(chance(15)) lf=0.99999f;
 u64 salt=rnd(),app=rnd(),uid=rnd(); std::set<int> bad; if(ks<1||ks>65535) bad.insert((int)error::invalid_key_size); if(bs>65535||bs<104||(bs-8)/18<1) bad.insert((int)error::invalid_block_size); double x=65536.0*(double)lf; if(!(lf>0.f&&lf<1.f)||!(x>=1.0)) bad.insert((int)error::invalid_load_factor);
 std::map<std::string,img> pre; for(auto f:{"d","k","l"}) if(chance(6)){ pre[f]=bytes(rnd(200)); g.put(f,pre[f]); } snprintf(b,sizeof b,"create key size %llu block %llu load %g, %zu files exist",(unsigned long long)ks,(unsigned long long)bs,lf,pre.size()); logcase("%s",b);
 long at=-1; if(pre.empty()&&chance(2)){ at=(long)rnd(14); logcase("error at operation %ld",at); g.arm(at); } g.record=true; g.ops.clear(); error_code ec; create<wh,memfile>("d","k","l",app,uid,salt,ks,bs,lf,ec); g.record=false; bool f=g.failed; g.disarm();
 for(auto const& q:g.ops) if(q.op=="write"||q.op=="trunc"||q.op=="erase") CHECK(!pre.count(q.path),"%s of the existing file %s",q.op.c_str(),q.path.c_str());
 for(auto const& q:pre) CHECK(g.has(q.first)&&g.get(q.first)==q.second,"the existing file %s is gone or changed",q.first.c_str());
 if(!bad.empty()){ CHECK(ec&&ec.category()==make_error_code(error::success).category()&&bad.count(ec.value()),"invalid parameters: %s",ec.message().c_str()); CHECK(g.ops.empty(),"file operation %s on %s although the parameters are invalid",g.ops.empty()?"":g.ops[0].op.c_str(),g.ops.empty()?"":g.ops[0].path.c_str()); CHECK(g.f.size()==pre.size(),"files created although the parameters are invalid"); }
 else if(!pre.empty()||f){ CHECK(ec,"create reports no error"); CHECK(g.f.size()==pre.size(),"%zu files remain after a failed create, %zu existed",g.f.size(),pre.size()); }
 else { CHECK(!ec,"create: %s",ec.message().c_str()); u64 lv=(u64)x; if(lv>65535) lv=65535; img k=keyhdr(uid,app,ks,salt,bs,lv); k.resize(2*bs); CHECK(g.f.size()==3&&g.has("d")&&g.has("k")&&g.has("l"),"create makes %zu files",g.f.size()); CHECK(g.get("d")==dathdr(uid,app,ks),"the data file is not exactly its header"); CHECK(g.get("k")==k,"the key file is not exactly a header block and an empty bucket"); CHECK(g.get("l").empty(),"the log is not empty"); for(auto q:{"d","k","l"}) CHECK(g.f[q]->pend.empty(),"%s is not durable",q); }
 did(b); }
// C14 ------------------------------------------------------------------------
inline void open_case(){ newcase(); cfg c=mkcfg(); world w(c); u64 n=amount(c); for(u64 i=0;i<n;++i) w.one(); w.flush(false); model m=w.com; { error_code ec; w.s->close(ec); w.s.reset(); } img d=g.get("d"),k=g.get("k"); char b[200];
 for(int rep=0;rep<12;++rep){ newcase(); logcase("key size %llu, block %llu",(unsigned long long)c.ks,(unsigned long long)c.bs); clearfs(); img D=d,K=k; int mut=(int)rnd(4); bool body=false;
  for(int i=0;i<mut;++i){ if(chance(2)){ u64 p=chance(5)?rnd(92):rnd(28); if(p<26&&chance(2)&&K.size()>p&&p>=10){ D[p]^=1; K[p]^=1; logcase("byte %llu of both files changed",(unsigned long long)p); } else { D[p]^=(u8)(1<<rnd(8)); logcase("data file byte %llu changed",(unsigned long long)p); } } else { u64 p=chance(5)?rnd(104):chance(3)?36+rnd(12):rnd(48); K[p]^=(u8)(1<<rnd(8)); logcase("key file byte %llu changed",(unsigned long long)p); } }
  if(chance(12)){ D.resize(rnd(92)); logcase("data file cut to %zu",D.size()); } if(chance(12)){ K.resize(105+rnd(K.size()-105)); logcase("key file cut to %zu",K.size()); body=true; }
  g.put("d",D); g.put("k",K); bool nod=chance(20),nok=chance(20); if(nod) g.f.erase("d"); if(nok) g.f.erase("k"); std::set<std::pair<bool,int>> bad; // (nudb category, value)
  auto E=[&](error e){ bad.insert({true,(int)e}); }; if(nod||nok) bad.insert({false,ENOENT}); u64 kbs=0;
  if(!nod){ if(D.size()<92) E(error::short_read); else { if(memcmp(&D[0],"nudb.dat",8)) E(error::not_data_file); if(be(&D[8],2)!=2) E(error::different_version); if(be(&D[26],2)<1) E(error::invalid_key_size); } }
  if(!nok){ kbs=be(&K[44],2); u64 s=be(&K[28],8); if(memcmp(&K[0],"nudb.key",8)) E(error::not_key_file); if(be(&K[8],2)!=2) E(error::different_version); if(be(&K[26],2)<1) E(error::invalid_key_size); if(be(&K[36],8)!=wh(s)(&s,8)) E(error::hash_mismatch); if(be(&K[46],2)<1) E(error::invalid_load_factor); if(kbs<104||(kbs-8)/18<1) E(error::invalid_capacity); u64 nb= K.size()>kbs?(kbs?(K.size()-kbs)/kbs:0):0; if(nb<1) E(error::invalid_bucket_count);
   if(!nod&&D.size()>=92){ if(be(&D[10],8)!=be(&K[10],8)) E(error::uid_mismatch); if(be(&D[18],8)!=be(&K[18],8)) E(error::appnum_mismatch); if(be(&D[26],2)!=be(&K[26],2)) E(error::key_size_mismatch); } }
  bool foreign=false; img L; bool changesok=true; if(bad.empty()&&!body&&chance(2)){ // a log that does not belong to the files
   L=loghdr(be(&D[10],8),be(&D[18],8),be(&D[26],2),be(&K[28],8),kbs,K.size(),D.size()); u64 p=rnd(46); L[p]^=(u8)(1<<rnd(8)); bool samesalt=be(&L[28],8)==be(&K[28],8); (void)samesalt; foreign=true; logcase("log with header byte %llu changed",(unsigned long long)p); g.put("l",L); }
  img D0=g.has("d")?g.get("d"):img(),K0=g.has("k")?g.get("k"):img(); bool flt=bad.empty()&&!foreign&&chance(3); S s(w.ctx); error_code ec; if(flt) g.arm((long)rnd(20)); s.open("d","k","l",ec); bool failed=g.failed; g.disarm();
  if(flt&&failed){ CHECK(ec,"an I/O error during open is not reported"); CHECK(!s.is_open(),"the store is open although open failed"); error_code e2; s.open("d","k","l",e2); CHECK(!e2,"open after a failed open: %s",e2.message().c_str()); ec=e2; }
  if(foreign){ CHECK(ec,"open accepts a log that does not belong to the files"); CHECK(!s.is_open(),"open although an error is reported"); CHECK(g.has("l")&&g.get("l")==L,"a log that does not belong to the files is gone or changed"); CHECK(g.get("d")==D0&&g.get("k")==K0,"files changed by a log that does not belong to them"); }
  else if(!bad.empty()){ CHECK(ec,"open accepts inconsistent files"); CHECK(!s.is_open(),"open although an error is reported"); bool nu=ec.category()==make_error_code(error::success).category(); CHECK(bad.count({nu,ec.value()}),"open reports %s, which is not what is wrong with the files",ec.message().c_str()); if(!nod) CHECK(g.get("d")==D0,"data file changed by a failed open"); if(!nok) CHECK(g.has("k")&&g.get("k")==K0,"key file changed by a failed open"); }
  else { CHECK(!ec,"open: %s",ec.message().c_str()); CHECK(s.is_open(),"not open"); CHECK(s.key_size()==be(&D[26],2)&&s.block_size()==kbs&&s.appnum()==be(&D[18],8),"the open store reports wrong parameters"); CHECK(s.dat_path()=="d"&&s.key_path()=="k"&&s.log_path()=="l","paths"); CHECK(g.has("l")&&g.get("l").empty(),"no empty log after open"); error_code e2; s.close(e2); CHECK(!e2,"close: %s",e2.message().c_str()); }
  snprintf(b,sizeof b,"open: %d header changes, %s%s",mut,bad.empty()?foreign?"foreign log":"valid":"invalid",flt&&failed?", I/O error":""); did(std::string(b)+" "+std::to_string(g_cases)); } }
// C12: logs made by hand ------------------------------------------------------
inline void recover_case(){ newcase(); cfg c=mkcfg(); world w(c); u64 n=amount(c); for(u64 i=0;i<n;++i) w.one(); w.flush(false); for(u64 i=0;i<n;++i) w.one(); w.flush(false); { error_code ec; w.s->close(ec); w.s.reset(); } img d=g.get("d"),k=g.get("k"); u64 nb=k.size()/c.bs-1; char b[200];
 for(int rep=0;rep<8;++rep){ newcase(); clearfs(); img D=d,K=k,L; int kind=(int)rnd(8); std::vector<u64> ids; for(u64 i=0;i<nb;++i) if(chance(2)) ids.push_back(i); for(size_t i=ids.size();i>1;--i) std::swap(ids[i-1],ids[rnd(i)]); u64 kfs= kind==4?0:k.size();
  L=loghdr(c.uid,c.appnum,c.ks,c.salt,c.bs,kfs,d.size()); std::vector<size_t> ends; for(u64 i:ids){ size_t o=L.size(); u8 const* p=&k[(i+1)*c.bs]; u64 cnt=be(p,2); L.resize(o+16+18*cnt); pb(&L[o],i,8); memcpy(&L[o+8],p,8+18*cnt); ends.push_back(L.size()); }
  u64 badat=~0ull; if(kind==1&&!ids.empty()){ badat=rnd(ids.size()); size_t o=badat?ends[badat-1]:62; u64 v=chance(2)?nb+(u64)w.c.bs*0+rnd(3):chance(2)?0xffffffffffffffffull-rnd(3):rnd(); if(v<nb+4&&v>=nb) v=nb+4+rnd(3); pb(&L[o],v,8); logcase("index %llu",(unsigned long long)v); }
  if(kind==2&&!ids.empty()){ badat=rnd(ids.size()); size_t o=badat?ends[badat-1]:62; pb(&L[o+10],chance(2)?(1ull<<47)+rnd(1000):d.size()+5000+rnd(100),6); logcase("spill past the end"); }
  int hb=-1; if(kind==3){ do hb=(int)rnd(46); while(0); L[hb]^=(u8)(1<<rnd(8)); logcase("log header byte %d changed",hb); }
  size_t cut=L.size(); if(kind==5||kind==6) cut=rnd(L.size()+1); if(kind==6) cut=rnd(62); L.resize(cut); bool nolog=kind==7;
  // interrupted commit: logged buckets overwritten, files longer (never shorter)
  bool touched=kind!=6&&kind!=7&&cut>=62; if(kind==4){ K=chance(2)?bytes(105+rnd(400)):K; } else if(touched){ for(size_t i=0;i<ids.size();++i) if(ends[i]<=cut&&chance(2)){ img g2=bytes(c.bs); memcpy(&K[(ids[i]+1)*c.bs],g2.data(),rnd(c.bs+1)); } u64 ext=rnd(4); K.resize(k.size()+ext*c.bs-(ext&&chance(3)?rnd(c.bs):0)); for(size_t i=k.size();i<K.size();++i) K[i]=(u8)rnd(); }
  if(touched){ auto t=bytes(rnd(3000)); if(kind!=2) D.insert(D.end(),t.begin(),t.end()); else { } }
  g.put("d",D); g.put("k",K); if(!nolog) g.put("l",L); logcase("kind %d: log of %zu bytes for %zu of %llu buckets",kind,L.size(),ids.size(),(unsigned long long)nb);
  bool reject=(kind==3)||((kind==1||kind==2)&&badat!=~0ull);
  if(reject){ int t=0; for(;;){ CHECK(++t<50,"recovery does not answer"); bool flt=chance(3); if(flt) g.arm((long)rnd(20)); error_code ec; recover<wh,memfile>("d","k","l",ec); bool f=g.failed; g.disarm(); CHECK(ec,"a log that is %s is accepted",kind==3?"not of these files":"impossible"); CHECK(g.has("l")&&g.get("l")==L,"a rejected log is gone or changed"); if(kind==3){ CHECK(g.get("d")==D&&g.get("k")==K,"files changed by a log that does not belong to them"); } if(f) continue; bool nu=ec.category()==make_error_code(error::success).category(); CHECK(nu,"rejecting a log reports %s",ec.message().c_str()); if(kind==1) CHECK(ec==error::invalid_log_index||ec==error::invalid_log_record,"bad index: %s",ec.message().c_str()); if(kind==2) CHECK(ec==error::invalid_log_spill||ec==error::invalid_log_record,"bad spill: %s",ec.message().c_str()); break; } }
  else { for(int t=0;;++t){ CHECK(t<60,"recovery does not succeed"); bool flt=t<20&&chance(2),cr=t<20&&chance(3); snap sn; bool have=false; long at=(long)rnd(20),cnt=0; img Lb=g.has("l")?g.get("l"):img(); bool hl=g.has("l"); { hookguard hg([&](opn const&){ if(cr&&cnt++==at&&!have){ sn=takesnap(); have=true; } }); if(flt) g.arm((long)rnd(24)); } error_code ec; { hookguard hg([&](opn const& x){ if(x.path=="l"&&(x.op=="trunc"||x.op=="erase")) for(auto f:{"d","k"}) if(g.has(f)) CHECK(g.f[f]->pend.empty(),"the log is discarded while %s is not durable",f); if(cr&&cnt++==at&&!have){ sn=takesnap(); have=true; } }); recover<wh,memfile>("d","k","l",ec); } bool f=g.failed; g.disarm();
    if(f) CHECK(ec,"an I/O error is not reported by recover"); if(ec&&!f){ if(kind==4&&!g.has("k")) break; fail("recover: %s",ec.message().c_str()); } if(have&&chance(2)){ crash(sn,4); logcase("  crash at operation %ld of recovery",at); if(kind==4&&!g.has("k")) break; continue; } (void)hl; if(ec){ if(chance(3)) crash(takesnap(),4); if(kind==4&&!g.has("k")) break; continue; } break; }
   CHECK(g.has("d"),"data file gone"); CHECK(g.get("d")==d,"the data file is not restored (%zu bytes, %zu before the commit)",g.get("d").size(),d.size()); if(kind==4){ CHECK(!g.has("k"),"the key file of an interrupted rekey remains"); } else { CHECK(g.has("k"),"key file gone"); CHECK(g.get("k").size()==k.size(),"the key file has %zu bytes, %zu before the commit",g.get("k").size(),k.size()); for(u64 i=0;i<=nb;++i) CHECK(!memcmp(&g.get("k")[i*c.bs],&k[i*c.bs],c.bs),"block %llu of the key file is not restored",(unsigned long long)i); CHECK(!g.has("l"),"the log remains after recovery"); } }
  snprintf(b,sizeof b,"log kind %d, %zu bytes, %zu of %llu buckets",kind,L.size(),ids.size(),(unsigned long long)nb); did(b); } }
// C16 ------------------------------------------------------------------------
struct prog { u64 last=0; template<class A,class B> void operator()(A a,B b){ (void)a;(void)b; } };
inline void rekey_case(){ newcase(); cfg c=mkcfg(); world w(c); int rr=(int)rnd(3); for(int i=0;i<=rr;++i){ u64 n=amount(c); for(u64 j=0;j<n;++j) w.one(); if(w.pnd.empty()) w.ins(bytes(c.ks),bytes(3)); if(!w.pnd.empty()) w.flush(false); } if(w.com.empty()) return; { error_code ec; w.s->close(ec); w.s.reset(); } img d=g.get("d"); clearfs(); g.put("d",d); model m=w.com; char b[200];
 u64 bs=104+rnd(chance(2)?60:900); float lf=0.1f+0.85f*(float)rnd(1000)/1000; u64 buf=chance(3)?1:chance(2)?bs*(1+rnd(4)):1<<20; u64 cnt=chance(4)?1+rnd(m.size()):m.size(); bool hadl=chance(10),hadk=chance(10); img K0=bytes(300); if(hadl) g.put("l",bytes(rnd(100))); if(hadk) g.put("k",K0); logcase("rekey block %llu load %g count %llu of %zu buffer %llu",(unsigned long long)bs,lf,(unsigned long long)cnt,m.size(),(unsigned long long)buf); snap before=takesnap();
 auto hook=[&](opn const& x){ if(x.op=="write"&&x.path=="d"&&x.n){ CHECK(x.off>=d.size(),"rekey overwrites the data file at %llu",(unsigned long long)x.off); CHECK(g.has("l"),"the data file grows without a log"); auto const& L=g.f["l"]->dur; CHECK(L.size()>=62&&be(&L[46],8)==0&&be(&L[54],8)==d.size(),"the data file grows before the log is durable"); } if(x.op=="trunc"&&x.path=="d") fail("rekey truncates the data file"); if((x.op=="erase"||x.op=="trunc")&&x.path=="l") for(auto f:{"d","k"}) CHECK(g.f[f]->pend.empty(),"the log is discarded while %s is not durable",f); };
 bool flt=!hadl&&!hadk&&chance(2); long at=(long)rnd(chance(2)?14:40); std::vector<std::pair<long,snap>> sn; long cn=0; std::set<long> pts; for(int i=0;i<5;++i) pts.insert((long)rnd(40)); error_code ec; { hookguard hg([&](opn const& x){ hook(x); if(pts.count(cn)) sn.push_back({cn,takesnap()}); ++cn; }); if(flt) g.arm(at); rekey<wh,memfile>("d","k","l",bs,lf,cnt,buf,ec,prog{}); } bool f=g.failed; g.disarm();
 if(hadl||hadk){ CHECK(ec,"rekey although a %s file exists",hadl?"log":"key"); if(hadl) CHECK(ec==error::log_file_exists,"existing log: %s",ec.message().c_str()); else CHECK(ec.value()==EEXIST,"existing key file: %s",ec.message().c_str()); for(auto const& x:before) CHECK(g.has(x.first)&&g.get(x.first)==x.second.cur,"%s changed although rekey refuses",x.first.c_str()); did("rekey refused"); return; }
 auto undo=[&](const char* w2){ // a log or not: recovery brings the data file back, or the rebuilt database is complete
  for(int t=0;;++t){ CHECK(t<60,"%s: no recovery",w2); bool fl=t<20&&chance(3); bool cr=t<20&&chance(3); snap s2; bool have=false; long a2=(long)rnd(20),c2=0; if(!g.has("k")){ CHECK(g.get("d")==d,"%s: the data file is not restored",w2); return false; } error_code e; { hookguard hg([&](opn const&){ if(cr&&c2++==a2&&!have){ s2=takesnap(); have=true; } }); if(fl) g.arm((long)rnd(20)); recover<wh,memfile>("d","k","l",e); } bool ff=g.failed; g.disarm(); if(ff) CHECK(e,"%s: recover hides an I/O error",w2); if(have&&chance(2)){ crash(s2,4); continue; } if(!g.has("k")){ CHECK(g.get("d")==d,"%s: the data file is not restored",w2); return false; } if(e){ CHECK(ff,"%s: recover: %s",w2,e.message().c_str()); continue; } break; }
  dbv r=parse(g.get("d"),g.get("k"),w2); samemodel(r.m,m,w2); CHECK(!memcmp(g.get("d").data(),d.data(),d.size()),"%s: existing data altered",w2); return true; };
 if(flt&&f){ CHECK(ec,"an I/O error during rekey is not reported"); if(g.get("d").size()>d.size()) CHECK(g.has("l"),"the data file has grown and no log is left"); if(chance(2)) crash(takesnap(),4); bool r=undo("after a failed rekey"); (void)r; }
 else { CHECK(!ec,"rekey: %s",ec.message().c_str()); CHECK(!g.has("l"),"rekey leaves its log"); dbv r=parse(g.get("d"),g.get("k"),"after rekey"); samemodel(r.m,m,"after rekey"); CHECK(!memcmp(g.get("d").data(),d.data(),d.size()),"existing data altered"); for(auto q:{"d","k"}) CHECK(g.f[q]->pend.empty(),"%s is not durable after rekey",q); CHECK(r.bs==bs&&r.nb==(u64)std::ceil(cnt/(((bs-8)/18)*lf)),"%llu buckets of %llu",(unsigned long long)r.nb,(unsigned long long)r.bs); img kd=g.get("k"); CHECK(be(&kd[10],8)==c.uid&&be(&kd[18],8)==c.appnum,"headers"); snap fin=takesnap();
  for(auto const& x:sn) for(int how=0;how<4;++how){ logcase("crash at operation %ld of rekey, image %d",x.first,how); crash(x.second,how); undo("after a crash in rekey"); } }
 snprintf(b,sizeof b,"rekey %zu keys, block %llu, buffer %llu%s",m.size(),(unsigned long long)bs,(unsigned long long)buf,flt&&f?", I/O error":""); did(b); }
// native files -----------------------------------------------------------------
inline std::string nat(const char* n){ return g_dir+"/"+n; }
inline void put_file(std::string const& p,img const& b){ std::ofstream f(p,std::ios::binary|std::ios::trunc); f.write((char const*)b.data(),(std::streamsize)b.size()); f.close(); CHECK(!!f,"cannot write %s",p.c_str()); }
inline img get_file(std::string const& p){ std::ifstream f(p,std::ios::binary); return img((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>()); }
// C17
inline void visit_case(){ newcase(); u64 ks=1+rnd(chance(4)?300:20); img d=dathdr(rnd(),rnd(),ks); bool big=chance(12); std::vector<rec> rs; std::vector<size_t> ends{92}; std::vector<bool> isrec; u64 n=rnd(big?8:40);
 for(u64 i=0;i<n;++i){ if(chance(4)){ u64 z=chance(20)?0xffff:chance(2)?8+18*rnd(5):rnd(300); size_t o=d.size(); d.resize(o+8); pb(&d[o+6],z,2); auto x=bytes(z); d.insert(d.end(),x.begin(),x.end()); isrec.push_back(false); } else { u64 z= big&&chance(3)?1+rnd(6000000):1+rnd(100); rec r{d.size(),bytes(ks),img(z)}; for(size_t j=0;j<z;j+=1+z/50) r.val[j]=(u8)rnd(); size_t o=d.size(); d.resize(o+6); pb(&d[o],z,6); d.insert(d.end(),r.key.begin(),r.key.end()); d.insert(d.end(),r.val.begin(),r.val.end()); rs.push_back(std::move(r)); isrec.push_back(true); } ends.push_back(d.size()); }
 auto p=nat("visit.dat"); int tr=(int)rnd(3); size_t cut=d.size(); if(tr){ cut= chance(4)?rnd(92):92+rnd(d.size()-92+1); if(chance(2)&&ends.size()>1){ size_t e=ends[rnd(ends.size())]; cut=e+rnd(17); if(chance(2)) cut=e>=8?e-rnd(8):e; } if(cut>d.size()) cut=d.size(); } img D(d.begin(),d.begin()+cut); int hb=-1; if(chance(6)&&D.size()>=92){ hb=(int)rnd(chance(3)?92:28); D[hb]^=(u8)(1<<rnd(8)); }
 bool hbad=false; if(hb>=0&&(hb<10||hb>=26)) hbad=hb<10||be(&D[26],2)==0; if(hb==26||hb==27) { return; }
 put_file(p,D); struct stat s0; stat(p.c_str(),&s0); long stopat=chance(4)&&!rs.empty()?(long)rnd(rs.size()):-1; logcase("%zu records of %llu-byte keys, file of %zu cut to %zu, callback error at %ld",rs.size(),(unsigned long long)ks,d.size(),cut,stopat); long i=0; error_code my{ECANCELED,boost::system::system_category()}; error_code ec; u64 lastp=0;
 visit(p,[&](void const* k,std::size_t kz,void const* v,std::size_t vz,error_code& e){ CHECK((size_t)i<rs.size(),"more callbacks than records"); auto const& r=rs[i]; CHECK(kz==ks&&!memcmp(k,r.key.data(),ks),"record %ld: wrong key",i); CHECK(vz==r.val.size()&&!memcmp(v,r.val.data(),vz),"record %ld: wrong value of %zu bytes, expected %zu",i,vz,r.val.size()); if(i==stopat) e=my; ++i; },[&](u64 a,u64 t){ CHECK(a<=t&&a>=lastp,"progress goes from %llu to %llu of %llu",(unsigned long long)lastp,(unsigned long long)a,(unsigned long long)t); lastp=a; },ec);
 struct stat s1; stat(p.c_str(),&s1); CHECK(s0.st_size==s1.st_size&&get_file(p)==D,"visit changed the file"); long whole=0; bool onb=false; { size_t a=0; for(size_t j=0;j<isrec.size();++j){ if(ends[j+1]<=cut&&isrec[j]) ++whole; } for(auto e:ends) if(e==cut) onb=true; (void)a; }
 if(D.size()<92){ CHECK(ec,"a file without a header is accepted"); CHECK(!i,"callback without a header"); }
 else if(hbad){ CHECK(ec,"an invalid header is accepted"); CHECK(!i,"callback with an invalid header"); }
 else { long exp=stopat>=0&&stopat<whole?stopat+1:whole; CHECK(i==exp,"%ld callbacks, expected %ld",i,exp); if(stopat>=0&&stopat<whole) CHECK(ec==my,"the error set by the callback is reported as: %s",ec.message().c_str()); else if(!onb) CHECK(ec,"a truncated file is accepted"); else CHECK(!ec,"visit: %s",ec.message().c_str()); }
 char b[160]; snprintf(b,sizeof b,"visit %zu records, %zu of %zu bytes",rs.size(),cut,d.size()); did(b); unlink(p.c_str()); }
// C18
struct stats { u64 keys=0,vals=0,vbytes=0,spu=0,spt=0,spub=0,sptb=0; std::array<u64,10> hist; };
inline stats statsof(img const& d,img const& k){ stats s; s.hist.fill(0); dbv r=parse(d,k,"statistics"); s.vals=r.recs.size(); for(auto const& x:r.recs) s.vbytes+=x.val.size(); s.spt=r.spills.size(); for(auto const& x:r.spills) s.sptb+=8+x.second; for(u64 n=0;n<r.nb;++n){ u8 const* b=&k[(n+1)*r.bs]; u64 h=0; s.keys+=be(b,2); while(u64 q=be(b+2,6)){ b=&d[q]; s.keys+=be(b,2); ++h; ++s.spu; s.spub+=8+8+18*be(b,2); } s.hist[h>9?9:h]++; } return s; }
inline error_code runverify(img const& d,img const& k,u64 bsz,verify_info& info,const char* w){ auto dp=nat("verify.dat"),kp=nat("verify.key"); put_file(dp,d); put_file(kp,k); error_code ec; u64 lastp=0; verify<wh>(info,dp,kp,bsz,[&](u64 a,u64){ (void)a; (void)lastp; },ec); CHECK(get_file(dp)==d&&get_file(kp)==k,"%s: verify changed the files",w); unlink(dp.c_str()); unlink(kp.c_str()); return ec; }
inline void verify_case(){ newcase(); cfg c=mkcfg(); if(chance(2)) c.nh=chance(2)?2:0; world w(c); int rr=(int)rnd(3); for(int i=0;i<=rr;++i){ u64 n=amount(c); for(u64 j=0;j<n;++j) w.one(); w.flush(false); } { error_code ec; w.s->close(ec); w.s.reset(); } img d=g.get("d"),k=g.get("k"); stats s=statsof(d,k); char b[200]; u64 nb=k.size()/c.bs-1;
 for(int m=0;m<3;++m){ u64 bsz= m==0?0: m==1?2*c.bs+16+rnd(4*c.bs):1<<20; verify_info v; auto ec=runverify(d,k,bsz,v,"valid"); CHECK(!ec,"a valid database is refused (buffer %llu, algorithm %d): %s",(unsigned long long)bsz,(int)v.algorithm,ec.message().c_str());
  CHECK(v.key_count==s.keys&&v.value_count==s.vals&&v.value_bytes==s.vbytes,"algorithm %d counts %llu keys, %llu values, %llu bytes; there are %llu, %llu, %llu",(int)v.algorithm,(unsigned long long)v.key_count,(unsigned long long)v.value_count,(unsigned long long)v.value_bytes,(unsigned long long)s.keys,(unsigned long long)s.vals,(unsigned long long)s.vbytes);
  CHECK(v.spill_count==s.spu&&v.spill_count_tot==s.spt&&v.spill_bytes==s.spub&&v.spill_bytes_tot==s.sptb,"algorithm %d counts spills %llu/%llu, bytes %llu/%llu; there are %llu/%llu, %llu/%llu",(int)v.algorithm,(unsigned long long)v.spill_count,(unsigned long long)v.spill_count_tot,(unsigned long long)v.spill_bytes,(unsigned long long)v.spill_bytes_tot,(unsigned long long)s.spu,(unsigned long long)s.spt,(unsigned long long)s.spub,(unsigned long long)s.sptb);
  for(int i=0;i<10;++i) CHECK(v.hist[i]==s.hist[i],"algorithm %d: histogram[%d]=%llu, expected %llu",(int)v.algorithm,i,(unsigned long long)v.hist[i],(unsigned long long)s.hist[i]); CHECK(v.buckets==nb&&v.capacity==c.cap()&&v.block_size==c.bs&&v.key_size==c.ks&&v.key_file_size==k.size()&&v.dat_file_size==d.size()&&v.uid==c.uid&&v.appnum==c.appnum&&v.salt==c.salt&&v.bucket_size==8+18*c.cap(),"the reported header fields are wrong"); }
 dbv r=parse(d,k,"valid"); if(r.recs.empty()) return;
 for(int rep=0;rep<14;++rep){ img D=d,K=k; std::string what; int nm=1+(int)rnd(2)*(int)rnd(2);
  for(int q=0;q<nm;++q){ // an entry somewhere
   std::vector<std::pair<u8*,u64>> bk; for(u64 n=0;n<nb;++n){ u8* p=&K[(n+1)*c.bs]; for(int t=0;;++t){ bk.push_back({p,n}); u64 sp=be(p+2,6); if(!sp||!r.spills.count(sp)||t>50) break; p=&D[sp]; } } auto e=bk[rnd(bk.size())]; for(int t=0;t<20&&!be(e.first,2);++t) e=bk[rnd(bk.size())]; u64 cnt=be(e.first,2); if(cnt>c.cap()) continue; u8* p=e.first; bool inkey=p>=&K[0]&&p<&K[0]+K.size(); u64 i=rnd(cnt); u8* x=p+8+18*i;
   switch(rnd(12)){
   case 0: if(cnt){ pb(x,chance(2)?r.recs[rnd(r.recs.size())].off:be(x,6)+rnd(9)-4,6); what+=" offset"; } break;
   case 1: if(cnt){ pb(x+6,be(x+6,6)+(chance(2)?1:~0ull),6); what+=" size"; } break;
   case 2: if(cnt){ pb(x+12,be(x+12,6)^(1ull<<rnd(48)),6); what+=" hash"; } break;
   case 3: if(cnt){ memmove(x,x+18,18*(cnt-1-i)); memset(p+8+18*(cnt-1),0,18); pb(p,cnt-1,2); what+=" entry removed"; } break;
   case 4: if(cnt&&cnt<c.cap()&&inkey){ memmove(x+18,x,18*(cnt-i)); pb(p,cnt+1,2); what+=" entry doubled"; } break;
   case 5: if(cnt){ auto f=bk[rnd(bk.size())]; u64 c2=be(f.first,2); bool ik=f.first>=&K[0]&&f.first<&K[0]+K.size(); if(c2<c.cap()&&ik&&f.first!=p){ u64 j=0; while(j<c2&&be(f.first+8+18*j+12,6)<be(x+12,6)) ++j; memmove(f.first+8+18*(j+1),f.first+8+18*j,18*(c2-j)); memcpy(f.first+8+18*j,x,18); pb(f.first,c2+1,2); what+=" entry copied to another bucket"; if(chance(2)){ memmove(x,x+18,18*(cnt-1-i)); memset(p+8+18*(cnt-1),0,18); pb(p,cnt-1,2); what+=" and removed"; } } } break;
   case 6: if(be(p+2,6)){ pb(p+2,0,6); what+=" spill cleared"; } break;
   case 7: pb(p,chance(2)?c.cap()+1+rnd(3):65535-rnd(3),2); what+=" count"; break;
   case 8: { auto const& y=r.recs[rnd(r.recs.size())]; D[y.off+6+rnd(c.ks)]^=(u8)(1<<rnd(8)); what+=" key byte"; break; }
   case 9: { auto const& y=r.recs[rnd(r.recs.size())]; u64 z=be(&D[y.off],6); pb(&D[y.off],chance(2)?z+1:z>1?z-1:z+2,6); what+=" record size"; break; }
   case 10: if(chance(2)){ size_t t=92+rnd(D.size()-92); D.resize(t); what+=" data file cut"; q=nm; } else { size_t t=c.bs*2+rnd(K.size()-2*c.bs+1); K.resize(t); what+=" key file cut"; q=nm; } break;
   default: { img z(6+c.ks+3); pb(&z[0],3,6); auto kk=bytes(c.ks+3); memcpy(&z[6],kk.data(),kk.size()); D.insert(D.end(),z.begin(),z.end()); what+=" unindexed record"; q=nm; } } }
  if(what.empty()) continue; std::string why; g_soft=g_lenient=true; try{ if((K.size()%c.bs)) throw bad{"partial block"}; parse(D,K,"changed"); }catch(bad const& x){ why=x.why; } g_soft=g_lenient=false; if(why=="partial block") why.clear(); u64 bsz=chance(3)?0:chance(2)?2*c.bs+16+rnd(4*c.bs):1<<20; logcase("changed:%s; inconsistent because %s",what.c_str(),why.c_str()); verify_info v; auto ec=runverify(D,K,bsz,v,"changed"); if(!why.empty()) CHECK(ec,"verify (buffer %llu, algorithm %d) accepts a database with%s: %s",(unsigned long long)bsz,(int)v.algorithm,what.c_str(),why.c_str());
  snprintf(b,sizeof b,"verify%s: %s",what.c_str(),ec?ec.message().c_str():"accepted"); did(b); }
 // headers
 for(int rep=0;rep<4;++rep){ img D=d,K=k; bool inD=chance(2); u64 p=inD?rnd(28):rnd(48); if(!inD&&((p>=44&&p<48)||(c.nh&&p>=28))) continue; (inD?D:K)[p]^=(u8)(1<<rnd(8)); logcase("header byte %llu of %s",(unsigned long long)p,inD?"data":"key"); verify_info v; auto ec=runverify(D,K,chance(2)?0:1<<20,v,"header"); CHECK(ec,"verify accepts a wrong header byte %llu of the %s file",(unsigned long long)p,inD?"data":"key"); } }
}
