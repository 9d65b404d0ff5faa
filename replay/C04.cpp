// bucket_t against a sorted multiset model, in an exact-size block.
#include "h.hpp"
#include <nudb/nudb.hpp>
#include <nudb/detail/bucket.hpp>
using namespace nudb; using namespace nudb::detail;
struct E{ u64 o,s,h; bool operator<(E const& x) const { return std::tie(h,o,s)<std::tie(x.h,x.o,x.s);} bool operator==(E const& x) const { return h==x.h&&o==x.o&&s==x.s; } };
static void be(u8* p,u64 v,int n){ for(int i=n;i--;){ p[i]=(u8)v; v>>=8; } }
static u64 rb(u8 const* p,int n){ u64 v=0; for(int i=0;i<n;++i) v=v<<8|p[i]; return v; }
static u64 rv(){ return chance(3)?rnd(5):chance(3)?0xffffffffffffull-rnd(3):rnd()&0xffffffffffffull; }
static u64 rs(){ return chance(3)?rnd(5):chance(3)?0xffffffffull-rnd(3):rnd()&0xffffffffull; }
static void same(bucket& b,std::vector<E> m,u64 spill,u8 const* p,const char* w){
 CHECK(b.size()==m.size(),"%s: size %llu, expected %zu",w,(unsigned long long)b.size(),m.size()); CHECK(b.spill()==spill,"%s: spill %llu, expected %llu",w,(unsigned long long)b.spill(),(unsigned long long)spill);
 CHECK(rb(p,2)==m.size()&&rb(p+2,6)==spill,"%s: stored count or spill differs",w);
 CHECK(b.empty()==m.empty(),"%s: empty() wrong",w);
 CHECK(b.full()==(b.size()>=bucket_capacity(b.block_size())),"%s: full() wrong",w);
 std::vector<E> g; for(size_t i=0;i<b.size();++i){ auto e=b.at(i); auto f=b[i]; CHECK(e.offset==f.offset&&e.size==f.size&&e.hash==f.hash,"%s: operator[] differs from at",w); g.push_back({e.offset,e.size,e.hash}); u8 const* q=p+8+i*18; CHECK(rb(q,6)==e.offset&&rb(q+6,6)==e.size&&rb(q+12,6)==e.hash,"%s: entry %zu is not stored at its place",w,i); }
 for(size_t i=1;i<g.size();++i) CHECK(g[i-1].h<=g[i].h,"%s: entries %zu,%zu out of hash order",w,i-1,i);
 std::sort(g.begin(),g.end()); std::sort(m.begin(),m.end()); CHECK(g==m,"%s: entries differ from the expected multiset",w);
 for(int k=0;k<6;++k){ u64 h=m.empty()||chance(3)?rv():(m[rnd(m.size())].h+rnd(3)-1)&0xffffffffffffull; size_t x=0; for(auto const& e:m) if(e.h<h) ++x; CHECK(b.lower_bound(h)==x,"%s: lower_bound(%llx)=%llu, expected %zu",w,(unsigned long long)h,(unsigned long long)b.lower_bound(h),x); } }
int main(int c,char** v){ init(c,v);
 for(u64 bs=key_file_header::size;bs<=65535;++bs){ u64 e=(bs-8)/18; if(e>65535) e=65535; CHECK(bucket_capacity((nsize_t)bs)==e,"bucket_capacity(%llu)=%llu, expected %llu",(unsigned long long)bs,(unsigned long long)bucket_capacity((nsize_t)bs),(unsigned long long)e); }
 for(u64 bs=0;bs<key_file_header::size;++bs) CHECK(bucket_capacity((nsize_t)bs)==0,"bucket_capacity(%llu) is not 0",(unsigned long long)bs);
 for(u64 cap=0;cap<3600;++cap) CHECK(bucket_size((nkey_t)cap)==8+18*cap,"bucket_size(%llu)",(unsigned long long)cap);
 for(int it=0;it<4000&&!timeup();++it){ newcase(); u64 cap=chance(40)?3640:1+rnd(chance(2)?4:60); u64 bs=8+18*cap+rnd(18); if(bs>65535) bs=65535; if(bs<key_file_header::size) bs=key_file_header::size; cap=(bs-8)/18; logcase("block %llu capacity %llu",(unsigned long long)bs,(unsigned long long)cap);
  Exact x(bs); for(size_t i=0;i<bs;++i) x.p[i]=(u8)rnd(); std::vector<E> m; u64 sp=0; bucket b;
  if(chance(2)){ b=bucket{(nsize_t)bs,x.p,empty}; for(size_t i=0;i<bs;++i) CHECK(!x.p[i],"empty bucket is not zeroed"); }
  else { u64 n=rnd(cap+1); sp=rv(); for(u64 i=0;i<n;++i) m.push_back({rv(),rs(),rv()}); std::sort(m.begin(),m.end()); be(x.p,n,2); be(x.p+2,sp,6); for(u64 i=0;i<n;++i){ be(x.p+8+18*i,m[i].o,6); be(x.p+14+18*i,m[i].s,6); be(x.p+20+18*i,m[i].h,6);} b=bucket{(nsize_t)bs,x.p}; }
  CHECK(b.block_size()==bs,"block_size %llu",(unsigned long long)b.block_size()); CHECK(b.actual_size()==8+18*b.size(),"actual_size");
  same(b,m,sp,x.p,"new"); int n=cap>1000?60:2*cap+10;
  for(int k=0;k<n;++k){ u64 q=rnd(20);
   if(q<12){ if(m.size()==cap) continue; E e{rv(),rs(),m.empty()||chance(2)?rv():m[rnd(m.size())].h}; logcase("insert %llx %llx %llx",(unsigned long long)e.o,(unsigned long long)e.s,(unsigned long long)e.h); b.insert(e.o,e.s,e.h); m.push_back(e); same(b,m,sp,x.p,"insert"); }
   else if(q<17){ if(m.empty()) continue; u64 i=rnd(m.size()); auto e=b.at(i); E d{e.offset,e.size,e.hash}; logcase("erase %llu",(unsigned long long)i); b.erase(i); auto f=std::find(m.begin(),m.end(),d); CHECK(f!=m.end(),"entry not in model"); m.erase(f); same(b,m,sp,x.p,"erase"); for(size_t z=8+18*m.size();z<26+18*m.size();++z) CHECK(!x.p[z],"erased slot is not zeroed"); }
   else if(q<19){ sp=rv(); logcase("spill %llx",(unsigned long long)sp); b.spill(sp); same(b,m,sp,x.p,"spill"); bucket b2{(nsize_t)bs,x.p}; same(b2,m,sp,x.p,"reopen"); }
   else { logcase("clear"); b.clear(); m.clear(); sp=0; same(b,m,sp,x.p,"clear"); for(size_t i=0;i<bs;++i) CHECK(!x.p[i],"cleared bucket is not zeroed"); }
  } } }
