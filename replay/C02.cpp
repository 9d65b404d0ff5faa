#include <nudb/nudb.hpp>
#include "h.hpp"
using namespace nudb; using namespace nudb::detail;
// in-memory file
struct mf { std::vector<u8> b; void read(u64 o,void* p,size_t n,error_code& ec){ if(o+n>b.size()||o+n<o){ ec=error::short_read; return;} memcpy(p,b.data()+o,n);} void write(u64 o,void const* p,size_t n,error_code&){ if(b.size()<o+n) b.resize(o+n,0xCC); memcpy(b.data()+o,p,n);} u64 size(error_code&){ return b.size(); } };
static void be(std::vector<u8>& v,u64 x,int n){ for(int i=n-1;i>=0;--i) v.push_back((u8)(x>>(8*i))); }
static void str(std::vector<u8>& v,char const* s){ v.insert(v.end(),s,s+8); }
static u64 p2(u64 b){ u64 m=1; while(m<b) m*=2; return m; }
static void same(std::vector<u8> const& a,std::vector<u8> const& b,char const* w){ CHECK(a.size()==b.size(),"%s: %zu bytes written, layout says %zu",w,a.size(),b.size()); for(size_t i=0;i<a.size();++i) CHECK(a[i]==b[i],"%s: byte %zu is %02x, layout says %02x",w,i,a[i],b[i]); }
int main(int c,char** v){ init(c,v);
 for(int it=0;it<20000&&!timeup();++it){ newcase(); error_code ec;
  u64 uid=rnd(),app=chance(3)?1:rnd(),salt=rnd(),kfs=rnd(),dfs=rnd(); unsigned ks=1+rnd(65535),lf=1+rnd(65535),bs=chance(2)?4096:key_file_header::size+rnd(9000); if(chance(20)) bs=65535;
  u64 pep=pepper<xxhasher>(salt);
  logcase("uid %llx appnum %llx salt %llx key size %u load factor %u block size %u",(unsigned long long)uid,(unsigned long long)app,(unsigned long long)salt,ks,lf,bs);
  mf f,g,l; dat_file_header dh; dh.version=2; dh.uid=uid; dh.appnum=app; dh.key_size=ks; write(f,dh,ec); CHECK(!ec,"write error");
  std::vector<u8> w; str(w,"nudb.dat"); be(w,2,2); be(w,uid,8); be(w,app,8); be(w,ks,2); w.resize(w.size()+64); same(f.b,w,"data header"); CHECK(dat_file_header::size==w.size(),"size");
  key_file_header kh; kh.version=2; kh.uid=uid; kh.appnum=app; kh.key_size=ks; kh.salt=salt; kh.pepper=pep; kh.block_size=bs; kh.load_factor=lf; write(g,kh,ec); CHECK(!ec,"write error");
  w.clear(); str(w,"nudb.key"); be(w,2,2); be(w,uid,8); be(w,app,8); be(w,ks,2); be(w,salt,8); be(w,pep,8); be(w,bs,2); be(w,lf,2); w.resize(bs); same(g.b,w,"key header");
  log_file_header lh; lh.version=2; lh.uid=uid; lh.appnum=app; lh.key_size=ks; lh.salt=salt; lh.pepper=pep; lh.block_size=bs; lh.key_file_size=kfs; lh.dat_file_size=dfs; write(l,lh,ec);
  w.clear(); str(w,"nudb.log"); be(w,2,2); be(w,uid,8); be(w,app,8); be(w,ks,2); be(w,salt,8); be(w,pep,8); be(w,bs,2); be(w,kfs,8); be(w,dfs,8); same(l.b,w,"log header");
  // read back
  unsigned nb=rnd(60),ex=rnd(bs); g.b.resize(bs*(1+nb)+ex); u64 buckets=nb;
  dat_file_header d2; read(f,d2,ec); key_file_header k2; read(g,k2,ec); log_file_header l2; read(l,l2,ec); CHECK(!ec,"read error");
  CHECK(!memcmp(d2.type,"nudb.dat",8)&&d2.version==2&&d2.uid==uid&&d2.appnum==app&&d2.key_size==ks,"data header read back differs");
  CHECK(!memcmp(k2.type,"nudb.key",8)&&k2.version==2&&k2.uid==uid&&k2.appnum==app&&k2.key_size==ks&&k2.salt==salt&&k2.pepper==pep&&k2.block_size==bs&&k2.load_factor==lf,"key header read back differs");
  CHECK(!memcmp(l2.type,"nudb.log",8)&&l2.version==2&&l2.uid==uid&&l2.appnum==app&&l2.key_size==ks&&l2.salt==salt&&l2.pepper==pep&&l2.block_size==bs&&l2.key_file_size==kfs&&l2.dat_file_size==dfs,"log header read back differs");
  CHECK(k2.capacity==(bs<key_file_header::size?0:(bs-8)/18),"capacity %zu",(size_t)k2.capacity); CHECK(k2.buckets==buckets,"buckets %zu from a file of %zu bytes",(size_t)k2.buckets,g.b.size()); if(buckets) CHECK(k2.modulus==p2(buckets),"modulus %zu",(size_t)k2.modulus);
  // checks: perturb one field at a time
  auto vd=[&](dat_file_header x){ error_code e; verify(x,e); return e; };
  auto vk=[&](key_file_header x){ error_code e; verify<xxhasher>(x,e); return e; };
  auto vl=[&](log_file_header x){ error_code e; verify<xxhasher>(x,e); return e; };
  auto vdk=[&](dat_file_header x,key_file_header y){ error_code e; verify<xxhasher>(x,y,e); return e; };
  auto vkl=[&](key_file_header x,log_file_header y){ error_code e; verify<xxhasher>(x,y,e); return e; };
#define EXP(call,want) do{ error_code e_=call; CHECK(e_==(want),"%s gives %s, expected %s",#call,e_.message().c_str(),error_code(want).message().c_str()); }while(0)
  error_code ok; if(buckets==0) k2.buckets=1+rnd(9);
  EXP(vd(d2),ok); EXP(vk(k2),ok); EXP(vl(l2),ok); EXP(vdk(d2,k2),ok); EXP(vkl(k2,l2),ok);
  { auto x=d2; x.type[rnd(8)]^=1+rnd(127); EXP(vd(x),error::not_data_file); } { auto x=d2; x.version=chance(2)?1:3+rnd(99); EXP(vd(x),error::different_version); } { auto x=d2; x.key_size=0; EXP(vd(x),error::invalid_key_size); }
  { auto x=k2; x.type[rnd(8)]^=1+rnd(127); EXP(vk(x),error::not_key_file); EXP(vdk(d2,x),error::not_key_file);} { auto x=k2; x.version=chance(2)?1:3+rnd(99); EXP(vk(x),error::different_version); } { auto x=k2; x.key_size=0; EXP(vk(x),error::invalid_key_size); } { auto x=k2; x.pepper^=1ull<<rnd(64); EXP(vk(x),error::hash_mismatch); } { auto x=k2; x.load_factor=0; EXP(vk(x),error::invalid_load_factor); } { auto x=k2; x.capacity=0; EXP(vk(x),error::invalid_capacity); } { auto x=k2; x.buckets=0; EXP(vk(x),error::invalid_bucket_count); }
  { auto x=l2; x.type[rnd(8)]^=1+rnd(127); EXP(vl(x),error::not_log_file); EXP(vkl(k2,x),error::not_log_file);} { auto x=l2; x.version=chance(2)?1:3+rnd(99); EXP(vl(x),error::different_version); } { auto x=l2; x.key_size=0; EXP(vl(x),error::invalid_key_size); } { auto x=l2; x.pepper^=1ull<<rnd(64); EXP(vl(x),error::hash_mismatch); }
  { auto x=k2; x.uid^=1ull<<rnd(64); EXP(vdk(d2,x),error::uid_mismatch); EXP(vkl(x,l2),error::uid_mismatch);} { auto x=k2; x.appnum^=1ull<<rnd(64); EXP(vdk(d2,x),error::appnum_mismatch); EXP(vkl(x,l2),error::appnum_mismatch);} { auto x=k2; x.key_size=ks==65535?1:ks+1; EXP(vdk(d2,x),error::key_size_mismatch); EXP(vkl(x,l2),error::key_size_mismatch);}
  { auto x=k2; x.block_size^=1u<<rnd(12); EXP(vkl(x,l2),error::block_size_mismatch);} { auto x=l2; x.salt^=1ull<<rnd(64); x.pepper=pepper<xxhasher>(x.salt); EXP(vkl(k2,x),error::salt_mismatch);} { auto x=k2; x.pepper^=1; EXP(vkl(x,l2),error::pepper_mismatch);}
  // short files
  { mf s; s.b.assign(f.b.begin(),f.b.begin()+rnd(dat_file_header::size)); dat_file_header x; error_code e; read(s,x,e); CHECK(e==error::short_read,"short data header accepted"); }
  { mf s; s.b.assign(g.b.begin(),g.b.begin()+rnd(key_file_header::size)); key_file_header x; error_code e; read(s,x,e); CHECK(e==error::short_read,"short key header accepted"); }
  { mf s; s.b.assign(l.b.begin(),l.b.begin()+rnd(log_file_header::size)); log_file_header x; error_code e; read(s,x,e); CHECK(e==error::short_read,"short log header accepted"); }
  { mf s; key_file_header x=kh; x.block_size=rnd(key_file_header::size); error_code e; write(s,x,e); CHECK(e==error::invalid_block_size&&s.b.empty(),"key header larger than a block written"); }
 }
}
