// a failed assertion counts as a refusal here
#define BOOST_ENABLE_ASSERT_HANDLER
#include <stdexcept>
namespace boost { inline void assertion_failed(char const* e,char const*,char const*,long){ throw std::logic_error(e); } inline void assertion_failed_msg(char const* e,char const*,char const*,char const*,long){ throw std::logic_error(e); } }
#include <nudb/nudb.hpp>
#include "h.hpp"
using namespace nudb::detail;
template<class T> void one(int W,const char* nm){
 u64 mask=W==8?~0ull:((1ull<<(8*W))-1);
 for(int it=0;it<4000;++it){
  newcase(); u64 v=rnd(); if(chance(3)) v=rnd()>>rnd(64); if(chance(4)) v=(1ull<<rnd(64)); if(chance(5)) v=~0ull>>rnd(64); v&=mask;
  logcase("%s value %llx",nm,(unsigned long long)v);
  u8 b[32]; for(auto& x:b) x=0xA5; u8* p=b+8+rnd(8);
  ostream os(p,W); write<T>(os,v);
  CHECK(os.size()==(size_t)W,"%s: stream advanced by %zu, not %d",nm,os.size(),W);
  for(int i=0;i<W;++i) CHECK(p[i]==(u8)(v>>(8*(W-1-i))),"%s: byte %d of %llx is %02x",nm,i,(unsigned long long)v,p[i]);
  for(u8* q=b;q<b+32;++q) if(q<p||q>=p+W) CHECK(*q==0xA5,"%s: byte outside the field written",nm);
  Exact e(W); memcpy(e.p,p,W); u64 r=0; readp<T>(e.p,r); CHECK((u64)r==v,"%s: readp gives %llx for %llx",nm,(unsigned long long)r,(unsigned long long)v);
  istream is(e.p,W); r=0; read<T>(is,r); CHECK(r==v,"%s: read gives %llx for %llx",nm,(unsigned long long)r,(unsigned long long)v);
  u64 w2=rnd()&mask; Exact f(2*W); ostream o2(f.p,2*W); write<T>(o2,v); write<T>(o2,w2); istream i2(f.p,2*W); u64 a=0,c=0; read<T>(i2,a); read<T>(i2,c);
  CHECK(a==v&&c==w2,"%s: sequence %llx %llx read back as %llx %llx",nm,(unsigned long long)v,(unsigned long long)w2,(unsigned long long)a,(unsigned long long)c);
 }
 for(int n=0;n<W;++n){ newcase(); logcase("%s read of %d bytes",nm,n); Exact e(n); memset(e.p,1,n); bool thrown=false; try{ istream is(e.p,n); u64 r; read<T>(is,r);}catch(std::exception const&){ thrown=true; } CHECK(thrown,"%s: read past the end of the input accepted (%d bytes)",nm,n); }
}
int main(int c,char** v){ init(c,v);
 one<std::uint8_t>(1,"8"); one<std::uint16_t>(2,"16"); one<uint24_t>(3,"24"); one<std::uint32_t>(4,"32"); one<uint48_t>(6,"48"); one<std::uint64_t>(8,"64");
 for(int i=0;i<2000;++i){ newcase(); size_t n=rnd(40),k=rnd(40); auto d=bytes(n); d.reserve(1); logcase("block read of %zu from %zu",k,n); Exact s(n); memcpy(s.p,d.data(),n); Exact t(k); bool th=false; try{ istream is(s.p,n); read(is,t.p,k);}catch(std::exception const&){th=true;} CHECK(th==(k>n),"block read past the end: accepted=%d",!th); if(!th) CHECK(!memcmp(t.p,d.data(),k),"block read differs");
  Exact o(n); ostream os(o.p,n); write(os,d.data(),n); CHECK(os.size()==n&&!memcmp(o.p,d.data(),n),"block write differs");
  u64 z=rnd()&0xffffffffull; Exact q(6); ostream oq(q.p,6); write<uint48_t>(oq,z); istream iq(q.p,6); std::size_t zz; read_size48(iq,zz); CHECK(zz==z,"read_size48"); }
}
