#include <nudb/nudb.hpp>
#include "h.hpp"
using namespace nudb::detail;
int main(int c,char** v){ init(c,v);
 auto p2=[](u64 b){ u64 m=1; while(m<b) m*=2; return m; };
 for(int it=0;it<400000&&!timeup();++it){ newcase(); u64 b=1+rnd(chance(2)?70:chance(2)?5000:(1ull<<(1+rnd(31)))); if(chance(6)) b=(1ull<<rnd(31)); if(chance(6)) b=(1ull<<rnd(31))+1; u64 h=rnd()&0xffffffffffffull; if(chance(4)) h=rnd(4*b);
  logcase("buckets %llu hash %llx",(unsigned long long)b,(unsigned long long)h); u64 m=p2(b); CHECK(ceil_pow2<u64>(b)==m,"ceil_pow2 %llu",(unsigned long long)ceil_pow2<u64>(b));
  u64 i=bucket_index(h,b,m); u64 n=h%m; if(n>=b) n-=m/2; CHECK(i==n&&i<b,"bucket_index gives %llu, addressing says %llu",(unsigned long long)i,(unsigned long long)n);
  // growth as the commit does it
  u64 b2=b+1,m2=p2(b2); u64 j=bucket_index(h,b2,m2); u64 split=b2-1-m2/2; CHECK(j==i||(i==split&&j==b),"growth moves hash from %llu to %llu",(unsigned long long)i,(unsigned long long)j);
 }
 for(u64 x=1;x<(1u<<16);++x){ newcase(); logcase("ceil_pow2(%llu)",(unsigned long long)x); CHECK(ceil_pow2<u64>(x)==p2(x),"ceil_pow2"); }
 for(int k=0;k<63;++k) for(int d=-1;d<=1;++d){ u64 x=(1ull<<k)+d; if(!x) continue; newcase(); logcase("ceil_pow2(%llu)",(unsigned long long)x); u64 w=k==63?0:p2(x); CHECK(ceil_pow2<u64>(x)==w,"ceil_pow2"); }
}
