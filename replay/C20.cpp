#include <nudb/nudb.hpp>
#include "h.hpp"
using namespace nudb; using namespace nudb::detail;
static const u64 P1=11400714785074694791ull,P2=14029467366897019727ull,P3=1609587929392839161ull,P4=9650029242287828579ull,P5=2870177450012600261ull;
static u64 rotl(u64 x,int r){ return (x<<r)|(x>>(64-r)); }
static u64 g(const u8* p,int n){ u64 r=0; for(int i=n-1;i>=0;--i) r=r<<8|p[i]; return r; }
static u64 rd(u64 a,u64 x){ return rotl(a+x*P2,31)*P1; }
static u64 ref(const u8* p,size_t n,u64 seed){ const u8* e=p+n; u64 h;
 if(n>=32){ u64 v[4]={seed+P1+P2,seed+P2,seed,seed-P1}; while(e-p>=32){ for(int i=0;i<4;++i){ v[i]=rd(v[i],g(p,8)); p+=8; } } h=rotl(v[0],1)+rotl(v[1],7)+rotl(v[2],12)+rotl(v[3],18); for(int i=0;i<4;++i) h=(h^rd(0,v[i]))*P1+P4; } else h=seed+P5;
 h+=n; while(e-p>=8){ h=rotl(h^rd(0,g(p,8)),27)*P1+P4; p+=8; } if(e-p>=4){ h=rotl(h^(g(p,4)*P1),23)*P2+P3; p+=4; } while(p<e){ h=rotl(h^(*p*P5),11)*P1; ++p; }
 h^=h>>33; h*=P2; h^=h>>29; h*=P3; h^=h>>32; return h; }
int main(int c,char** v){ init(c,v);
 for(int round=0;round<3&&!timeup();++round) for(size_t n=0;n<(round?400u:200u);++n) for(int al=0;al<8;++al){
  newcase(); u64 seed=chance(3)?0:chance(3)?~0ull:rnd(); logcase("length %zu alignment %d seed %llx",n,al,(unsigned long long)seed);
  Exact e(n+al); for(size_t i=0;i<n+al;++i) e.p[i]=chance(4)?0xff:(u8)rnd(); u64 want=ref(e.p+al,n,seed);
  xxhasher h(seed); u64 got=h(e.p+al,n); CHECK(got==want,"xxhasher gives %016llx, XXH64 is %016llx",(unsigned long long)got,(unsigned long long)want);
  CHECK(hash(e.p+al,n,h)==(want>>16),"hash() is not the top 48 bits"); CHECK((hash<xxhasher>(e.p+al,n,seed))==(want>>16),"hash<> is not the top 48 bits");
  u64 le=0; u8 sb[8]; memcpy(sb,&seed,8); (void)le; CHECK(pepper<xxhasher>(seed)==ref(sb,8,seed),"pepper"); }
}
