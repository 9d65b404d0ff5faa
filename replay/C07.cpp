// bulk_reader / bulk_writer over an in-memory file with faults.
#include "memfile.hpp"
#include <nudb/detail/bulkio.hpp>
using namespace nudb; using namespace nudb::detail; using mf::memfile; using mf::g;
int main(int c,char** v){ init(c,v);
 for(int it=0;it<60000&&!timeup();++it){ newcase(); error_code ec; g.disarm();
  auto data=bytes(rnd(chance(2)?60:2000)); g.put("f",data); memfile f; f.open(chance(2)?file_mode::scan:file_mode::read,"f",ec);
  u64 o=rnd(data.size()+1), l=o+rnd(data.size()-o+1), bs=1+rnd(chance(2)?8:300); logcase("reader %llu..%llu buffer %llu",(unsigned long long)o,(unsigned long long)l,(unsigned long long)bs);
  { bulk_reader<memfile> r{f,o,l,bs}; u64 pos=o; bool stop=false; if(chance(4)) g.arm(rnd(4));
   for(int k=0;k<40&&!stop;++k){ CHECK(r.offset()==pos,"reader at %llu, expected %llu",(unsigned long long)r.offset(),(unsigned long long)pos); CHECK(r.eof()==(pos>=l),"eof() wrong at %llu of %llu",(unsigned long long)pos,(unsigned long long)l); u64 n=rnd(chance(3)?4:chance(2)?l-pos+2:bs+20); logcase("prepare %llu",(unsigned long long)n); g.failed=false; auto is=r.prepare(n,ec);
    if(g.failed){ CHECK(ec.value()==EIO,"read error not reported: '%s'",ec.message().c_str()); stop=true; }
    else if(n>l-pos){ CHECK(ec==error::short_read,"request past the end: '%s'",ec.message().c_str()); stop=true; }
    else { CHECK(!ec,"prepare: %s",ec.message().c_str()); if(n){ auto p=is.data(n); CHECK(!memcmp(p,data.data()+pos,n),"reader delivers other bytes at %llu",(unsigned long long)pos);} pos+=n; } ec={}; } }
  g.disarm(); f.close();
  // writer
  bool app=chance(2); memfile w; w.open(app?file_mode::append:file_mode::write,"f",ec); u64 st=app?data.size():rnd(data.size()+1); bs=1+rnd(chance(2)?8:300); logcase("writer at %llu buffer %llu size %zu",(unsigned long long)st,(unsigned long long)bs,data.size());
  { bulk_writer<memfile> b{w,st,bs}; auto exp=data; u64 pos=st; bool err=false; int fa=chance(4)?(int)rnd(4):-1; if(fa>=0) g.arm(fa);
   int n=rnd(20); for(int k=0;k<n&&!err;++k){ CHECK(b.offset()==pos,"writer offset"); u64 z=1+rnd(chance(3)?4:bs+20); if(chance(5)){ logcase("flush"); g.failed=false; b.flush(ec); if(g.failed){ CHECK(!!ec,"write error not reported"); err=true; } else { CHECK(!ec,"flush: %s",ec.message().c_str()); CHECK(g.get("f")==exp,"flushed file differs from the pieces written"); CHECK(b.size()==0,"bytes left after flush"); } continue; }
    logcase("prepare %llu",(unsigned long long)z); g.failed=false; auto os=b.prepare(z,ec); if(g.failed){ CHECK(!!ec,"write error not reported"); err=true; break; } CHECK(!ec,"prepare"); auto d=bytes(z); memcpy(os.data(z),d.data(),z); if(exp.size()<pos+z) exp.resize(pos+z); memcpy(exp.data()+pos,d.data(),z); pos+=z; }
   if(!err){ g.failed=false; b.flush(ec); if(g.failed) CHECK(!!ec,"write error not reported"); else { CHECK(!ec,"flush"); CHECK(b.offset()==pos,"offset after flush"); CHECK(g.get("f")==exp,"flushed file differs from the pieces written (size %zu, expected %zu)",g.get("f").size(),exp.size()); } }
   g.disarm(); }
 } }
