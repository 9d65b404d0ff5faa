// In-memory file system with fault injection, crash images and an operation log; a File for the real templates.
#pragma once
#include "h.hpp"
#include <nudb/nudb.hpp>
#include <mutex>
#include <atomic>
namespace mf {
using namespace nudb;
using img=std::vector<u8>;
struct wop { u64 off; img data; bool trunc; u64 size; };
struct node { img cur, dur; std::vector<wop> pend; };            // pend: operations since the last sync
struct opn { std::string op,path; u64 off,n; };
struct fs_t {
 std::map<std::string,std::shared_ptr<node>> f; std::recursive_mutex m;
 long count=0, failat=-1, failspan=1; bool failed=false; bool record=false; std::vector<opn> ops; bool readonly_violation=false; bool wild=false; std::string wildwhat; int opens=0;
 std::function<void(opn const&)> hook;                            // called before each operation takes effect
 void pre(const char* op,std::string const& p,u64 o,u64 n){ if(hook) hook(opn{op,p,o,n}); }   // outside the lock
 bool gate(const char* op,std::string const& p,u64 o,u64 n,error_code& ec){
  opn x{op,p,o,n}; if(record) ops.push_back(x);
  long c=count++; if(failat>=0&&c>=failat&&c<failat+failspan){ failed=true; ec=error_code{EIO,boost::system::system_category()}; return false; } return true; }
 void arm(long at,long span=1){ count=0; failat=at; failspan=span; failed=false; }
 void disarm(){ failat=-1; failed=false; }
 bool has(std::string const& p){ return f.count(p)!=0; }
 img& get(std::string const& p){ return f[p]->cur; }
 void put(std::string const& p,img const& b){ auto n=std::make_shared<node>(); n->cur=b; n->dur=b; f[p]=n; }
};
static fs_t g;
inline void apply(img& c,wop const& w){ if(w.trunc){ c.resize(w.size); return; } if(!w.data.empty()&&c.size()<w.off+w.data.size()) c.resize(w.off+w.data.size()); if(!w.data.empty()) memcpy(c.data()+w.off,w.data.data(),w.data.size()); }
// what a crash may leave: the durable image plus any subset of the unsynced operations, each possibly torn
inline img crashimg(node const& n,int how){ img c=n.dur; size_t k=0,stop=rnd(n.pend.size()+1); for(auto const& w:n.pend){ bool keep= how==0?false: how==1?true: how==2? k<stop : !chance(3); if(keep){ if(how==3&&!w.trunc&&chance(4)){ wop t=w; t.data.resize(rnd(t.data.size()+1)); apply(c,t);} else apply(c,w);} ++k; } return c; }
struct memfile {
 std::shared_ptr<node> n; std::string p; file_mode mode=file_mode::read; std::atomic<int>* dummy=nullptr;
 memfile()=default; memfile(memfile const&)=delete; memfile& operator=(memfile const&)=delete;
 memfile(memfile&& o):n(std::move(o.n)),p(std::move(o.p)),mode(o.mode){ o.n.reset(); }
 memfile& operator=(memfile&& o){ if(&o==this) return *this; n=std::move(o.n); p=std::move(o.p); mode=o.mode; o.n.reset(); return *this; }
 ~memfile(){ }
 bool is_open() const { return !!n; }
 void close(){ if(n){ std::lock_guard<std::recursive_mutex> l(g.m); error_code e; n.reset(); } }
 static void enoent(error_code& ec){ ec=error_code{ENOENT,boost::system::system_category()}; }
 void create(file_mode md,path_type const& path,error_code& ec){ g.pre("create",path,0,0); std::lock_guard<std::recursive_mutex> l(g.m); CHECK(!n,"create on an open file"); if(!g.gate("create",path,0,0,ec)) return; if(g.has(path)){ ec=error_code{EEXIST,boost::system::system_category()}; return; } n=std::make_shared<node>(); g.f[path]=n; p=path; mode=md; }
 void open(file_mode md,path_type const& path,error_code& ec){ g.pre("open",path,0,0); std::lock_guard<std::recursive_mutex> l(g.m); CHECK(!n,"open on an open file"); if(!g.gate("open",path,0,0,ec)) return; if(!g.has(path)){ enoent(ec); return; } n=g.f[path]; p=path; mode=md; }
 static void erase(path_type const& path,error_code& ec){ g.pre("erase",path,0,0); std::lock_guard<std::recursive_mutex> l(g.m); if(!g.gate("erase",path,0,0,ec)) return; if(!g.has(path)){ enoent(ec); return; } g.f.erase(path); }
 u64 size(error_code& ec) const { g.pre("size",p,0,0); std::lock_guard<std::recursive_mutex> l(g.m); CHECK(n!=nullptr,"size of a closed file"); if(!g.gate("size",p,0,0,ec)) return 0; return n->cur.size(); }
 void read(u64 off,void* d,std::size_t k,error_code& ec){ g.pre("read",p,off,k); std::lock_guard<std::recursive_mutex> l(g.m); CHECK(n!=nullptr,"read of a closed file"); if(!g.gate("read",p,off,k,ec)) return; auto& c=n->cur; if(off>c.size()||k>c.size()-off){ if(k){ ec=error::short_read; return; } } if(k) memcpy(d,c.data()+off,k); }
 void write(u64 off,void const* s,std::size_t k,error_code& ec){ g.pre("write",p,off,k); std::lock_guard<std::recursive_mutex> l(g.m); CHECK(n!=nullptr,"write of a closed file"); CHECK(mode==file_mode::write||mode==file_mode::append,"write to %s opened for reading",p.c_str()); CHECK(off<(1ull<<31)&&k<(1ull<<31),"write at a wild offset %llu+%zu of %s",(unsigned long long)off,k,p.c_str()); if(mode==file_mode::append&&k) CHECK(off==n->cur.size(),"write at %llu of append-only %s of size %zu",(unsigned long long)off,p.c_str(),n->cur.size()); wop w{off,img((u8 const*)s,(u8 const*)s+k),false,0}; if(!g.gate("write",p,off,k,ec)){ w.data.resize(rnd(k+1)); apply(n->cur,w); n->pend.push_back(w); return; } apply(n->cur,w); n->pend.push_back(std::move(w)); }
 void sync(error_code& ec){ g.pre("sync",p,0,0); std::lock_guard<std::recursive_mutex> l(g.m); CHECK(n!=nullptr,"sync of a closed file"); if(!g.gate("sync",p,0,0,ec)) return; n->dur=n->cur; n->pend.clear(); }
 void trunc(u64 k,error_code& ec){ g.pre("trunc",p,k,0); std::lock_guard<std::recursive_mutex> l(g.m); CHECK(n!=nullptr,"trunc of a closed file"); if(!g.gate("trunc",p,k,0,ec)) return; CHECK(k<(1ull<<31),"truncate to a wild size %llu",(unsigned long long)k); wop w{0,{},true,k}; apply(n->cur,w); n->pend.push_back(w); }
};
}
