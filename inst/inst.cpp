// Instantiates the real templates of /repo/include with the shipping types.
// No definitions of library code here; extern functors stand for user callbacks.
#include <nudb/nudb.hpp>
using namespace nudb;
using namespace nudb::detail;
using u8=std::uint8_t; using u64=std::uint64_t;
template class nudb::basic_store<xxhasher, native_file>;
struct cbk { void operator()(void const*, std::size_t); };
struct vcb { void operator()(void const*, std::size_t, void const*, std::size_t, error_code&); };
struct prog { void operator()(std::uint64_t, std::uint64_t); };
void i1(store& s, void const* k, cbk& c, error_code& ec){ s.fetch(k,c,ec);}
void i2(store& s, path_type const& a, path_type const& b, path_type const& c, error_code& ec){ s.open(a,b,c,ec);}
void i3(path_type const& a, path_type const& b, path_type const& c, error_code& ec, prog& p, vcb& v, verify_info& info){
 recover<xxhasher>(a,b,c,ec);
 rekey<xxhasher,native_file>(a,b,c,1,1,1,1,ec,p);
 visit(a,v,p,ec);
 verify<xxhasher>(info,a,b,1,p,ec);
 create<xxhasher>(a,b,c,1,1,1,1,1,.5f,ec);
}
// client functions (specified entry points): a use of each field codec
template<class T> void wr_(void* p, u64 v){ ostream os{p,64}; write<T>(os,v); }
template<class T> void wr2_(void* p, u64 v, u64 w){ ostream os{p,64}; write<T>(os,v); write<T>(os,w); }
template<class T> u64 rd_(void const* p, std::size_t n){ istream is{p,n}; u64 v; read<T>(is,v); return v; }
template<class T> u64 rd2_(void const* p, std::size_t n, u64& b){ istream is{p,n}; u64 v; read<T>(is,v); read<T>(is,b); return v; }
template<class T> u64 rdp_(void const* p){ u64 v; readp<T>(p,v); return v; }
#define CODEC(N,T) \
 extern "C" void ndv_wr_##N(void* p,u64 v){ wr_<T>(p,v);} \
 extern "C" void ndv_wr2_##N(void* p,u64 v,u64 w){ wr2_<T>(p,v,w);} \
 extern "C" u64 ndv_rd_##N(void const* p,std::size_t n){ return rd_<T>(p,n);} \
 extern "C" u64 ndv_rd2_##N(void const* p,std::size_t n,u64& b){ return rd2_<T>(p,n,b);} \
 extern "C" u64 ndv_rdp_##N(void const* p){ return rdp_<T>(p);}
CODEC(1,std::uint8_t)
CODEC(2,std::uint16_t)
CODEC(3,uint24_t)
CODEC(4,std::uint32_t)
CODEC(6,uint48_t)
CODEC(8,std::uint64_t)
extern "C" std::size_t ndv_read_size48(void const* p){ istream is{p,6}; std::size_t v; read_size48(is,v); return v; }
extern "C" void ndv_rdblk(void const* p,std::size_t n,void* d,std::size_t k){ istream is{p,n}; read(is,d,k); }
extern "C" void ndv_wrblk(void* p,void const* d,std::size_t k){ ostream os{p,k}; write(os,d,k); }
// headers through files
extern "C" void ndv_hdr(native_file& f, dat_file_header& d, key_file_header& k, log_file_header& l, error_code& ec){
 read(f,d,ec); read(f,k,ec); read(f,l,ec); write(f,d,ec); write(f,k,ec); write(f,l,ec);
 verify(d,ec); verify<xxhasher>(k,ec); verify<xxhasher>(l,ec); verify<xxhasher>(d,k,ec); verify<xxhasher>(k,l,ec);
}
extern "C" u64 ndv_pow2(u64 x){ return ceil_pow2<u64>(x); }
extern "C" u64 ndv_hash(void const* k, std::size_t n, u64 salt){ return hash<xxhasher>(k,n,salt); }
extern "C" u64 ndv_xxh(void const* k, std::size_t n, u64 salt){ return XXH64(k,n,salt); }
extern "C" bucket::value_type ndv_at(bucket& b, nkey_t i){ return b[i]; }
// linear hashing: growth step
extern "C" nbuck_t ndv_bi(nhash_t h, nbuck_t b, u64 m){ return bucket_index(h,b,m); }
// bucket life cycle
extern "C" void ndv_bucket(bucket& b, native_file& f, noff_t o, error_code& ec, bulk_reader<native_file>& r, bulk_writer<native_file>& w, ostream& os){
 b.read(f,o,ec); b.read(r,ec); b.write(os); b.write(f,o,ec); maybe_spill(b,w,ec); b.full(); b.empty(); b.size(); b.spill(); b.actual_size(); b.clear(); b.erase(1);
 bucket c(1,nullptr,empty); bucket d(2,nullptr);
}
void ndv_file_ops(native_file& a, native_file& b){ a=std::move(b); }
