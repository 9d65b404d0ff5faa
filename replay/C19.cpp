// posix_file against a kernel that splits, interrupts and fails transfers.
#include <sys/syscall.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <errno.h>
#include <dirent.h>
#include <stdarg.h>
#include "h.hpp"
static int fm=0; static int inj_errno=0; static bool injected=false; static int cap_left=-1;
static int gate(int what){ if(!fm) return 0; if(cap_left==0) return 0; if(fm==2&&chance(4)){ injected=true; inj_errno=what; return what; } if((fm&1)&&chance(3)) return EINTR; return 0; }
static size_t cut(size_t n){ if(fm&&n>1&&chance(2)) return 1+rnd(n-1); return n; }
extern "C" {
ssize_t my_pread(int fd,void* p,size_t n,off_t o){ int e=gate(EIO); if(e){ errno=e; return -1;} return syscall(SYS_pread64,fd,p,cut(n),o); }
ssize_t pread(int fd,void* p,size_t n,off_t o){ return my_pread(fd,p,n,o); } ssize_t pread64(int fd,void* p,size_t n,off_t o){ return my_pread(fd,p,n,o); }
ssize_t my_pwrite(int fd,void const* p,size_t n,off_t o){ int e=gate(ENOSPC); if(e){ errno=e; return -1;} return syscall(SYS_pwrite64,fd,p,cut(n),o); }
ssize_t pwrite(int fd,void const* p,size_t n,off_t o){ return my_pwrite(fd,p,n,o); } ssize_t pwrite64(int fd,void const* p,size_t n,off_t o){ return my_pwrite(fd,p,n,o); }
int fsync(int fd){ int e=gate(EIO); if(e){ errno=e; return -1;} return 0; }
int fdatasync(int fd){ return fsync(fd); }
int my_trunc(int fd,off_t n){ int e=gate(ENOSPC); if(e){ errno=e; return -1;} return syscall(SYS_ftruncate,fd,n); }
int ftruncate(int fd,off_t n) noexcept { return my_trunc(fd,n); } int ftruncate64(int fd,off_t n) noexcept { return my_trunc(fd,n); }
static int fadv_err=0; int posix_fadvise(int,off_t,off_t,int) noexcept { return fadv_err; } int posix_fadvise64(int,off_t,off_t,int) noexcept { return fadv_err; }
static int fstat_err=0;
int fstat(int fd,struct stat* st) noexcept { if(fstat_err){ errno=fstat_err; return -1;} return syscall(SYS_fstat,fd,st); }
int fstat64(int fd,struct stat64* st) noexcept { if(fstat_err){ errno=fstat_err; return -1;} return syscall(SYS_fstat,fd,st); }
}
#include <nudb/nudb.hpp>
using namespace nudb;
static int nfds(){ int n=0; DIR* d=opendir("/proc/self/fd"); while(readdir(d)) ++n; closedir(d); return n; }
int main(int c,char** v){ init(c,v); std::string path=g_dir+"/f", path2=g_dir+"/g";
 int base=nfds();
 for(int it=0;it<30000&&!timeup();++it){ newcase(); error_code ec; fm=0; syscall(SYS_unlink,path.c_str()); syscall(SYS_unlink,path2.c_str());
  { posix_file f; f.create(file_mode::write,path,ec); CHECK(!ec,"create: %s",ec.message().c_str());
   std::vector<u8> m; 
   for(int k=0;k<12;++k){ ec={}; u64 o=rnd(chance(2)?m.size()+1:600),n=rnd(chance(3)?3:300); auto d=bytes(n); fm=rnd(3); injected=false; 
    if(chance(2)){ logcase("write %llu+%llu mode %d",(unsigned long long)o,(unsigned long long)n,fm); f.write(o,d.data(),n,ec); bool inj=injected; fm=0; 
      auto old=m; if(m.size()<o+n&&n) m.resize(o+n); if(n) memcpy(m.data()+o,d.data(),n);
      if(inj){ CHECK(ec.value()==ENOSPC&&ec.category()==boost::system::system_category(),"failed write reported as '%s'",ec.message().c_str()); std::vector<u8> z(2000); ssize_t g=syscall(SYS_pread64,open(path.c_str(),O_RDONLY),z.data(),2000,0); (void)g; error_code e2; u64 sz=f.size(e2); std::vector<u8> cur(sz); f.read(0,cur.data(),sz,e2); CHECK(!e2,"reread"); CHECK(sz>=old.size()&&sz<=m.size(),"size after a failed write"); for(u64 i=0;i<sz;++i) if(i<o||i>=o+n) CHECK(cur[i]==(i<old.size()?old[i]:0),"failed write changed byte %llu outside its range",(unsigned long long)i); m=cur; for(int fd=3;fd<64;++fd){ char l[64],t[512]; snprintf(l,64,"/proc/self/fd/%d",fd); ssize_t r=readlink(l,t,511); if(r>0){ t[r]=0; int fl=fcntl(fd,F_GETFL); if(strcmp(t,path.c_str())==0&&(fl&3)==O_RDONLY) syscall(SYS_close,fd);} } }
      else { CHECK(!ec,"write: %s",ec.message().c_str()); error_code e2; u64 sz=f.size(e2); CHECK(sz==m.size(),"size %llu after write, expected %zu",(unsigned long long)sz,m.size()); std::vector<u8> cur(sz); f.read(0,cur.data(),sz,e2); CHECK(!e2&&cur==m,"file contents differ from the bytes written"); } }
    else { logcase("read %llu+%llu mode %d size %zu",(unsigned long long)o,(unsigned long long)n,fm,m.size()); Exact e(n); f.read(o,e.p,n,ec); bool inj=injected; fm=0; bool in=n==0||o+n<=m.size();
      if(inj&&ec.category()==boost::system::system_category()) CHECK(ec.value()==EIO,"failed read reported as '%s'",ec.message().c_str());
      else if(inj&&!(ec==error::short_read)) fail("failed system call not reported by read");
      else if(in) { CHECK(!ec,"read inside the file: %s",ec.message().c_str()); CHECK(n==0||!memcmp(e.p,m.data()+o,n),"read returns other bytes"); } else CHECK(ec==error::short_read,"read past the end: '%s'",ec.message().c_str()); }
   }
   ec={}; fm=rnd(3); injected=false; u64 z=rnd(900); f.trunc(z,ec); bool inj=injected; fm=0; if(inj) CHECK(ec.value()==ENOSPC,"failed truncate reported as '%s'",ec.message().c_str()); else { CHECK(!ec,"truncate: %s",ec.message().c_str()); m.resize(z); std::vector<u8> cur(z); f.read(0,cur.data(),z,ec); CHECK(!ec&&cur==m,"contents after truncate"); CHECK(f.size(ec)==z,"size after truncate"); }
   ec={}; fm=rnd(3); injected=false; f.sync(ec); inj=injected; fm=0; CHECK(!!ec==inj,"sync: injected %d, reported '%s'",inj,ec.message().c_str());
   ec={}; fstat_err=EIO; f.size(ec); fstat_err=0; CHECK(ec.value()==EIO,"failing fstat not reported");
   // create never replaces
   { posix_file g; error_code e; g.create(file_mode::append,path,e); CHECK(e==errc::file_exists,"create over an existing file: '%s'",e.message().c_str()); CHECK(!g.is_open(),"open after a failed create"); struct stat st; syscall(SYS_stat,path.c_str(),&st); error_code e2; CHECK((u64)st.st_size==f.size(e2),"create truncated an existing file"); }
   f.close(); CHECK(!f.is_open(),"open after close"); f.close();
  }
  CHECK(nfds()==base,"a handle leaked"); ec={};
  // modes
  file_mode ms[4]={file_mode::scan,file_mode::read,file_mode::append,file_mode::write};
  for(int i=0;i<4;++i){ logcase("mode %d",i); posix_file f; error_code e; f.open(ms[i],path,e); CHECK(!e,"open: %s",e.message().c_str()); u8 b=1; e={}; u64 sz=f.size(e); f.write(sz,&b,1,e); CHECK((i>=2)==!e,"write in mode %d: '%s'",i,e.message().c_str()); if(i>=2){ u8 r=0; error_code e2; f.read(sz,&r,1,e2); CHECK(!e2&&r==1,"read in mode %d",i); }
   posix_file g(std::move(f)); CHECK(!f.is_open()&&g.is_open(),"move leaves handles wrong"); posix_file h; error_code e3; h.open(file_mode::read,path,e3); h=std::move(g); CHECK(h.is_open()&&!g.is_open(),"move assignment"); h=std::move(h); CHECK(h.is_open(),"self move"); }
  CHECK(nfds()==base,"a handle leaked by moving");
  { error_code e; posix_file f; f.open(file_mode::read,path2,e); CHECK(e==errc::no_such_file_or_directory&&!f.is_open(),"open of a missing file"); e={}; posix_file::erase(path2,e); CHECK(e==errc::no_such_file_or_directory,"erase of a missing file"); e={}; posix_file::erase(path,e); CHECK(!e,"erase"); CHECK(access(path.c_str(),F_OK)!=0,"erase left the file"); }
  { error_code e; posix_file f; fadv_err=EINVAL; errno=0; f.create(file_mode::write,path,e); fadv_err=0; CHECK(e.value()==EINVAL,"failing posix_fadvise reported as '%s'",e.message().c_str()); f.close(); e={}; fadv_err=EBADF; f.open(file_mode::read,path,e); fadv_err=0; CHECK(e.value()==EBADF,"failing posix_fadvise reported as '%s'",e.message().c_str()); }
  CHECK(nfds()==base,"a handle leaked");
 }
}
