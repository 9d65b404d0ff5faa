// Shared by the replay programs: they run the real code on concrete inputs and
// report one that breaks the property.   usage: prog SEED SECONDS SCRATCH OUT
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <chrono>
#include <algorithm>
#include <functional>
#include <exception>
#include <unistd.h>
#include <signal.h>
using u8=std::uint8_t; using u32=std::uint32_t; using u64=std::uint64_t;
static u64 g_s=1; static double g_budget=60; static std::string g_dir="."; static const char* g_out=nullptr;
static auto g_t0=std::chrono::steady_clock::now();
static std::string g_log;           // description of the current case
inline u64 rnd(){ u64 z=(g_s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
inline u64 rnd(u64 n){ return n?rnd()%n:0; }
inline bool chance(unsigned n){ return rnd(n)==0; }
inline double used(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-g_t0).count(); }
inline bool timeup(){ return used()>g_budget; }
inline void logcase(const char* f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); if(g_log.size()<200000) g_log+=b; g_log+="\n"; }
inline void newcase(){ g_log.clear(); }
static void dumpcase(const char* why){
 if(g_out){ FILE* f=fopen(g_out,"w"); if(f){ fprintf(f,"%s\ncase:\n",why); size_t n=g_log.size(); fputs(n>6000?g_log.c_str()+(n-6000):g_log.c_str(),f); fclose(f);} }
 fprintf(stderr,"FAIL: %s\n",why);
}
[[noreturn]] inline void fail(const char* f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); dumpcase(b); _exit(7); }
#define CHECK(c,...) do{ if(!(c)) fail(__VA_ARGS__); }while(0)
inline void onsig(int s){ dumpcase(s==SIGABRT?"assertion or sanitizer failure":"crash"); _exit(8); }
extern "C" void __asan_set_death_callback(void(*)(void)) __attribute__((weak));
inline void ondeath(){ dumpcase("memory or undefined-behaviour error"); }
inline void onterm(){ try{ auto e=std::current_exception(); if(e) std::rethrow_exception(e); }catch(std::exception const& e){ std::string w=std::string("exception: ")+e.what(); dumpcase(w.c_str()); }catch(...){ dumpcase("unknown exception"); } _exit(9); }
inline void init(int c,char** v){
 if(c>1) g_s=strtoull(v[1],0,10)*1000003; if(c>2) g_budget=atof(v[2]); if(c>3) g_dir=v[3]; if(c>4) g_out=v[4];
 signal(SIGABRT,onsig); std::set_terminate(onterm);
 if(__asan_set_death_callback) __asan_set_death_callback(ondeath);
}
inline std::vector<u8> bytes(size_t n){ std::vector<u8> r(n); for(auto& x:r) x=(u8)rnd(); return r; }
// exact-size heap copy so that any access outside is caught by ASan
struct Exact { u8* p; size_t n; explicit Exact(size_t k):p((u8*)malloc(k?k:1)),n(k){} ~Exact(){ free(p);} Exact(Exact const&)=delete; };
