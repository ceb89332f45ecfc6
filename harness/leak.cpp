#include "leak.h"
#include <cstdlib>
#include <cstdint>
#include <new>
#include <cstdio>
extern "C" void __asan_describe_address(void*) __attribute__((weak));
static void __sanitizer_print_it(void* p) { if(__asan_describe_address) __asan_describe_address(p); }
namespace leak {
bool on=false;
namespace { const size_t N=1u<<20; void* tab[N]; size_t cnt=0;
size_t at(void* p) { size_t h=(uintptr_t(p)>>4)*0x9E3779B97F4A7C15ull>>44; while(tab[h] && tab[h]!=p) h=(h+1)&(N-1); return h; }
void add(void* p) { if(cnt<N/2) { size_t i=at(p); if(!tab[i]) { tab[i]=p; cnt++; } } }
void del(void* p) { size_t i=at(p); if(!tab[i]) return; cnt--; tab[i]=0;
    for(size_t j=(i+1)&(N-1);tab[j];j=(j+1)&(N-1)) { void* q=tab[j]; tab[j]=0; tab[at(q)]=q; } } }
size_t alive() { return cnt; }
void forget() { for(size_t i=0;i<N;i++) tab[i]=0; cnt=0; }
void dump() { for(size_t i=0;i<N;i++) if(tab[i]) { fprintf(stderr,"%p:",tab[i]); __sanitizer_print_it(tab[i]); } }
void* get(size_t n) { void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); if(on) add(p); return p; }
void put(void* p) { if(p) { if(cnt) del(p); free(p); } }
}
void* operator new(size_t n) { return leak::get(n); }
void* operator new[](size_t n) { return leak::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p=malloc(n?n:1); if(p && leak::on) leak::add(p); return p; }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { void* p=malloc(n?n:1); if(p && leak::on) leak::add(p); return p; }
void operator delete(void* p) noexcept { leak::put(p); }
void operator delete[](void* p) noexcept { leak::put(p); }
void operator delete(void* p, size_t) noexcept { leak::put(p); }
void operator delete[](void* p, size_t) noexcept { leak::put(p); }
