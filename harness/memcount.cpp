#include "memcount.hpp"
#include <malloc.h>
#include <cerrno>
#include <cstring>
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t,size_t); void* __libc_realloc(void*,size_t); void* __libc_memalign(size_t,size_t); }
static long blocks = 0,bytes = 0;
static void* in(void* p) { if (p) { ++blocks; bytes += (long)malloc_usable_size(p); } return p; }
static void out(void* p) { if (p) { --blocks; bytes -= (long)malloc_usable_size(p); } }
extern "C" {
void* malloc(size_t n) { return in(__libc_malloc(n)); }
void  free(void* p) { out(p); __libc_free(p); }
void* calloc(size_t a,size_t b) { return in(__libc_calloc(a,b)); }
void* realloc(void* p,size_t n) { out(p); void* q = __libc_realloc(p,n); if (!q && n) { in(p); return q; } return in(q); }
void* memalign(size_t a,size_t n) { return in(__libc_memalign(a,n)); }
void* aligned_alloc(size_t a,size_t n) { return in(__libc_memalign(a,n)); }
int   posix_memalign(void** p,size_t a,size_t n) { void* q = in(__libc_memalign(a,n)); if (!q) return ENOMEM; *p = q; return 0; }
}
namespace vf { long heapLiveBlocks() { return blocks; } long heapLiveBytes() { return bytes; } }
