/* Allocator seam (LD_PRELOAD): every block is filled with a seeded pattern and is
 * followed by a guard area holding the same pattern, so that what uninitialised or
 * out-of-bounds reads return is decided by the simulator, not by history. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <malloc.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#define GUARD 512
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t);
extern void __libc_free(void *);
extern void *__libc_realloc(void *, size_t); extern void *__libc_memalign(size_t, size_t);
static volatile uint64_t pattern; static volatile int on = 1;
static uint64_t fills;
static void fill(void *p, size_t n){
    uint64_t v = pattern; unsigned char *q = p; 
    while(n >= 8) { memcpy(q, &v, 8); q += 8; n -= 8; }
    memcpy(q, &v, n);
    fills++;
}
static int64_t live;
static void *in(void *p){ if(p) __atomic_fetch_add(&live, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED); return p; }
static void out(void *p){ if(p) __atomic_fetch_sub(&live, (int64_t)malloc_usable_size(p), __ATOMIC_RELAXED); }
int64_t hf_live(void){ return live; }
void free(void *p){ out(p); __libc_free(p); }
void hf_set(uint64_t pat){ pattern = pat; }
uint64_t hf_fills(void){ return fills; }
void *malloc(size_t n){ if(n > SIZE_MAX - GUARD) return NULL; void *p = __libc_malloc(n + GUARD); if(p && on) fill(p, n + GUARD); return in(p); }
void *calloc(size_t a, size_t b){ size_t n; if(__builtin_mul_overflow(a, b, &n) || n > SIZE_MAX - GUARD) return NULL;
    void *p = __libc_calloc(1, n + GUARD); if(p && on) fill((char*)p + n, GUARD); return in(p); }
void *realloc(void *q, size_t n){ if(n > SIZE_MAX - GUARD) return NULL; 
    out(q); void *p = __libc_realloc(q, n + GUARD); if(!p){ in(q); return p; }
    if(on) fill((char*)p + n, GUARD); return in(p); }
void *memalign(size_t al, size_t n){ if(n > SIZE_MAX - GUARD) return NULL; void *p = __libc_memalign(al, n + GUARD); if(p && on) fill(p, n + GUARD); return in(p); }
void *aligned_alloc(size_t al, size_t n){ return memalign(al, n); }
int posix_memalign(void **out, size_t al, size_t n){ void *p = memalign(al, n); if(!p) return 12; *out = p; return 0; }
/* Leaves the pattern in the part of the stack that the next calls will use. */
__attribute__((noinline)) void hf_stack(uint64_t v){ volatile uint64_t a[6144]; for(int i = 0; i < 6144; i++) a[i] = v; __asm__ volatile("" :: "r"(a) : "memory"); }
