/* LD_PRELOAD: counts live heap blocks and bytes of the whole process (C21), and their peak (C30). */
#include <errno.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stddef.h>
#include <stdint.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);

static atomic_llong blocks, bytes, calls, peak;

static void *in(void *p) {
  if (p) {
    atomic_fetch_add(&blocks, 1);
    atomic_fetch_add(&calls, 1);
    long long n = (long long)malloc_usable_size(p);
    n += atomic_fetch_add(&bytes, n);
    long long most = atomic_load(&peak);
    while (n > most && !atomic_compare_exchange_weak(&peak, &most, n)) {
    }
  }
  return p;
}
static void out(void *p) {
  if (p) {
    atomic_fetch_sub(&blocks, 1);
    atomic_fetch_sub(&bytes, (long long)malloc_usable_size(p));
  }
}

void *malloc(size_t n) { return in(__libc_malloc(n)); }
void free(void *p) {
  int e = errno;
  out(p);
  __libc_free(p);
  errno = e;
}
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) {
  out(p);
  void *q = __libc_realloc(p, n);
  if (!q && p && n) {
    in(p);
    return q;
  }
  return in(q);
}
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **r, size_t a, size_t n) {
  void *p = in(__libc_memalign(a, n));
  if (!p) return ENOMEM;
  *r = p;
  return 0;
}

void count_take(long long *o) { o[0] = blocks, o[1] = bytes, o[2] = calls; }

/* The peak since the last call of this function, in bytes above what was held then. */
long long count_peak(void) {
  static atomic_llong held;
  long long r = peak - held;
  held = (long long)bytes;
  peak = (long long)bytes;
  return r;
}
