// LD_PRELOAD for C25: makes chosen allocations and thread creations of the extension
// modules fail, or delivers SIGINT at them, while it is armed.
//
// kinds of point: 1 operator new called from an extension (or libstdc++ below it)
//                 2 malloc/calloc/realloc of at least `least` bytes by numpy's core or an
//                   extension on the arming thread
//                 3 creation of a native worker thread
// action 0: fail (std::bad_alloc, NULL, EAGAIN); action 1: raise SIGINT and go on
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <pthread.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
}

static std::atomic<int> armed{0}, kind_{0}, action{0};
static std::atomic<long> first{0}, last{0}, least{0}, seen{0}, delivered{0};
static std::atomic<pthread_t> owner{0};

static bool hit() {
  long n = ++seen;
  if (n < first || n > last) return false;
  ++delivered;
  if (action == 1) {
    kill(getpid(), SIGINT);
    return false;
  }
  return true;
}

static bool ours(void *p, bool numpy = false) {
  Dl_info d;
  return dladdr(p, &d) && d.dli_fname &&
         ((numpy && strstr(d.dli_fname, "_multiarray_umath")) || strstr(d.dli_fname, "iforest_ext") || strstr(d.dli_fname, "utils_ext") || strstr(d.dli_fname, "measures_ext") ||
          strstr(d.dli_fname, "libstdc++"));
}

extern "C" {
void fault_arm(int kind, long from, long to, long size, int what) {
  owner = pthread_self();
  seen = delivered = 0;
  first = from, last = to, least = size, action = what;
  armed = 0, kind_ = kind;
}
// in force only while the gate is open: during calls into an extension
void fault_gate(int open) { armed = open ? kind_.load() : 0; }
void fault_take(long *out) {
  armed = 0;
  out[0] = seen, out[1] = delivered;
}

static bool fails(size_t n, void *from) {
  return armed == 2 && (long)n >= least && pthread_equal(owner, pthread_self()) && ours(from, true) && hit();
}
void *malloc(size_t n) {
  if (fails(n, __builtin_return_address(0))) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
  if (fails(a * b, __builtin_return_address(0))) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
  if (fails(n, __builtin_return_address(0))) {
    errno = ENOMEM;
    return nullptr;
  }
  return __libc_realloc(p, n);
}

int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  static int (*real)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
  if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "pthread_create");
  if (armed == 3 && ours((void *)fn) && hit()) return EAGAIN;
  return real(t, a, fn, arg);
}
}

static void *get(size_t n, void *from) {
  if (armed == 1 && ours(from) && hit()) throw std::bad_alloc();
  void *p = __libc_malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return get(n, __builtin_return_address(0)); }
void *operator new[](size_t n) { return get(n, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
