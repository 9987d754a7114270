// LD_PRELOAD for C02 under ThreadSanitizer, ahead of its runtime: while armed, memory
// asked for by native worker threads of the forest extension cannot be had.
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <pthread.h>

static std::atomic<long> every{0}, seen{0}, refused{0};
static std::atomic<pthread_t> owner{0};

extern "C" void short_arm(long n) {
  owner = pthread_self();
  seen = refused = 0;
  every = n;
}
extern "C" long short_take() {
  every = 0;
  return refused;
}

static void *get(size_t n, void *from) {
  long e = every.load(std::memory_order_relaxed);
  if (e && !pthread_equal(owner.load(std::memory_order_relaxed), pthread_self())) {
    Dl_info d;
    if (dladdr(from, &d) && d.dli_fname && strstr(d.dli_fname, "iforest_ext") &&
        seen.fetch_add(1, std::memory_order_relaxed) % e == 0) {
      refused.fetch_add(1, std::memory_order_relaxed);  // relaxed: orders nothing for the threads watched
      throw std::bad_alloc();
    }
  }
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
void *operator new(size_t n) { return get(n, __builtin_return_address(0)); }
void *operator new[](size_t n) { return get(n, __builtin_return_address(0)); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
