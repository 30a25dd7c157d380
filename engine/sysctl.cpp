// The harness owns the clock (time, gettimeofday, CLOCK_REALTIME), the OpenSSL
// random source, the OpenSSL allocator (freed blocks are overwritten so that a
// use after free is visible although libcrypto is not instrumented) and counts
// live heap blocks.
#include "pbt.hpp"
#include "env.hpp"

#include <atomic>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <execinfo.h>
#include <map>
#include <malloc.h>
#include <openssl/crypto.h>
#include <openssl/rand.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static std::atomic<int64_t> g_now{1750000000};
static std::atomic<int> g_usec{0};

namespace pbt {
void clock_set(int64_t t, int usec) { g_now = t, g_usec = usec; }
int64_t clock_get() { return g_now; }
} // namespace pbt

extern "C" {
time_t time(time_t *t) noexcept {
  time_t v = (time_t)g_now.load();
  if (t)
    *t = v;
  return v;
}
int gettimeofday(struct timeval *tv, void *) noexcept {
  if (tv) {
    tv->tv_sec = g_now.load();
    tv->tv_usec = g_usec.load();
  }
  return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept {
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
    ts->tv_sec = g_now.load();
    ts->tv_nsec = g_usec.load() * 1000l;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, id, ts);
}
}

// --------------------------------------------------------------- OpenSSL RNG
static thread_local uint64_t g_rng = 0x1234567;
static int rng_bytes(unsigned char *buf, int num) {
  int i = 0;
  while (i < num) {
    uint64_t z = (g_rng += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    z ^= z >> 31;
    for (int k = 0; k < 8 && i < num; k++, i++)
      buf[i] = (unsigned char)(z >> (8 * k));
  }
  return 1;
}
static int rng_seed(const void *, int) { return 1; }
static int rng_add(const void *, int, double) { return 1; }
static int rng_status() { return 1; }
static void rng_cleanup() {}
static RAND_METHOD g_meth = {rng_seed,  rng_bytes, rng_cleanup,
                             rng_add,   rng_bytes, rng_status};

// ---------------------------------------------------------------- heap count
static std::atomic<int64_t> g_blocks{0};
extern "C" {
__attribute__((weak)) int __sanitizer_install_malloc_and_free_hooks(
    void (*)(const volatile void *, size_t), void (*)(const volatile void *));
}
// who allocated what is still alive (only for the message of a leak)
struct Live {
  const volatile void *p;
  void *bt[14];
  int n;
};
static const size_t LIVE_MAX = 1 << 16;
static Live *g_live;
static bool g_track;
static thread_local bool t_in;
static void live_add(const volatile void *p) {
  if (!g_track || t_in)
    return;
  t_in = true;
  size_t h = ((uintptr_t)p >> 4) * 2654435761u % LIVE_MAX;
  for (size_t i = 0; i < LIVE_MAX; i++, h = (h + 1) % LIVE_MAX)
    if (!g_live[h].p) {
      g_live[h].p = p;
      g_live[h].n = backtrace(g_live[h].bt, 14);
      break;
    }
  t_in = false;
}
static void live_del(const volatile void *p) {
  if (!g_track || t_in)
    return;
  size_t h = ((uintptr_t)p >> 4) * 2654435761u % LIVE_MAX;
  for (size_t i = 0; i < 200; i++, h = (h + 1) % LIVE_MAX)
    if (g_live[h].p == p)
      g_live[h].p = nullptr;
}
namespace pbt {
void track_start() {
  if (!g_live)
    g_live = (Live *)mmap(nullptr, sizeof(Live) * LIVE_MAX, PROT_READ | PROT_WRITE,
                          MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  void *w[2];
  backtrace(w, 2);
  memset(g_live, 0, sizeof(Live) * LIVE_MAX);
  g_track = true;
}
std::string track_report(size_t maxn) {
  g_track = false;
  std::map<std::string, int> m;
  for (size_t i = 0; i < LIVE_MAX; i++)
    if (g_live[i].p) {
      std::string t;
      char **s = backtrace_symbols(g_live[i].bt, g_live[i].n);
      int k = 0;
      for (int j = 0; s && j < g_live[i].n && k < 9; j++) {
        char *a = strchr(s[j], '('), *b = a ? strchr(a, '+') : nullptr;
        if (!a || !b || b == a + 1)
          continue;
        std::string f(a + 1, b);
        if (f.find("h_malloc") != std::string::npos || f.find("sanitizer") != std::string::npos ||
            f.find("live_add") != std::string::npos || f == "malloc" || f == "calloc")
          continue;
        t += (k++ ? " < " : "") + f;
      }
      free(s);
      m[t]++;
    }
  std::string r;
  for (auto &kv : m)
    if (maxn-- > 0)
      r += std::to_string(kv.second) + "x " + kv.first + "\n";
    else
      break;
  return r;
}
} // namespace pbt
static void h_malloc(const volatile void *p, size_t) {
  if (p)
    g_blocks++, live_add(p);
}
static void h_free(const volatile void *p) {
  if (p)
    g_blocks--, live_del(p);
}

// ----------------------------------------------------------- fault injection
// Allocations made by the code under test (all objects of the link, through
// --wrap) and by OpenSSL count while armed; chosen ones fail.
static std::atomic<int> g_armed{0};
static thread_local int t_armed = 0;
static std::atomic<int64_t> g_count{0}, g_fail_from{0}, g_fail_to{0};
static std::atomic<int64_t> g_failed{0};
static std::atomic<int> g_scope{0};
static inline bool inject(int kind) { // kind 1: library code, 2: OpenSSL
  if (!g_armed.load(std::memory_order_relaxed) || !t_armed ||
      !(g_scope & kind))
    return false;
  int64_t n = ++g_count;
  if (n >= g_fail_from && n < g_fail_to) {
    g_failed++;
    return true;
  }
  return false;
}
namespace pbt {
void oom_arm(int scope, int64_t from, int64_t to) {
  g_scope = scope;
  g_count = 0;
  g_failed = 0;
  g_fail_from = from;
  g_fail_to = to;
  t_armed = 1;
  g_armed = 1;
}
void oom_disarm() {
  g_armed = 0;
  t_armed = 0;
}
int64_t oom_count() { return g_count; }
int64_t oom_failed() { return g_failed; }
} // namespace pbt

// --------------------------------------------------------- OpenSSL allocator
// ASN.1 and buffer objects, which cross into the code under test, live in the
// sanitizer's heap; OpenSSL's other internal allocations come from a plain pool
// because the sanitizer's heap is slow.  Freed memory reads as a sequence of
// 32-bit ones: a stale reference count drops to zero again and the stale
// pointers that follow are unmapped.
static void scrub(void *p, size_t n) {
  uint32_t *w = (uint32_t *)p;
  n /= 4;
  for (size_t i = 0; i < n; i++)
    w[i] = 1;
}
extern "C" {
void *__real_malloc(size_t) __attribute__((weak));
void *__real_calloc(size_t, size_t) __attribute__((weak));
void *__real_realloc(void *, size_t) __attribute__((weak));
void __real_free(void *) __attribute__((weak));
}
#if defined(__SANITIZE_THREAD__)
static const bool USE_POOL = false;
#else
static const bool USE_POOL = true;
#endif
static const size_t POOL = 4ull << 30;
static char *g_pool, *g_pool_end, *g_pool_top;
static std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
struct Hdr {
  uint32_t cls, state; // state: live or free
  uint64_t size;
};
struct Free {
  Free *next;
};
static Free *g_free[12];
static const uint32_t LIVE = 0x4c495645, DEAD = 0x44454144;
static inline bool in_pool(const void *p) {
  return (const char *)p >= g_pool && (const char *)p < g_pool_end;
}
static void *pool_get(size_t n) {
  int c = 0;
  while (((size_t)16 << c) < n)
    c++;
  if (c >= 12)
    return nullptr;
  while (g_lock.test_and_set(std::memory_order_acquire))
    ;
  char *r = nullptr;
  if (g_free[c]) {
    r = (char *)g_free[c];
    g_free[c] = g_free[c]->next;
  } else if (g_pool_top + ((size_t)16 << c) + sizeof(Hdr) <= g_pool_end) {
    r = g_pool_top + sizeof(Hdr);
    g_pool_top = r + ((size_t)16 << c);
  }
  g_lock.clear(std::memory_order_release);
  if (!r)
    return nullptr;
  Hdr *h = (Hdr *)r - 1;
  h->cls = (uint32_t)c;
  h->state = LIVE;
  h->size = n;
  g_blocks++;
  live_add(r);
  return r;
}
static void pool_put(void *p) {
  Hdr *h = (Hdr *)p - 1;
  if (h->state != LIVE) {
    fprintf(stderr, "==1==ERROR: AddressSanitizer: attempting double-free on "
                    "OpenSSL object %p\n", p);
    abort();
  }
  scrub(p, (size_t)16 << h->cls);
  h->state = DEAD;
  g_blocks--;
  live_del(p);
  while (g_lock.test_and_set(std::memory_order_acquire))
    ;
  ((Free *)p)->next = g_free[h->cls];
  g_free[h->cls] = (Free *)p;
  g_lock.clear(std::memory_order_release);
}
struct FileKind {
  std::atomic<const char *> f;
  std::atomic<bool> plain;
};
static FileKind g_kind[4096];
static bool plain(const char *f) { // may live in the pool
  if (!USE_POOL || !g_pool || !f)
    return false;
  FileKind &k = g_kind[((uintptr_t)f >> 3) % 4096];
  if (k.f.load(std::memory_order_acquire) == f)
    return k.plain;
  bool r = !strstr(f, "asn1") && !strstr(f, "buffer") && !strstr(f, "x509") &&
           !strstr(f, "cms");
  const char *none = nullptr;
  if (k.f.compare_exchange_strong(none, (const char *)1)) {
    k.plain = r;
    k.f.store(f, std::memory_order_release);
  }
  return r;
}
static void *o_malloc(size_t n, const char *f, int) {
  if (!n)
    return nullptr;
  if (inject(2))
    return nullptr;
  if (plain(f))
    if (void *p = pool_get(n))
      return p;
  return __real_malloc(n);
}
static void real_free(void *p) {
  scrub(p, malloc_usable_size(p));
  (free)(p);
}
static void o_free(void *p, const char *, int) {
  if (!p)
    return;
  if (in_pool(p))
    pool_put(p);
  else
    real_free(p);
}
static void *o_realloc(void *p, size_t n, const char *f, int l) {
  if (!p)
    return o_malloc(n, f, l);
  if (!n) {
    o_free(p, f, l);
    return nullptr;
  }
  if (!in_pool(p)) {
    if (inject(2))
      return nullptr;
    return __real_realloc(p, n);
  }
  Hdr *h = (Hdr *)p - 1;
  if (n <= ((size_t)16 << h->cls)) {
    h->size = n;
    return p;
  }
  void *q = o_malloc(n, f, l);
  if (q) {
    memcpy(q, p, h->size < n ? h->size : n);
    pool_put(p);
  }
  return q;
}
extern "C" {
// every malloc/free call site of this link comes here (--wrap)
void *__wrap_malloc(size_t n) {
  return inject(1) ? nullptr : __real_malloc(n);
}
void *__wrap_calloc(size_t n, size_t m) {
  return inject(1) ? nullptr : __real_calloc(n, m);
}
void *__wrap_realloc(void *p, size_t n) {
  if (inject(1))
    return nullptr;
  if (p && in_pool(p))
    return o_realloc(p, n, nullptr, 0);
  return __real_realloc(p, n);
}
void __wrap_free(void *p) {
  if (p && in_pool(p))
    pool_put(p);
  else
    __real_free(p);
}
}
namespace pbt {
int64_t live_blocks() { return g_blocks; }
} // namespace pbt

namespace env {
uint64_t rng_state() { return g_rng; }
void rng_restore(uint64_t v) { g_rng = v; }
void rng_reseed(uint64_t v) { g_rng = v * 2654435761u + 99; }
void sys_init() {
  if (USE_POOL) {
    void *m = mmap(nullptr, POOL, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m != MAP_FAILED) {
      g_pool = g_pool_top = (char *)m;
      g_pool_end = g_pool + POOL;
    }
  }
#if !defined(__SANITIZE_THREAD__) // its interceptors see OpenSSL's own calls
  CRYPTO_set_mem_functions(o_malloc, o_realloc, o_free);
#endif
  if (__sanitizer_install_malloc_and_free_hooks)
    __sanitizer_install_malloc_and_free_hooks(h_malloc, h_free);
  RAND_set_rand_method(&g_meth);
}
} // namespace env
