#include "sched.hpp"

#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
extern char __executable_start, end;
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
}

namespace sched {
static __thread int tid = -1;    // worker inside of run()
static __thread int inside = 0;  // in the runtime
static __thread uintptr_t st_lo, st_hi;
static Report *rep;
static int nthreads;

// ---- memory: one arena per thread, nothing is reused within an execution ----
constexpr size_t kArena = size_t(512) << 20;
static char *arena_base;
static size_t arena_top[kThreads];
static bool in_arena(const void *p) { return p >= arena_base && p < arena_base + kThreads * kArena && arena_base; }
static void *arena_alloc(size_t n, size_t al) {
  size_t &top = arena_top[tid];
  if (al < 16) al = 16;
  size_t a = (top + 16 + al - 1) & ~(al - 1);
  if (a + n > kArena) {
    static const char m[] = "arena exhausted\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(97);
  }
  char *p = arena_base + size_t(tid) * kArena + a;
  reinterpret_cast<size_t *>(p)[-1] = n;
  top = a + n;
  return p;
}

// ---- shadow memory ------------------------------------------------------------
struct Granule {
  uintptr_t key;  // address / 8, 0 = free
  uint32_t w[kThreads][8], r[kThreads][8];
};
constexpr size_t kTab = size_t(1) << 20;
static Granule *tab;
static uint32_t vc[kThreads][kThreads];
struct Sync {
  uintptr_t key;
  uint32_t c[kThreads];
};
static Sync sy[1024];
static uintptr_t conf_in[kConflicts];
static int nconf_in;

static Granule &granule(uintptr_t k) {
  static size_t used;
  size_t h = k + (k >> 20) * 0x9e3779b1u;  // neighbours stay together
  for (;;) {
    Granule &g = tab[h & (kTab - 1)];
    if (g.key == k) return g;
    if (!g.key) {
      g.key = k;
      if (++used > kTab - kTab / 8) {
        static const char m[] = "shadow memory exhausted\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(96);
      }
      return g;
    }
    h++;
  }
}
static Sync &sync_of(const void *p) {
  const uintptr_t k = reinterpret_cast<uintptr_t>(p);
  size_t h = (k * 0x9e3779b97f4a7c15ull) >> 54;
  for (;;) {
    Sync &g = sy[h & 1023];
    if (g.key == k || !g.key) {
      g.key = k;
      return g;
    }
    h++;
  }
}
static void acquire(const void *p) {
  Sync &s = sync_of(p);
  for (int i = 0; i < nthreads; i++)
    if (s.c[i] > vc[tid][i]) vc[tid][i] = s.c[i];
}
static void release(const void *p) {
  Sync &s = sync_of(p);
  for (int i = 0; i < nthreads; i++)
    if (vc[tid][i] > s.c[i]) s.c[i] = vc[tid][i];
  vc[tid][tid]++;
}

// ---- scheduling -----------------------------------------------------------------
enum State { kReady, kBlocked, kDone };
static sem_t sem[kThreads];
static int state[kThreads];
static const void *waits[kThreads];
static sem_t all_done;
static int n_left;
static const unsigned char *choices;
static int nchoices;

static int pick(bool can_stay) {  // the next thread to run
  int opt[kThreads], n = 0;
  if (can_stay) opt[n++] = tid;
  for (int i = 1; i <= nthreads; i++) {
    const int t = (tid + i) % nthreads;
    if (t != tid && state[t] == kReady) opt[n++] = t;
  }
  if (!n) return -1;
  int c = 0;
  if (rep->points < kPoints) {
    const int k = rep->points++;
    if (k < nchoices) c = choices[k];
    if (c >= n) c = 0;
    rep->options[k] = static_cast<unsigned char>(n);
    rep->taken[k] = static_cast<unsigned char>(c);
    rep->forced[k] = !can_stay;
  } else
    rep->overflow = 1;
  return opt[c];
}
static void deadlock() {
  rep->deadlock = 1;
  _exit(0);
}
static void switch_to(int t, bool wait_again) {
  rep->switches++;
  const int me = tid;
  sem_post(&sem[t]);
  if (wait_again)
    while (sem_wait(&sem[me])) {
    }
}
static void point() {  // optional context switch
  const int t = pick(true);
  if (t != tid) switch_to(t, true);
}
static void block_on(const void *p) {
  state[tid] = kBlocked;
  waits[tid] = p;
  const int t = pick(false);
  if (t < 0) deadlock();
  switch_to(t, true);
}
static void wake(const void *p) {
  for (int i = 0; i < nthreads; i++)
    if (state[i] == kBlocked && waits[i] == p) state[i] = kReady;
}

// ---- accesses -------------------------------------------------------------------
static void conflict(uintptr_t k, uintptr_t a, bool write, int other, bool owrite, const void *pc) {
  for (int i = 0; i < rep->nconf; i++)
    if (rep->conf[i] == k) return;
  if (rep->nconf < kConflicts) rep->conf[rep->nconf++] = k;
  if (!rep->races++) {
    const char *where = "heap";
    const char *p = reinterpret_cast<const char *>(a);
    if (p >= &__executable_start && p < &end) where = "static memory";
    if (in_arena(p)) where = "memory another thread allocated";
    snprintf(rep->race, sizeof rep->race, "thread %d %s %s (code +0x%lx) that thread %d %s without synchronisation", tid,
             write ? "writes" : "reads", where, static_cast<unsigned long>(static_cast<const char *>(pc) - &__executable_start), other,
             owrite ? "wrote" : "read");
  }
}
static void access(const void *p, size_t n, bool write, const void *pc) {
  if (tid < 0 || inside) return;
  const uintptr_t a0 = reinterpret_cast<uintptr_t>(p);
  if (a0 >= st_lo && a0 < st_hi) return;
  inside = 1;
  rep->accesses++;
  const bool own = in_arena(p) && static_cast<int>((a0 - reinterpret_cast<uintptr_t>(arena_base)) / kArena) == tid;
  if (!own) rep->foreign++;
  if (nconf_in)
    for (int i = 0; i < nconf_in; i++)
      if (conf_in[i] >= a0 >> 3 && conf_in[i] <= (a0 + n - 1) >> 3) {
        point();
        break;
      }
  for (uintptr_t k = a0 >> 3; k <= (a0 + n - 1) >> 3 && n; k++) {
    Granule &g = granule(k);
    const uintptr_t lo = k << 3 < a0 ? a0 & 7 : 0, hi = (k << 3) + 8 > a0 + n ? ((a0 + n - 1) & 7) + 1 : 8;
    for (uintptr_t b = lo; b < hi; b++) {
      for (int u = 0; u < nthreads; u++) {
        if (u == tid) continue;
        if (g.w[u][b] > vc[tid][u]) conflict(k, (k << 3) + b, write, u, true, pc);
        if (write && g.r[u][b] > vc[tid][u]) conflict(k, (k << 3) + b, write, u, false, pc);
      }
      (write ? g.w : g.r)[tid][b] = vc[tid][tid];
    }
  }
  inside = 0;
}
static void sync_point() {
  rep->syncs++;
  point();
}

struct Start {
  int t;
  void (*body)(int);
};
static void *worker(void *v) {
  const Start s = *static_cast<Start *>(v);
  pthread_attr_t at;
  void *lo;
  size_t n;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &n);
  pthread_attr_destroy(&at);
  st_lo = reinterpret_cast<uintptr_t>(lo), st_hi = st_lo + n;
  while (sem_wait(&sem[s.t])) {
  }
  tid = s.t;
  s.body(s.t);
  inside = 1;
  state[tid] = kDone;
  n_left--;
  if (n_left) {
    const int t = pick(false);
    if (t < 0) deadlock();
    tid = -1;
    sem_post(&sem[t]);
  } else {
    tid = -1;
    sem_post(&all_done);
  }
  return nullptr;
}
void prepare() {
  arena_base = static_cast<char *>(mmap(nullptr, kThreads * kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  tab = static_cast<Granule *>(mmap(nullptr, kTab * sizeof(Granule), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
}
void run(int n, void (*body)(int), const unsigned char *ch, int nch, const uintptr_t *conf, int nconf, Report *r) {
  rep = r;
  nthreads = n, choices = ch, nchoices = nch, n_left = n;
  nconf_in = nconf;
  for (int i = 0; i < nconf; i++) conf_in[i] = conf[i];
  sem_init(&all_done, 0, 0);
  pthread_t th[kThreads];
  Start s[kThreads];
  for (int i = 0; i < n; i++) {
    sem_init(&sem[i], 0, 0);
    state[i] = kReady;
    for (int k = 0; k < n; k++) vc[i][k] = i == k;
    s[i] = {i, body};
    pthread_create(&th[i], nullptr, worker, &s[i]);
  }
  sem_post(&sem[0]);
  while (sem_wait(&all_done)) {
  }
  for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
}
}  // namespace sched

using namespace sched;
struct In {  // while the runtime works
  In() { inside++; }
  ~In() { inside--; }
};
static bool live() { return tid >= 0 && !inside; }

extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                       \
  void __tsan_read##n(void *p) { access(p, n, false, PC); }                         \
  void __tsan_write##n(void *p) { access(p, n, true, PC); }                         \
  void __tsan_unaligned_read##n(void *p) { access(p, n, false, PC); }               \
  void __tsan_unaligned_write##n(void *p) { access(p, n, true, PC); }               \
  void __tsan_read_write##n(void *p) { access(p, n, true, PC); }                    \
  void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, PC); }          \
  void __tsan_volatile_read##n(void *p) { access(p, n, false, PC); }                \
  void __tsan_volatile_write##n(void *p) { access(p, n, true, PC); }                \
  void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, PC); }      \
  void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_read(void **p) { access(p, 8, false, PC); }
void __tsan_vptr_update(void **p, void *v) {
  if (*p != v) access(p, 8, true, PC);
}
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
  if (n) access(s, n, false, PC), access(d, n, true, PC);
  return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
  if (n) access(s, n, false, PC), access(d, n, true, PC);
  return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
  if (n) access(d, n, true, PC);
  return memset(d, c, n);
}

// ---- atomics: sequentially consistent steps, each a scheduling point
static void at_pre(const volatile void *p, int mo, bool store) {
  if (!live()) return;
  In in;
  sync_point();
  (void)store;
  if (mo != 0) acquire(const_cast<const void *>(p));
}
static void at_post(const volatile void *p, int mo) {
  if (!live()) return;
  In in;
  if (mo != 0) release(const_cast<const void *>(p));
}
#define AT(bits, T)                                                                                                        \
  T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                                              \
    at_pre(a, mo, false);                                                                                                  \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                           \
  }                                                                                                                        \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                                           \
    at_pre(a, mo, true);                                                                                                   \
    at_post(a, mo);                                                                                                        \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                              \
  }                                                                                                                        \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) {                                                           \
    at_pre(a, mo, true), at_post(a, mo);                                                                                   \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                                    \
  }                                                                                                                        \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) {                               \
    at_pre(a, mo, true), at_post(a, mo);                                                                                   \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
  }                                                                                                                        \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) {                                 \
    at_pre(a, mo, true), at_post(a, mo);                                                                                   \
    return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                \
  }                                                                                                                        \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) {                                     \
    at_pre(a, mo, true), at_post(a, mo);                                                                                   \
    __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                      \
    return c;                                                                                                              \
  }
#define FETCH(bits, T, op)                                         \
  T __tsan_atomic##bits##_fetch_##op(volatile T *a, T v, int mo) { \
    at_pre(a, mo, true), at_post(a, mo);                           \
    return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);            \
  }
#define ALL(bits, T) \
  AT(bits, T) FETCH(bits, T, add) FETCH(bits, T, sub) FETCH(bits, T, and) FETCH(bits, T, or) FETCH(bits, T, xor) FETCH(bits, T, nand)
ALL(8, uint8_t) ALL(16, uint16_t) ALL(32, uint32_t) ALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ---- initialisation of local statics
int __cxa_guard_acquire(uint64_t *g) {
  volatile uint8_t *b = reinterpret_cast<volatile uint8_t *>(g);
  if (!live()) {
    if (b[0]) return 0;
    b[1] = 1;
    return 1;
  }
  In in;
  sync_point();
  while (!b[0] && b[1]) block_on(g);
  acquire(g);
  if (b[0]) return 0;
  b[1] = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *g) {
  volatile uint8_t *b = reinterpret_cast<volatile uint8_t *>(g);
  if (live()) {
    In in;
    release(g);
    b[0] = 1, b[1] = 0;
    wake(g);
    sync_point();
    return;
  }
  b[0] = 1, b[1] = 0;
}
void __cxa_guard_abort(uint64_t *g) {
  volatile uint8_t *b = reinterpret_cast<volatile uint8_t *>(g);
  b[1] = 0;
  if (live()) {
    In in;
    wake(g);
  }
}

// ---- mutexes: owner kept in the word the C library uses first
struct Mx {
  int owner, depth;  // owner: thread + 1
};
static Mx mx_of[1024];
static Mx &mx(const void *p) { return mx_of[&sync_of(p) - sy]; }
static int lock(const void *m, bool recursive) {
  In in;
  sync_point();
  while (mx(m).owner && !(recursive && mx(m).owner == tid + 1)) block_on(m);
  acquire(m);
  mx(m).owner = tid + 1, mx(m).depth++;
  return 0;
}
static int unlock(const void *m) {
  In in;
  if (--mx(m).depth == 0) {
    mx(m).owner = 0;
    release(m);
    wake(m);
  }
  sync_point();
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!live()) return 0;
  return lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
  if (!live()) return 0;
  {
    In in;
    sync_point();
    if (mx(m).owner && !((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE && mx(m).owner == tid + 1)) return 16;
  }
  return lock(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!live()) return 0;
  return unlock(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) { return live() ? lock(m, false) : 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) { return live() ? lock(m, false) : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *m) { return live() ? unlock(m) : 0; }
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (!live()) {
    if (*o != 2) f(), *o = 2;
    return 0;
  }
  {
    In in;
    sync_point();
    while (*o == 1) block_on(o);
    acquire(o);
    if (*o == 2) return 0;
    *o = 1;
  }
  f();
  In in;
  release(o);
  *o = 2;
  wake(o);
  return 0;
}

// ---- memory
void *malloc(size_t n) { return tid >= 0 ? arena_alloc(n, 16) : __libc_malloc(n); }
void *calloc(size_t a, size_t b) {
  if (tid < 0) return __libc_calloc(a, b);
  return arena_alloc(a * b, 16);  // fresh pages are zero
}
void free(void *p) {
  if (!p) return;
  if (in_arena(p)) {
    if (tid >= 0 && !inside) {
      const size_t n = static_cast<size_t *>(p)[-1];
      access(p, n < 64 ? n : 64, true, PC);
    }
    return;
  }
  if (tid >= 0) {  // memory of the main thread: other threads may hold it
    access(p, 8, true, PC);
    return;
  }
  __libc_free(p);
}
void *realloc(void *p, size_t n) {
  if (tid < 0 && !in_arena(p)) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  size_t old = n;
  if (in_arena(p)) old = static_cast<size_t *>(p)[-1];
  void *q = malloc(n);
  memcpy(q, p, old < n ? old : n);
  free(p);
  return q;
}
void *memalign(size_t al, size_t n) { return tid >= 0 ? arena_alloc(n, al) : __libc_memalign(al, n); }
void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void **p, size_t al, size_t n) {
  *p = memalign(al, n);
  return 0;
}
}
