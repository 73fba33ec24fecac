#include "conc.hpp"

#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>

#include <algorithm>
#include <cerrno>

namespace sim {
extern void (*g_on_violation)();

namespace {
constexpr int kMax = 6;
struct Clock {
  uint32_t c[kMax] = {};
  void join(const Clock& o) { for (int i = 0; i < kMax; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
struct Ctx { int sut, fk, fn, fp, fcount, ffired, faults_off, cur_index; uint64_t step_limit; Step const* cur; };
struct Thread {
  int id = 0;
  pthread_t th{};
  sem_t go;
  Ctx ctx{};
  Clock vc;
  bool finished = false;
  const void* blocked = nullptr;
  uintptr_t stack_lo = 0, stack_hi = 0;
  uint64_t accesses = 0;
};
Thread T[kMax];
int nthreads;
Thread* cur;
bool active;
sem_t done;
const std::function<void(int)>* body;
const Sched* sched;
size_t sched_pos;
int64_t countdown;
int next_to;
Rng tailrng(0);
int64_t since_switch;
uint64_t run_accesses;
ConcResult res;
std::vector<Switch> made;   // the schedule that was really executed
int64_t made_since;
bool tuned;

// ------------------------------------------------------------- shadow memory
struct Cell { uint32_t clk; int8_t tid; uint8_t mask; uint8_t write; uint8_t atomic; void* pc; };
constexpr int kCells = 10;
struct Granule { uintptr_t key; uint32_t gen; uint8_t n, next; Cell c[kCells]; };
Granule* table;
size_t cap, used;
uint32_t gen = 1;
size_t slot_of(Granule* t, size_t n, uintptr_t k) {
  size_t i = mix64(k) & (n - 1);
  while (t[i].gen == gen && t[i].key != k) i = (i + 1) & (n - 1);
  return i;
}
Granule& granule(uintptr_t k) {
  if (used * 3 > cap * 2) {
    size_t n = cap ? cap * 2 : (size_t)1 << 15;
    Granule* t = (Granule*)std::calloc(n, sizeof(Granule));
    for (size_t i = 0; i < cap; ++i) if (table[i].gen == gen) t[slot_of(t, n, table[i].key)] = table[i];
    std::free(table);
    table = t; cap = n;
  }
  size_t i = slot_of(table, cap, k);
  Granule& g = table[i];
  if (g.gen != gen) { g.gen = gen; g.key = k; g.n = 0; g.next = 0; ++used; }
  return g;
}
void shadow_reset() {
  if (!cap) { cap = (size_t)1 << 15; table = (Granule*)std::calloc(cap, sizeof(Granule)); }
  ++gen; used = 0;
}
void shadow_clear(uintptr_t a, size_t n) {
  if (!active || !n) return;
  uintptr_t lo = a >> 3, hi = (a + n - 1) >> 3;
  if (hi - lo > cap) {
    for (size_t i = 0; i < cap; ++i) if (table[i].gen == gen && table[i].key >= lo && table[i].key <= hi) table[i].n = 0;
    return;
  }
  for (uintptr_t k = lo; k <= hi; ++k) { size_t i = slot_of(table, cap, k); if (table[i].gen == gen) table[i].n = 0; }
}
std::map<const void*, Clock>* syncs;
Clock& sync_of(const void* p) { return (*syncs)[p]; }

void print_schedule() {
  if (!active) return;
  std::string s = "SCHED";
  for (auto& m : made) s += " " + std::to_string(m.after) + ":" + std::to_string(m.to);
  printf("%s\n", s.c_str());
}

// ------------------------------------------------------------- baton
void save(Thread* t) { t->ctx = {g.sut, g.fk, g.fn, g.fp, g.fcount, g.ffired, g.faults_off, g.cur_index, g.step_limit, g.cur}; }
void load(Thread* t) {
  const Ctx& c = t->ctx;
  g.sut = c.sut; g.fk = c.fk; g.fn = c.fn; g.fp = c.fp; g.fcount = c.fcount; g.ffired = c.ffired; g.faults_off = c.faults_off; g.cur_index = c.cur_index; g.step_limit = c.step_limit; g.cur = c.cur;
}
void plan_next() {
  if (sched_pos < sched->sw.size()) {
    countdown = std::max<int64_t>(1, sched->sw[sched_pos].after);
    next_to = sched->sw[sched_pos].to;
    ++sched_pos;
  } else if (sched->tail > 0) {
    countdown = 1 + (int64_t)tailrng.below((uint64_t)sched->tail * 2);
    next_to = (int)tailrng.below((uint64_t)nthreads);
  } else { countdown = INT64_MAX; next_to = 0; }
}
Thread* runnable(int from) {
  for (int i = 0; i < nthreads; ++i) { Thread& t = T[(from + i) % nthreads]; if (!t.finished && !t.blocked) return &t; }
  return nullptr;
}
void hand_over(Thread* self, Thread* to) {
  if (to == self) return;
  ++res.switches;
  ev(0x5317c4 + (uint64_t)to->id * 977 + self->accesses);
  {
    uint64_t h = 0;
    for (int i = 0; i < nthreads; ++i) h = mix64(h ^ ((uint64_t)(T[i].ctx.cur_index + 2) * 64 + (uint64_t)i));
    state(mix64(h ^ (self->accesses << 3) ^ (uint64_t)to->id));
  }
  save(self);
  cur = to;
  load(to);
  since_switch = 0;
  sem_post(&to->go);
  if (!self->finished) { while (sem_wait(&self->go)) {} }
}
void maybe_switch() {
  Thread* self = cur;
  ++made_since; ++since_switch;
  Thread* t;
  if (--countdown <= 0) { t = runnable(next_to % nthreads); plan_next(); }
  else if (since_switch > 60000) t = runnable((self->id + 1) % nthreads);  // fairness
  else return;
  if (!t || t == self) { if (t) since_switch = 0; return; }
  // only these switches are decisions; the ones at a lock or at a thread's end follow from them
  made.push_back({made_since, t->id}); made_since = 0;
  hand_over(self, t);
}
void block(const void* on) {
  Thread* self = cur;
  self->blocked = on;
  ++res.blocked;
  Thread* t = runnable((self->id + 1) % nthreads);
  if (!t) violation("*", "deadlock", "every thread waits for a lock");
  hand_over(self, t);
}
void wake(const void* on) { for (int i = 0; i < nthreads; ++i) if (T[i].blocked == on) T[i].blocked = nullptr; }

inline bool ignored(uintptr_t a) {
  auto in = [a](const void* p, size_t n) { return a >= (uintptr_t)p && a < (uintptr_t)p + n; };
  return in(&g, sizeof g) || in(&os, sizeof os) || in(&obj, sizeof obj);
}
__attribute__((noinline)) void race(uintptr_t a, size_t n, bool write, bool atomic, const Cell& c, void* pc) {
  int other = c.tid;
  bool ow = c.write;
  SIM_CHECK(false, "C07,C08", "data-race", "thread %d %s %zu bytes that thread %d %s without synchronisation%s (code at %p and %p, address %p)", cur->id, write ? "writes" : "reads", n, other, ow ? "wrote" : "read", atomic ? " (atomic access)" : "", pc, c.pc, (void*)a);
}
void touch(uintptr_t a, size_t n, bool write, bool atomic, void* pc) {
  Thread* t = cur;
  uintptr_t end = a + n;
  for (uintptr_t k = a >> 3; k <= (end - 1) >> 3; ++k) {
    uintptr_t b = k << 3;
    int lo = a > b ? (int)(a - b) : 0, hi = end < b + 8 ? (int)(end - b) : 8;
    uint8_t mask = (uint8_t)(((1u << (hi - lo)) - 1) << lo);
    Granule& gr = granule(k);
    int mine = -1;
    for (int i = 0; i < gr.n; ++i) {
      Cell& c = gr.c[i];
      if (!(c.mask & mask)) continue;
      if (c.tid == t->id) { if (c.write == write && c.atomic == atomic && (c.mask & ~mask) == 0) mine = i; continue; }
      if ((write || c.write) && !(atomic && c.atomic) && c.clk > t->vc.c[c.tid]) race(a, n, write, atomic, c, pc);
    }
    Cell nc{t->vc.c[t->id], (int8_t)t->id, mask, (uint8_t)write, (uint8_t)atomic, pc};
    if (mine >= 0) gr.c[mine] = nc;
    else if (gr.n < kCells) gr.c[gr.n++] = nc;
    else { gr.c[gr.next] = nc; gr.next = (uint8_t)((gr.next + 1) % kCells); }
  }
}
inline bool watched() { return active && g.sut > 0; }
inline void access(const void* p, size_t n, bool write, void* pc, bool atomic = false) {
  if (!watched() || n == 0) return;
  uintptr_t a = (uintptr_t)p;
  Thread* t = cur;
  if (a >= t->stack_lo && a < t->stack_hi) return;
  if (ignored(a)) return;
  NoSut ns;
  maybe_switch();  // may run other threads before this access takes place
  t = cur;
  ++t->accesses; ++res.accesses; ++g.steps;
  if (++run_accesses > 60000000) violation("*", "no-progress", "threads did not finish within the step budget");
  if (atomic) ++res.atomics;
  touch(a, n, write, atomic, pc);
}
void acquire(const void* p) { NoSut ns; cur->vc.join(sync_of(p)); }
void release(const void* p) { NoSut ns; sync_of(p).join(cur->vc); ++cur->vc.c[cur->id]; }

// Runs when the thread's own objects (thread_local) have been destroyed: pass
// the baton on for good.
pthread_key_t exit_key;
bool have_key;
int at_barrier, barrier_no;
void thread_exit(void* arg) {
  Thread* t = (Thread*)arg;
  g.sut = 0;
  t->finished = true;
  Thread* n = runnable((t->id + 1) % nthreads);
  if (n) hand_over(t, n);
  else {
    for (int i = 0; i < nthreads; ++i) if (!T[i].finished) violation("*", "deadlock", "a thread waits for a lock nobody will release");
    sem_post(&done);
  }
}
void* thread_main(void* arg) {
  Thread* t = (Thread*)arg;
  while (sem_wait(&t->go)) {}
  (*body)(t->id);
  pthread_setspecific(exit_key, t);
  g.sut = 1;   // destructors of thread_local objects are code under test
  return nullptr;
}
}  // namespace

void conc_barrier() {
  NoSut ns;
  release(&at_barrier);
  if (++at_barrier == nthreads) { at_barrier = 0; ++barrier_no; wake(&at_barrier); }
  else for (int b = barrier_no; b == barrier_no;) block(&at_barrier);
  acquire(&at_barrier);
}

ConcResult conc_run(int n, const Sched& s, const std::function<void(int)>& f) {
  res = ConcResult();
  nthreads = n; body = &f; sched = &s; sched_pos = 0; tailrng = Rng(s.tailseed); since_switch = 0; run_accesses = 0;
  made.clear(); made_since = 0;
  if (!syncs) syncs = new (std::malloc(sizeof(*syncs))) std::map<const void*, Clock>();
  syncs->clear();
  shadow_reset();
  sem_init(&done, 0, 0);
  g_on_violation = print_schedule;
  if (!have_key) { pthread_key_create(&exit_key, thread_exit); have_key = true; }
  at_barrier = 0; barrier_no = 0;
  if (!tuned) { mallopt(M_ARENA_MAX, 1); tuned = true; }
  Ctx outer{g.sut, g.fk, g.fn, g.fp, g.fcount, g.ffired, g.faults_off, g.cur_index, g.step_limit, g.cur};
  plan_next();
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  for (int i = 0; i < n; ++i) {
    Thread& t = T[i];
    t.id = i; t.finished = false; t.blocked = nullptr; t.accesses = 0;
    t.vc = Clock(); t.vc.c[i] = 1;
    t.ctx = Ctx{}; t.ctx.cur_index = -1;
    sem_init(&t.go, 0, 0);
    if (pthread_create(&t.th, &at, thread_main, &t)) { perror("pthread_create"); _Exit(3); }
    pthread_attr_t a2; void* lo; size_t sz;
    pthread_getattr_np(t.th, &a2); pthread_attr_getstack(&a2, &lo, &sz); pthread_attr_destroy(&a2);
    t.stack_lo = (uintptr_t)lo; t.stack_hi = (uintptr_t)lo + sz;
  }
  active = true;
  cur = &T[0];
  load(cur);
  sem_post(&cur->go);
  while (sem_wait(&done)) {}
  active = false;
  cur = nullptr;
  for (int i = 0; i < n; ++i) { pthread_join(T[i].th, nullptr); sem_destroy(&T[i].go); }
  pthread_attr_destroy(&at);
  sem_destroy(&done);
  const Ctx& c = outer;
  g.sut = c.sut; g.fk = c.fk; g.fn = c.fn; g.fp = c.fp; g.fcount = c.fcount; g.ffired = c.ffired; g.faults_off = c.faults_off; g.cur_index = c.cur_index; g.step_limit = c.step_limit; g.cur = c.cur;
  for (int i = 0; i < n; ++i) ev(T[i].accesses);
  return res;
}
}  // namespace sim

using namespace sim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                       \
  void __tsan_read##N(void* p) { access(p, N, false, PC); }                          \
  void __tsan_write##N(void* p) { access(p, N, true, PC); }                          \
  void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); }                \
  void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }                \
  void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); }                 \
  void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }                 \
  void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, PC); }       \
  void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, PC); }       \
  void __tsan_read_write##N(void* p) { access(p, N, false, PC); access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }

// ---- atomics: performed for real, ordered as their memory order says
static inline bool acq(int m) { return m == __ATOMIC_ACQUIRE || m == __ATOMIC_CONSUME || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
static inline bool rel(int m) { return m == __ATOMIC_RELEASE || m == __ATOMIC_ACQ_REL || m == __ATOMIC_SEQ_CST; }
#define ATOMIC(B, TY)                                                                                                         \
  TY __tsan_atomic##B##_load(const volatile TY* p, int m) { access((const void*)p, B / 8, false, PC, true); if (watched() && acq(m)) acquire((const void*)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); }  \
  void __tsan_atomic##B##_store(volatile TY* p, TY v, int m) { access((const void*)p, B / 8, true, PC, true); if (watched() && rel(m)) release((const void*)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }      \
  RMW(B, TY, exchange, __atomic_exchange_n) RMW(B, TY, fetch_add, __atomic_fetch_add) RMW(B, TY, fetch_sub, __atomic_fetch_sub) RMW(B, TY, fetch_and, __atomic_fetch_and)                                     \
  RMW(B, TY, fetch_or, __atomic_fetch_or) RMW(B, TY, fetch_xor, __atomic_fetch_xor) RMW(B, TY, fetch_nand, __atomic_fetch_nand)                                                                               \
  int __tsan_atomic##B##_compare_exchange_strong(volatile TY* p, TY* e, TY v, int m, int) { return cas(p, e, v, m, PC); }      \
  int __tsan_atomic##B##_compare_exchange_weak(volatile TY* p, TY* e, TY v, int m, int) { return cas(p, e, v, m, PC); }        \
  TY __tsan_atomic##B##_compare_exchange_val(volatile TY* p, TY e, TY v, int m, int) { cas(p, &e, v, m, PC); return e; }
#define RMW(B, TY, NAME, OP)                                                   \
  TY __tsan_atomic##B##_##NAME(volatile TY* p, TY v, int m) {                  \
    access((const void*)p, B / 8, true, PC, true);                             \
    if (watched()) { if (acq(m)) acquire((const void*)p); if (rel(m)) release((const void*)p); } \
    return OP(p, v, __ATOMIC_SEQ_CST);                                         \
  }
}
template <class TY> static int cas(volatile TY* p, TY* e, TY v, int m, void* pc) {
  access((const void*)p, sizeof(TY), true, pc, true);
  if (watched() && acq(m)) acquire((const void*)p);
  bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
  if (ok && watched() && rel(m)) release((const void*)p);
  return ok;
}
extern "C" {
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static const char fence_obj = 0;
void __tsan_atomic_thread_fence(int m) { if (watched()) { if (acq(m)) acquire(&fence_obj); if (rel(m)) release(&fence_obj); } __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// ---- bulk memory functions
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }

// ---- memory that changes hands through the allocator carries no history
void __real_free(void*);
void __wrap_free(void* p) {
  if (p && active) {
    size_t n = malloc_usable_size(p);
    bool w = watched();
    NoSut ns;
    if (w) touch((uintptr_t)p, n, true, false, PC);
    shadow_clear((uintptr_t)p, n);
  }
  __real_free(p);
}
static inline void* fresh(void* p) { if (p && active) { NoSut ns; shadow_clear((uintptr_t)p, malloc_usable_size(p)); } return p; }
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t);
void* __wrap_malloc(size_t n) { return fresh(__real_malloc(n)); }
void* __wrap_calloc(size_t n, size_t m) { return fresh(__real_calloc(n, m)); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return fresh(__real_aligned_alloc(a, n)); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if (!r) fresh(*p); return r; }
void* __real___cxa_allocate_exception(size_t);
void* __wrap___cxa_allocate_exception(size_t n) { void* p = __real___cxa_allocate_exception(n); if (active) { NoSut ns; shadow_clear((uintptr_t)p, n); } return p; }
void* __real_realloc(void*, size_t);
void* __wrap_realloc(void* p, size_t n) { if (p && active) { NoSut ns; shadow_clear((uintptr_t)p, malloc_usable_size(p)); } return __real_realloc(p, n); }
}
namespace sim { void conc_unmapped(uintptr_t a, size_t n) { shadow_clear(a, n); } }

// ---- locks
struct Lock { int owner = -1; int depth = 0; int readers = 0; };
static std::map<const void*, Lock>* locks_;   // no function-local statics here: their guards are intercepted below
static std::map<const void*, Lock>& locks() { if (!locks_) locks_ = new (std::malloc(sizeof(*locks_))) std::map<const void*, Lock>(); return *locks_; }
static int lock_w(const void* m, bool rec, bool tr) {
  NoSut ns;
  maybe_switch();
  for (;;) {
    Lock& l = locks()[m];
    if (l.owner < 0 && !l.readers) { l.owner = cur->id; l.depth = 1; acquire(m); return 0; }
    if (l.owner == cur->id && rec) { ++l.depth; return 0; }
    if (tr) return EBUSY;
    block(m);
  }
}
static int unlock_any(const void* m) {
  NoSut ns;
  Lock& l = locks()[m];
  if (l.owner == cur->id) { if (--l.depth) return 0; release(m); l.owner = -1; }
  else if (l.readers) { release(m); --l.readers; }
  wake(m);
  maybe_switch();
  return 0;
}
static int lock_r(const void* m, bool tr) {
  NoSut ns;
  maybe_switch();
  for (;;) {
    Lock& l = locks()[m];
    if (l.owner < 0) { ++l.readers; acquire(m); return 0; }
    if (tr) return EBUSY;
    block(m);
  }
}
extern "C" {
#define REAL1(N, TY) int __real_##N(TY*);
REAL1(pthread_mutex_lock, pthread_mutex_t) REAL1(pthread_mutex_trylock, pthread_mutex_t) REAL1(pthread_mutex_unlock, pthread_mutex_t)
REAL1(pthread_rwlock_rdlock, pthread_rwlock_t) REAL1(pthread_rwlock_tryrdlock, pthread_rwlock_t) REAL1(pthread_rwlock_wrlock, pthread_rwlock_t) REAL1(pthread_rwlock_trywrlock, pthread_rwlock_t) REAL1(pthread_rwlock_unlock, pthread_rwlock_t)
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return watched() ? lock_w(m, recursive(m), false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return watched() ? lock_w(m, recursive(m), true) : __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return watched() ? unlock_any(m) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return watched() ? lock_r(m, false) : __real_pthread_rwlock_rdlock(m); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return watched() ? lock_r(m, true) : __real_pthread_rwlock_tryrdlock(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return watched() ? lock_w(m, false, false) : __real_pthread_rwlock_wrlock(m); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return watched() ? lock_w(m, false, true) : __real_pthread_rwlock_trywrlock(m); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return watched() ? unlock_any(m) : __real_pthread_rwlock_unlock(m); }

// one-time initialisation of function-local statics
int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*); void __real___cxa_guard_abort(uint64_t*);
static std::map<const void*, int>* guards_;
static std::map<const void*, int>& guards() { if (!guards_) guards_ = new (std::malloc(sizeof(*guards_))) std::map<const void*, int>(); return *guards_; }
int __wrap___cxa_guard_acquire(uint64_t* gd) {
  if (!watched()) return __real___cxa_guard_acquire(gd);
  NoSut ns;
  maybe_switch();
  for (;;) {
    if (*(volatile uint8_t*)gd) { acquire(gd); return 0; }
    auto& m = guards();
    if (!m.count(gd)) { m[gd] = cur->id; return 1; }
    block(gd);
  }
}
void __wrap___cxa_guard_release(uint64_t* gd) {
  NoSut ns;
  auto& m = guards();
  if (!active || !m.count(gd)) { __real___cxa_guard_release(gd); return; }
  m.erase(gd);
  *(volatile uint8_t*)gd = 1;
  release(gd);
  wake(gd);
}
void __wrap___cxa_guard_abort(uint64_t* gd) {
  NoSut ns;
  auto& m = guards();
  if (!active || !m.count(gd)) { __real___cxa_guard_abort(gd); return; }
  m.erase(gd);
  wake(gd);
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
  if (!watched()) return __real_pthread_once(o, f);
  NoSut ns;
  maybe_switch();
  for (;;) {
    if (*(volatile int*)o == 2) { acquire(o); return 0; }
    auto& m = guards();
    if (!m.count(o)) {
      m[o] = cur->id;
      try { Sut again; f(); } catch (...) { m.erase(o); wake(o); throw; }
      m.erase(o);
      *(volatile int*)o = 2;   // glibc: initialised
      release(o); wake(o);
      return 0;
    }
    block(o);
  }
}
}
