// Deterministic simulation runtime: PRNG, plans, fault plane, simulated OS
// memory (mmap/munmap/madvise), simulated heap (operator new/delete),
// simulated step clock.  Linked into every (non-concurrent) world.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

// Configurations whose first line sets -Dkressler=... -DSIM_NS=... use a second
// copy of the library and of the worlds, compiled in another way.
#ifndef SIM_NS
#define SIM_NS std_build
#define SIM_SUF
#endif

namespace sim {

// ------------------------------------------------------------------ PRNG
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  // uniform in [0,n)
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  int weighted(const std::vector<int>& w) {
    uint64_t tot = 0;
    for (int x : w) tot += (uint64_t)x;
    uint64_t r = below(tot);
    for (size_t i = 0; i < w.size(); ++i) { if (r < (uint64_t)w[i]) return (int)i; r -= (uint64_t)w[i]; }
    return 0;
  }
};

// ------------------------------------------------------------------ faults
enum FaultKind : uint8_t {
  F_NONE = 0,
  F_ALLOC,   // node allocator request refused (user allocator seam)
  F_HEAP,    // operator new refused
  F_MMAP,    // mmap refused (any)
  F_HUGE,    // mmap(MAP_HUGETLB) refused
  F_VCOPY,   // value copy throws
  F_VCTOR,   // value construction from arguments throws
  F_VDEF,    // value default construction throws
  F_KCOPY,   // key copy throws
  F_KDEF,    // key default construction throws
  F_CMP,     // key comparison throws
  F_COUNT
};
extern const char* const kFaultNames[F_COUNT];
struct SimThrow { int kind; };

// ------------------------------------------------------------------ plans
struct Step {
  int op = 0;
  int64_t t = 0, u = 0, a = 0, b = 0, c = 0;
  int fk = 0;     // FaultKind
  int fn = 0;     // nth occurrence inside the step (1-based)
  int fp = 0;     // persistent from nth on
};
struct Plan {
  std::string world, config;
  std::vector<std::pair<std::string, int64_t>> params;
  std::vector<Step> steps;
  int64_t get(const char* k, int64_t d) const {
    for (auto& p : params) if (p.first == k) return p.second;
    return d;
  }
  void set(const char* k, int64_t v) {
    for (auto& p : params) if (p.first == k) { p.second = v; return; }
    params.emplace_back(k, v);
  }
};
struct World {
  const char* name;
  const char* config;
  std::vector<const char*> ops;
  void (*gen)(const World&, Rng&, const std::string& prop, bool faults, int size, Plan&);
  void (*run)(const World&, const Plan&);
  int weight(const std::string& prop) const { return weight_fn ? weight_fn(prop) : 1; }
  int (*weight_fn)(const std::string& prop);
};
std::vector<World>& worlds();
struct Reg { Reg(const World& w) { worlds().push_back(w); } };
std::string plan_text(const World&, const Plan&);
// registration that must not depend on static initialisation order
struct LazyReg {
  void (*fn)(); LazyReg* next;
  static LazyReg*& head() { static LazyReg* h = nullptr; return h; }
  explicit LazyReg(void (*f)()) : fn(f), next(head()) { head() = this; }
};

// ------------------------------------------------------------------ state
struct Stats {
  uint64_t armed[F_COUNT] = {}, fired[F_COUNT] = {};
  std::map<std::string, uint64_t> probes;
};
struct Global {
  int sut = 0;                 // >0: executing code under test
  uint64_t hash = 0;           // running event-trace hash of this run
  uint64_t steps = 0;          // simulated time: basic blocks executed in SUT
  uint64_t step_limit = 0;     // abort op when exceeded (0: none)
  Step const* cur = nullptr;
  int cur_index = -1;
  // armed fault
  int fk = 0, fn = 0, fp = 0, fcount = 0, ffired = 0;
  int faults_off = 0;
  std::string prop;            // property being decided
  std::vector<std::string> props_on;
  Stats stats;
};
extern Global g;

// Does an oracle tagged with these properties ("C01,C06" or "*") count?
bool on(const char* tags);
// Report a violation and end this process (exit code 77).
[[noreturn]] void violation(const char* tags, const char* cls, const char* fmt, ...)
    __attribute__((format(printf, 3, 4)));
#define SIM_CHECK(cond, tags, cls, ...)                                       \
  do {                                                                        \
    if (!(cond) && ::sim::on(tags)) ::sim::violation(tags, cls, __VA_ARGS__); \
  } while (0)

inline void ev(uint64_t x) { g.hash = mix64(g.hash ^ (x * 0x9e3779b97f4a7c15ULL + 0x632be59bd9b4e019ULL)); }
void probe(const char* name, uint64_t n = 1);
void state(uint64_t h);  // records a distinct-state fingerprint
void note(uint64_t h);

// true: the event of this kind that is happening now must fail
bool fault(FaultKind k);
inline void arm(const Step& s) {
  g.fk = s.fk; g.fn = s.fn; g.fp = s.fp; g.fcount = 0; g.ffired = 0;
  if (s.fk) g.stats.armed[s.fk]++;
}
inline void disarm() { g.fk = 0; }

struct Sut {  // marks execution of code under test
  Sut() { ++g.sut; }
  ~Sut() { --g.sut; }
};
struct NoSut {  // marks simulator code reached from code under test
  int saved;
  NoSut() : saved(g.sut) { g.sut = 0; }
  ~NoSut() { g.sut = saved; }
};

// Real memory, aligned as asked and never better than that.
void* raw_alloc(size_t al, size_t n);
void raw_free(void* p);
// ------------------------------------------------------------------ heap
struct HeapInfo { size_t bytes; };
size_t heap_sut_live();          // blocks allocated by SUT code and not yet freed
size_t heap_sut_bytes();
uint64_t heap_sut_total();
void heap_report(std::string& out);

// ------------------------------------------------------------------ OS memory
struct Region {
  uintptr_t base; size_t len; size_t maplen; bool huge; bool live; int tag; uint64_t serial;
  std::vector<uint8_t> pages;    // per page: still mapped
  std::vector<int16_t> node;     // per page: first-touch node (-1 untouched), touch mode only
};
struct OsStats { uint64_t mmaps = 0, mmap_huge = 0, refused = 0, refused_huge = 0, munmaps = 0, madvise = 0; };
struct Os {
  std::vector<Region> regions;
  OsStats st;
  int64_t huge_free = 1 << 20;     // free huge pages (2MB)
  int64_t reg_free = (int64_t)1 << 40;
  int placement = 0;               // 0 guarded ascending, 1 adjacent ascending, 2 adjacent descending, 3 reuse lowest
  int fill = 0;                    // 1: recycled/regular memory starts non-zero is NOT allowed: kernel zero-fills
  int tag = 0;                     // owner tag put on new regions
  int touch = 0;                   // first-touch tracking on
  int cur_node = 0;                // simulated NUMA node of the running thread
  int advise_fail = 0;             // madvise returns EINVAL
  uint64_t serial = 0;
};
extern Os os;
void os_reset();
size_t os_live_regions();
size_t os_live_bytes();
Region* os_find(uintptr_t a);      // live region containing a
bool os_inside(const void* p, size_t n);

// ------------------------------------------------------------------ tracked objects
struct ObjStats {
  int64_t live_vals = 0, live_keys = 0;
  int64_t holders = 0; uint64_t holder_sum = 0;   // live values that own an id
  int64_t key_holders = 0;                         // live keys that own a key
  uint64_t val_ctor = 0, val_copy = 0, val_move = 0, key_copy = 0;
};
extern ObjStats obj;

void begin_run(const World& w, const Plan& p);
void end_run();   // global leak oracles
void set_step(int i, const Step* s);

}  // namespace sim
