#ifdef __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#endif
#include "rt.hpp"

#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <algorithm>

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_madvise(void*, size_t, int);
}

namespace sim {
const char* const kFaultNames[F_COUNT] = {"-", "alloc", "heap", "mmap", "huge", "vcopy", "vctor", "vdef", "kcopy", "kdef", "cmp"};
Global g;
Os os;
ObjStats obj;
std::vector<World>& worlds() { static std::vector<World> w; return w; }

// Allocator for the runtime's own tables: never the simulated heap.
template <class T> struct RawAlloc {
  using value_type = T;
  RawAlloc() = default;
  template <class U> RawAlloc(const RawAlloc<U>&) {}
  T* allocate(size_t n) { return (T*)std::malloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { std::free(p); }
  template <class U> bool operator==(const RawAlloc<U>&) const { return true; }
};

struct Shared {  // mapped file shared with the driver: survives a crash
  volatile uint64_t magic, index, step, hash, runs, stop_at, ops;
};
static Shared dummy_shared;
static Shared* shared = &dummy_shared;
static bool g_trace = false;
void (*g_on_violation)() = nullptr;
__attribute__((weak)) void conc_unmapped(uintptr_t, size_t) {}

static std::unordered_set<uint64_t, std::hash<uint64_t>, std::equal_to<uint64_t>, RawAlloc<uint64_t>>* g_states;
static uint64_t g_ops = 0;

bool on(const char* tags) {
  if (tags[0] == '*') return true;
  for (auto& p : g.props_on) if (std::strstr(tags, p.c_str())) return true;
  return false;
}
void violation(const char* tags, const char* cls, const char* fmt, ...) {
  g.sut = 0; g.fk = 0;
  char buf[4096];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  shared->hash = g.hash;
  shared->step = (uint64_t)g.cur_index;
  printf("\nVIOL class=%s tags=%s step=%d hash=%016llx\nMSG %s\n", cls, tags, g.cur_index, (unsigned long long)g.hash, buf);
  if (g_on_violation) g_on_violation();
  fflush(stdout);
  _exit(77);
}
void probe(const char* name, uint64_t n) { NoSut ns; g.stats.probes[name] += n; }
void state(uint64_t h) { NoSut ns; if (g_states && g_states->size() < 1000000) g_states->insert(h); }

bool fault(FaultKind k) {
  if (g.fk != (int)k || g.faults_off || g.sut == 0) return false;
  ++g.fcount;
  if (g.fcount == g.fn || (g.fp && g.fcount > g.fn)) {
    ++g.ffired;
    g.stats.fired[k]++;
    ev(0xFA17 + k);
    return true;
  }
  return false;
}

static void* off_alloc(size_t al, size_t n) {
  if (al < 16) al = 16;
  if (n > ((size_t)1 << 40)) return nullptr;
  const size_t total = (n + al + 2 * al - 1) / (2 * al) * (2 * al);
  char* b = (char*)aligned_alloc(2 * al, total);
  if (!b) return nullptr;
  char* p = b + al;
  ((void**)p)[-1] = b;
#ifdef __SANITIZE_ADDRESS__
  __asan_poison_memory_region(b, al);
  __asan_poison_memory_region(p + n, total - al - n);
#endif
  return p;
}
void raw_free(void* q) {
  if (!q) return;
  char* p = (char*)q;
#ifdef __SANITIZE_ADDRESS__
  __asan_unpoison_memory_region(p - 8, 8);
  char* b = (char*)((void**)p)[-1];
  __asan_unpoison_memory_region(b, (size_t)(p - b));
#else
  char* b = (char*)((void**)p)[-1];
#endif
  std::free(b);
}
void* raw_alloc(size_t al, size_t n) {
  void* p = off_alloc(al, n);
  if (!p) { fprintf(stderr, "simulator out of memory\n"); _Exit(3); }
  return p;
}
// ------------------------------------------------------------------ heap
struct Tag { size_t bytes; bool off; };
using TagMap = std::unordered_map<void*, Tag, std::hash<void*>, std::equal_to<void*>, RawAlloc<std::pair<void* const, Tag>>>;
static TagMap& tags() { static TagMap* t = new (std::malloc(sizeof(TagMap))) TagMap(); return *t; }
static size_t sut_bytes = 0;
static uint64_t sut_total = 0;
size_t heap_sut_live() { return tags().size(); }
size_t heap_sut_bytes() { return sut_bytes; }
uint64_t heap_sut_total() { return sut_total; }
void heap_report(std::string& out) {
  int n = 0;
  for (auto& kv : tags()) { out += std::to_string(kv.second.bytes) + "B "; if (++n > 8) break; }
}
static void* h_alloc(size_t n, size_t al, bool nothrow) {
  if (g.sut > 0) {
    if (fault(F_HEAP)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    if (n > ((size_t)1 << 40)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  }
  const bool off = g.sut > 0 && al > 16;
  void* p = off ? off_alloc(al, n) : al > 16 ? aligned_alloc(al, n ? (n + al - 1) / al * al : al) : std::malloc(n ? n : 1);
  if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  if (g.sut > 0) { NoSut ns; tags().emplace(p, Tag{n, off}); sut_bytes += n; ++sut_total; }
  return p;
}
static void h_free(void* p, size_t n, bool sized) {
  if (!p) return;
  if (!tags().empty()) {
    NoSut ns;
    auto it = tags().find(p);
    if (it != tags().end()) {
      if (sized && n != it->second.bytes) { SIM_CHECK(false, "C04,C05,C13,C20", "heap-size-mismatch", "block of %zu bytes released as %zu bytes", it->second.bytes, n); }
      sut_bytes -= it->second.bytes;
      const bool off = it->second.off;
      tags().erase(it);
      if (off) { raw_free(p); return; }
    }
  }
  std::free(p);
}

// ------------------------------------------------------------------ OS
static const uintptr_t kArena = 0x200000000000ULL;
static const size_t kArenaSize = (size_t)1 << 43, kMaxMap = (size_t)1 << 38;
static const size_t kPage = 4096, kHuge = 2u << 20;
static uintptr_t arena_lo, arena_hi;
static bool arena_ready = false;
static std::map<uintptr_t, size_t, std::less<uintptr_t>, RawAlloc<std::pair<const uintptr_t, size_t>>>* live_map;  // base -> index

static void arena_init() {
  if (arena_ready) return;
  arena_ready = true;
  void* p = __real_mmap((void*)kArena, kArenaSize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)kArena) { perror("arena"); _exit(3); }
  live_map = new (std::malloc(sizeof(*live_map))) std::remove_pointer_t<decltype(live_map)>();
}
static void page_release(uintptr_t a, size_t n) {
  __real_madvise((void*)a, n, MADV_DONTNEED);
  mprotect((void*)a, n, PROT_NONE);
}
void os_reset() {
  arena_init();
  for (auto& r : os.regions) if (r.live) page_release(r.base, r.maplen);
  live_map->clear();
  Os fresh;
  std::swap(os, fresh);
  arena_lo = kArena + ((size_t)1 << 30);
  arena_hi = kArena + kArenaSize - ((size_t)1 << 30);
}
size_t os_live_regions() { size_t n = 0; for (auto& r : os.regions) n += r.live; return n; }
size_t os_live_bytes() { size_t n = 0; for (auto& r : os.regions) if (r.live) n += r.len; return n; }
Region* os_find(uintptr_t a) {
  if (!live_map) return nullptr;
  auto it = live_map->upper_bound(a);
  if (it == live_map->begin()) return nullptr;
  --it;
  Region& r = os.regions[it->second];
  if (!r.live || a >= r.base + r.maplen) return nullptr;
  size_t pg = r.huge ? kHuge : kPage;
  if (!r.pages[(a - r.base) / pg]) return nullptr;
  return &r;
}
bool os_inside(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  Region* r = os_find(a);
  return r && a + n <= r->base + r->len && a + n >= a;
}
// the running thread makes the pages of this range present
static void os_touch(uintptr_t a, size_t len) {
  Region* r = os_find(a);
  if (!r) return;
  size_t pg = r->huge ? kHuge : kPage;
  for (size_t i = (a - r->base) / pg; i < r->node.size() && r->base + i * pg < a + len; ++i)
    if (r->node[i] < 0 && r->pages[i]) { r->node[i] = (int16_t)os.cur_node; mprotect((void*)(r->base + i * pg), pg, PROT_READ | PROT_WRITE); }
}
static void* os_mmap(void* addr, size_t len, int prot, int flags, off_t off) {
  NoSut ns;
  bool huge = flags & MAP_HUGETLB;
  os.st.mmaps++; if (huge) os.st.mmap_huge++;
  ev(0x33a9 + len * 2 + huge);
  auto refuse = [&](int e) { os.st.refused++; if (huge) os.st.refused_huge++; errno = e; ev(0xdead0 + (uint64_t)e); return MAP_FAILED; };
  if (len == 0 || (off & 4095) || !(flags & MAP_PRIVATE) == !(flags & (MAP_SHARED & ~MAP_PRIVATE))) { errno = EINVAL; ev(0xdead0 + (uint64_t)EINVAL); return MAP_FAILED; }   // as the kernel has it; not a lack of memory
  size_t pg = huge ? kHuge : kPage;
  if (len > kMaxMap) return refuse(ENOMEM);
  size_t maplen = (len + pg - 1) / pg * pg;
  {
    int saved = g.sut; g.sut = ns.saved;
    bool f = fault(F_MMAP) || (huge && fault(F_HUGE));
    g.sut = saved;
    if (f) return refuse(ENOMEM);
  }
  if (huge) { if ((int64_t)(maplen / kHuge) > os.huge_free) return refuse(ENOMEM); }
  else if ((int64_t)maplen > os.reg_free) return refuse(ENOMEM);
  uintptr_t base = 0;
  auto up = [&](uintptr_t x) { return (x + pg - 1) / pg * pg; };
  switch (os.placement) {
    case 2: base = (arena_hi - maplen) / pg * pg; arena_hi = base; break;
    case 1: base = up(arena_lo); arena_lo = base + maplen; break;
    case 3: {
      base = up(kArena + ((size_t)1 << 30));
      for (auto& kv : *live_map) {   // lowest gap that is large enough
        Region& o = os.regions[kv.second];
        if (o.base >= base + maplen) break;
        if (o.base + o.maplen > base) base = up(o.base + o.maplen);
      }
      if (base + maplen > arena_lo) arena_lo = base + maplen;
      break;
    }
    default: base = up(arena_lo + kPage * 17); arena_lo = base + maplen + kPage * 16;
  }
  if (os.placement != 3 && arena_lo + ((size_t)1 << 30) > arena_hi) return refuse(ENOMEM);
  if (huge) os.huge_free -= (int64_t)(maplen / kHuge); else os.reg_free -= (int64_t)maplen;
  if (mprotect((void*)base, maplen, os.touch ? PROT_NONE : (prot & (PROT_READ | PROT_WRITE)))) { perror("mprotect"); _exit(3); }
  Region r;
  r.base = base; r.len = huge ? maplen : len; r.maplen = maplen; r.huge = huge; r.live = true; r.tag = os.tag; r.serial = ++os.serial;
  r.pages.assign(maplen / pg, 1);
  if (os.touch) r.node.assign(maplen / pg, -1);
  os.regions.push_back(std::move(r));
  (*live_map)[base] = os.regions.size() - 1;
  (void)addr;
  if (os.touch && (flags & MAP_POPULATE)) os_touch(base, maplen);
  return (void*)base;
}
static int os_munmap(void* addr, size_t len) {
  NoSut ns;
  uintptr_t a = (uintptr_t)addr;
  os.st.munmaps++;
  ev(0x77a9 + len);
  auto it = live_map->upper_bound(a);
  Region* r = nullptr;
  if (it != live_map->begin()) { --it; r = &os.regions[it->second]; if (!r->live || a >= r->base + r->maplen) r = nullptr; }
  if (!r || len == 0) {
    SIM_CHECK(false, "C05,C13,C09,C10,C11,C14,C16", "munmap-invalid", "munmap(%p,%zu) does not match any live mapping (double or wild unmap)", addr, len);
    errno = EINVAL; return -1;
  }
  size_t pg = r->huge ? kHuge : kPage;
  if ((a - r->base) % pg || (r->huge && len % pg) || a + (len + pg - 1) / pg * pg > r->base + r->maplen) {
    SIM_CHECK(false, "C05,C13,C09,C10,C11,C14,C16", "munmap-extent", "munmap(%p,%zu) does not fit the mapping [%p,+%zu) %s", addr, len, (void*)r->base, r->len, r->huge ? "huge" : "regular");
    errno = EINVAL; return -1;
  }
  size_t n = (len + pg - 1) / pg;
  for (size_t i = 0; i < n; ++i) {
    uint8_t& p = r->pages[(a - r->base) / pg + i];
    if (!p) SIM_CHECK(false, "C05,C13", "munmap-twice", "page of mapping [%p,+%zu) unmapped twice", (void*)r->base, r->len);
    p = 0;
  }
  page_release(a, n * pg);
  conc_unmapped(a, n * pg);
  if (r->huge) os.huge_free += (int64_t)n; else os.reg_free += (int64_t)(n * pg);
  bool any = false;
  for (auto x : r->pages) any |= x;
  if (!any) { r->live = false; live_map->erase(r->base); }
  return 0;
}
static bool in_arena(const void* p) { return (uintptr_t)p >= kArena && (uintptr_t)p < kArena + kArenaSize; }

static void on_segv(int sig, siginfo_t* si, void*) {
  uintptr_t a = (uintptr_t)si->si_addr;
  if (os.touch && in_arena(si->si_addr)) {
    Region* r = os_find(a);
    if (r) {
      size_t pg = r->huge ? kHuge : kPage;
      size_t i = (a - r->base) / pg;
      if (i < r->node.size() && r->node[i] < 0) {
        r->node[i] = (int16_t)(g.sut > 0 ? os.cur_node : 1000);
        mprotect((void*)(r->base + i * pg), pg, PROT_READ | PROT_WRITE);
        return;
      }
    }
  }
  const char* what = sig == SIGSEGV ? "crash:segv" : sig == SIGBUS ? "crash:bus" : sig == SIGFPE ? "crash:fpe" : sig == SIGILL ? "crash:ill" : "crash:abort";
  const char* where = "";
  if (sig == SIGSEGV && in_arena(si->si_addr)) { what = "unmapped-access"; where = " (memory of a pool after it was unmapped or outside any mapping)"; }
  violation("*", what, "signal %d at %p%s", sig, sig == SIGABRT ? nullptr : si->si_addr, where);
}
static void on_alarm(int) { violation("*", "no-progress", "operation did not finish within the CPU budget (simulated steps so far %llu)", (unsigned long long)g.steps); }

void set_step(int i, const Step* s) { g.cur_index = i; g.cur = s; shared->step = (uint64_t)i; shared->hash = g.hash; ++g_ops; if (g_trace) { printf("TRACE %d %016llx\n", i, (unsigned long long)g.hash); } }

void begin_run(const World&, const Plan&) {
  os_reset();
  g.hash = 0; g.cur_index = -1; g.fk = 0; g.sut = 0; g.faults_off = 0;
  obj = ObjStats();
  tags().clear(); sut_bytes = 0;
}
void end_run() {
  g.cur_index = 1000000;
  g.fk = 0;
  std::string rep; heap_report(rep);
  SIM_CHECK(heap_sut_live() == 0, "C04,C05,C10,C13,C20,C02,C03,C18", "heap-leak", "%zu heap blocks (%zu bytes: %s) still allocated after everything was destroyed", heap_sut_live(), heap_sut_bytes(), rep.c_str());
  SIM_CHECK(os_live_regions() == 0, "C13,C10,C05,C11,C14", "mapping-leak", "%zu mappings (%zu bytes) never unmapped after everything was destroyed", os_live_regions(), os_live_bytes());
  SIM_CHECK(obj.live_vals == 0, "C04,C03,C18,C20", "value-lifetime", "%lld values not destroyed (or destroyed twice if negative) after everything was destroyed", (long long)obj.live_vals);
  SIM_CHECK(obj.live_keys == 0, "C04,C03,C18,C20", "key-lifetime", "%lld keys not destroyed (or destroyed twice if negative) after everything was destroyed", (long long)obj.live_keys);
}

std::string plan_text(const World& w, const Plan& p) {
  std::string s = "plan 1\nworld " + p.world + "\nconfig " + p.config + "\n";
  for (auto& kv : p.params) s += "param " + kv.first + " " + std::to_string(kv.second) + "\n";
  for (auto& st : p.steps) {
    char b[256];
    snprintf(b, sizeof b, "s %s %lld %lld %lld %lld %lld", w.ops[(size_t)st.op], (long long)st.t, (long long)st.u, (long long)st.a, (long long)st.b, (long long)st.c);
    s += b;
    if (st.fk) { snprintf(b, sizeof b, " !%s@%d%s", kFaultNames[st.fk], st.fn, st.fp ? "+" : ""); s += b; }
    s += "\n";
  }
  return s;
}
static const World* find_world(const std::string& name, const std::string& cfg) {
  for (auto& w : worlds()) if (name == w.name && cfg == w.config) return &w;
  return nullptr;
}
static const World* parse_plan(const char* path, Plan& p) {
  FILE* f = fopen(path, "r");
  if (!f) { perror(path); _exit(3); }
  char line[1024];
  const World* w = nullptr;
  while (fgets(line, sizeof line, f)) {
    char a[256], b[256]; long long v;
    if (line[0] == '#' || line[0] == '\n') continue;
    if (sscanf(line, "world %255s", a) == 1) p.world = a;
    else if (sscanf(line, "config %255s", a) == 1) { p.config = a; w = find_world(p.world, p.config); if (!w) { fprintf(stderr, "unknown world/config\n"); _exit(3); } }
    else if (sscanf(line, "param %255s %lld", a, &v) == 2) p.params.emplace_back(a, v);
    else if (line[0] == 's' && line[1] == ' ') {
      Step s; long long t, u, x, y, z; b[0] = 0;
      int n = sscanf(line, "s %255s %lld %lld %lld %lld %lld !%255s", a, &t, &u, &x, &y, &z, b);
      if (n < 6 || !w) { fprintf(stderr, "bad step: %s", line); _exit(3); }
      s.op = -1;
      for (size_t i = 0; i < w->ops.size(); ++i) if (!strcmp(w->ops[i], a)) s.op = (int)i;
      if (s.op < 0) { fprintf(stderr, "bad op: %s", line); _exit(3); }
      s.t = t; s.u = u; s.a = x; s.b = y; s.c = z;
      if (n == 7) {
        char* at = strchr(b, '@');
        if (at) {
          *at = 0;
          for (int i = 1; i < F_COUNT; ++i) if (!strcmp(b, kFaultNames[i])) s.fk = i;
          s.fn = atoi(at + 1);
          s.fp = strchr(at + 1, '+') ? 1 : 0;
        }
      }
      p.steps.push_back(s);
    }
  }
  fclose(f);
  return w;
}
static void set_prop(const std::string& prop) { g.prop = prop; g.props_on = {prop}; }
static void cpu_budget(int secs) {
  struct itimerval it{}; it.it_value.tv_sec = secs;
  setitimer(ITIMER_PROF, &it, nullptr);
}
static uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (char c : s) h = (h ^ (uint8_t)c) * 1099511628211ULL; return h; }

static uint64_t run_one(const World& w, const Plan& p) {
  cpu_budget(20);
  begin_run(w, p);
  w.run(w, p);
  end_run();
  cpu_budget(0);
  return g.hash;
}
static const World* make_plan(const std::string& prop, uint64_t seed, uint64_t index, int sizecap, Plan& p) {
  Rng r(mix64(seed * 0x100000001b3ULL + hash_str(prop)) ^ mix64(index));
  std::vector<const World*> ws; std::vector<int> wt;
  for (auto& w : worlds()) { int x = w.weight(prop); if (x > 0) { ws.push_back(&w); wt.push_back(x); } }
  if (ws.empty()) { fprintf(stderr, "no world for %s\n", prop.c_str()); _exit(3); }
  const World* w = ws[(size_t)r.weighted(wt)];
  p.world = w->name; p.config = w->config;
  bool faults = r.chance(1, 2);
  w->gen(*w, r, prop, faults, sizecap, p);
  return w;
}
static void setup_process() {
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  static char alt[65536];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  struct sigaction al{}; al.sa_handler = on_alarm; al.sa_flags = SA_ONSTACK; sigaction(SIGPROF, &al, nullptr);
  arena_init();
}
static void json_str(std::string& o, const std::string& s) {
  o += '"';
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
  o += '"';
}
int main_(int argc, char** argv) {
  setup_process();
  for (LazyReg* l = LazyReg::head(); l; l = l->next) l->fn();
  std::sort(worlds().begin(), worlds().end(), [](const World& a, const World& b) { int c = strcmp(a.name, b.name); return c ? c < 0 : strcmp(a.config, b.config) < 0; });
  std::string mode = argc > 1 ? argv[1] : "";
  auto opt = [&](const char* n, const char* d) -> const char* { for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], n)) return argv[i + 1]; return d; };
  set_prop(opt("--prop", "C01"));
  if (const char* x = opt("--also", nullptr)) { std::string s = x; size_t p = 0; while (p < s.size()) { size_t q = s.find(',', p); if (q == std::string::npos) q = s.size(); g.props_on.push_back(s.substr(p, q - p)); p = q + 1; } }
  uint64_t seed = strtoull(opt("--seed", "1"), nullptr, 10);
  int sizecap = atoi(opt("--size", "1"));
  if (const char* sf = opt("--status", nullptr)) {
    int fd = open(sf, O_RDWR | O_CREAT, 0600);
    if (fd >= 0 && ftruncate(fd, 4096) == 0) {
      void* m = __real_mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) shared = (Shared*)m;
      close(fd);
    }
  }
  if (mode == "list") { for (auto& w : worlds()) printf("%s %s %d\n", w.name, w.config, w.weight(g.prop)); fflush(stdout); return 0; }
  if (mode == "gen") {
    Plan p; const World* w = make_plan(g.prop, seed, strtoull(opt("--index", "0"), nullptr, 10), sizecap, p);
    fputs(plan_text(*w, p).c_str(), stdout); fflush(stdout);
    return 0;
  }
  if (mode == "run") {
    g_trace = opt("--trace", nullptr) != nullptr;
    Plan p; const World* w = parse_plan(argv[2], p);
    if (!w) { fprintf(stderr, "no world\n"); return 3; }
    uint64_t h = run_one(*w, p);
    printf("OK hash=%016llx steps=%llu\n", (unsigned long long)h, (unsigned long long)g.steps); fflush(stdout);
    return 0;
  }
  if (mode == "batch") {
    uint64_t from = strtoull(opt("--from", "0"), nullptr, 10), stride = strtoull(opt("--stride", "1"), nullptr, 10), count = strtoull(opt("--count", "1"), nullptr, 10);
    double tmax = atof(opt("--tmax", "100000"));
    g_states = new (std::malloc(sizeof(*g_states))) std::remove_pointer_t<decltype(g_states)>();
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    uint64_t combined = 0, runs = 0, fault_runs = 0; std::map<std::string, uint64_t> percfg; uint64_t nontriv = 0;
    std::unordered_set<uint64_t> traces;
    std::vector<std::string> samples;
    bool log = opt("--log", nullptr) != nullptr;
    for (uint64_t i = from; i < count; i += stride) {
      if (shared->stop_at && i + 1 > shared->stop_at) break;
      struct timespec t1; clock_gettime(CLOCK_MONOTONIC, &t1);
      if ((double)(t1.tv_sec - t0.tv_sec) > tmax) break;
      shared->index = i; shared->step = 0; shared->hash = 0;
      Plan p; const World* w = make_plan(g.prop, seed, i, sizecap, p);
      uint64_t fired0 = 0, fired1 = 0; for (auto f : g.stats.fired) fired0 += f;
      uint64_t ops0 = g_ops;
      uint64_t h = run_one(*w, p);
      for (auto f : g.stats.fired) fired1 += f;
      if (fired1 > fired0) ++fault_runs;
      if (g_ops - ops0 >= 3) { if (traces.insert(h).second) ++nontriv; }
      combined ^= mix64(h + i); ++runs; percfg[p.world + "/" + p.config]++;
      shared->runs = runs;
      if (log) { printf("H %llu %016llx\n", (unsigned long long)i, (unsigned long long)h); }
      if (samples.size() < 2 && p.steps.size() < 60) samples.push_back(plan_text(*w, p));
    }
    std::string o = "{\"runs\":" + std::to_string(runs) + ",\"fault_runs\":" + std::to_string(fault_runs) + ",\"distinct\":" + std::to_string(nontriv) + ",\"ops\":" + std::to_string(g_ops) + ",\"sim_steps\":" + std::to_string(g.steps) + ",\"hash\":\"" + std::to_string(combined) + "\",\"states\":[";
    {
      bool first = true; size_t cnt = 0;
      for (auto s : *g_states) { (void)s; ++cnt; }
      (void)first;
      o += std::to_string(cnt);
    }
    o += "],\"armed\":{";
    for (int i = 1; i < F_COUNT; ++i) { if (i > 1) o += ","; json_str(o, kFaultNames[i]); o += ":" + std::to_string(g.stats.armed[i]); }
    o += "},\"fired\":{";
    for (int i = 1; i < F_COUNT; ++i) { if (i > 1) o += ","; json_str(o, kFaultNames[i]); o += ":" + std::to_string(g.stats.fired[i]); }
    o += "},\"probes\":{";
    bool f = true;
    for (auto& kv : g.stats.probes) { if (!f) o += ","; f = false; json_str(o, kv.first); o += ":" + std::to_string(kv.second); }
    o += "},\"configs\":{";
    f = true;
    for (auto& kv : percfg) { if (!f) o += ","; f = false; json_str(o, kv.first); o += ":" + std::to_string(kv.second); }
    o += "},\"samples\":[";
    f = true;
    for (auto& s : samples) { if (!f) o += ","; f = false; json_str(o, s); }
    o += "]}";
    printf("\nBATCH %s\n", o.c_str());
    if (const char* sf = opt("--states-out", nullptr)) {
      FILE* fo = fopen(sf, "wb");
      if (fo) { for (uint64_t s : *g_states) fwrite(&s, 8, 1, fo); fclose(fo); }
    }
    fflush(stdout);
    return 0;
  }
  fprintf(stderr, "usage: runner list|gen|run|batch ...\n");
  return 3;
}
}  // namespace sim

// ------------------------------------------------------------------ seams
extern "C" {
void* __wrap_mmap(void* addr, size_t len, int prot, int flags, int fd, off_t off) {
  if ((flags & MAP_ANONYMOUS) && sim::g.sut > 0) return sim::os_mmap(addr, len, prot, flags, off);
  return __real_mmap(addr, len, prot, flags, fd, off);
}
void* __wrap_mmap64(void* addr, size_t len, int prot, int flags, int fd, off_t off) { return __wrap_mmap(addr, len, prot, flags, fd, off); }
int __wrap_munmap(void* addr, size_t len) {
  if (sim::in_arena(addr) || sim::g.sut > 0) return sim::os_munmap(addr, len);
  return __real_munmap(addr, len);
}
int __wrap_madvise(void* addr, size_t len, int advice) {
  if (sim::in_arena(addr)) {
    sim::os.st.madvise++;
    if (advice == MADV_DONTNEED || advice == 8 /*MADV_FREE*/ || advice == MADV_REMOVE) {
      return __real_madvise(addr, len, advice);
    }
    if (sim::os.advise_fail) { errno = EINVAL; return -1; }
    if (sim::os.touch && sim::g.sut > 0 && (advice == 22 || advice == 23)) sim::os_touch((uintptr_t)addr, len);  // MADV_POPULATE_*
    return 0;
  }
  return __real_madvise(addr, len, advice);
}
// simulated step clock (every basic block of instrumented code)
__attribute__((no_sanitize("address"))) void __sanitizer_cov_trace_pc(void) {
  if (sim::g.sut > 0) {
    ++sim::g.steps;
    if (sim::g.step_limit && sim::g.steps > sim::g.step_limit) {
      sim::g.step_limit = 0;
      sim::violation("*", "no-progress", "operation exceeded its simulated step budget");
    }
  }
}
const char* __asan_default_options() {
  return "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:allow_user_segv_handler=1:detect_stack_use_after_return=0:quarantine_size_mb=16:alloc_dealloc_mismatch=0:max_free_fill_size=0:max_malloc_fill_size=1048576:use_sigaltstack=0";
}
const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=98:print_stacktrace=0"; }
}

void* operator new(size_t n) { return sim::h_alloc(n, 0, false); }
void* operator new[](size_t n) { return sim::h_alloc(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::h_alloc(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::h_alloc(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return sim::h_alloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::h_alloc(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return sim::h_alloc(n, (size_t)a, true); }
void operator delete(void* p) noexcept { sim::h_free(p, 0, false); }
void operator delete[](void* p) noexcept { sim::h_free(p, 0, false); }
void operator delete(void* p, size_t n) noexcept { sim::h_free(p, n, true); }
void operator delete[](void* p, size_t n) noexcept { sim::h_free(p, n, true); }
void operator delete(void* p, std::align_val_t) noexcept { sim::h_free(p, 0, false); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::h_free(p, 0, false); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { sim::h_free(p, n, true); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { sim::h_free(p, n, true); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::h_free(p, 0, false); }

int main(int argc, char** argv) {
  // same addresses in every process, where the system allows it
  int p = personality(0xffffffff);
  if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC") && personality((unsigned long)p | ADDR_NO_RANDOMIZE) != -1) {
    setenv("SIM_NO_REEXEC", "1", 1);
    execv("/proc/self/exe", argv);
  }
  return sim::main_(argc, argv);
}
