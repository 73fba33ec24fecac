// Worlds that drive the page pools and their allocators directly: a history of
// requests, releases, creations, destructions and memory grants or refusals,
// checked against a block ledger and the simulated memory map.
#pragma once
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/hugepage_pool.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_pool.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <algorithm>
#include <memory>
#include <optional>
#include <set>

#include "rt.hpp"
#include "types.hpp"

namespace sim { inline namespace SIM_NS {
namespace fc = kressler::fast_containers;
#ifdef ALLOCATOR_STATS
static constexpr bool kStats = true;
#else
static constexpr bool kStats = false;
#endif
static constexpr size_t kHugeSz = 2u << 20;

struct Outcome2 { int ex = 0; };  // 0 ok, 1 bad_alloc, 2 other std, 3 other
inline uint64_t regular_refused() { return os.st.refused - os.st.refused_huge; }

// ---- ledger of blocks handed out
struct Blk { size_t bytes, align; uint64_t seed; int owner; };
struct Avail { size_t bytes, align; };
struct Book {
  std::map<uintptr_t, Blk> live;
  std::map<int, std::map<uintptr_t, Avail>> avail;   // per owner: blocks given back
  uint64_t nseed = 0;
  static unsigned char pat(uint64_t seed, size_t i) { return (unsigned char)(mix64(seed + (i >> 3)) >> ((i & 7) * 8)); }
  template <class F> static void each_byte(size_t n, F&& f) {
    if (n <= 8192) { for (size_t i = 0; i < n; ++i) f(i); return; }
    for (size_t i = 0; i < 2048; ++i) f(i);
    for (size_t i = 2048, d = n < (64u << 20) ? 4096 + 13 : n / 61 + 7; i + 2048 < n; i += d) f(i);
    for (size_t i = n - 2048; i < n; ++i) f(i);
  }
  void fill(uintptr_t p, const Blk& b) { auto* c = (unsigned char*)p; each_byte(b.bytes, [&](size_t i) { c[i] = pat(b.seed, i); }); }
  void verify(uintptr_t p, const Blk& b, const char* where) {
    auto* c = (volatile unsigned char*)p;
    if (!os_inside((void*)p, b.bytes)) violation("*", "block-unmapped", "%s: a live block of %zu bytes is no longer inside mapped memory", where, b.bytes);
    each_byte(b.bytes, [&](size_t i) { if (c[i] != pat(b.seed, i)) violation("*", "block-overwritten", "%s: byte %zu of a live block of %zu bytes was overwritten", where, i, b.bytes); });
  }
  void verify_all(const char* where) { for (auto& kv : live) verify(kv.first, kv.second, where); }
  // a block has been handed out
  void got(void* vp, size_t bytes, size_t align, int owner, int tag) {
    uintptr_t p = (uintptr_t)vp;
    if (!vp) violation("*", "null-block", "a request for %zu bytes returned no block", bytes);
    if (p & (align - 1)) violation("*", "block-misaligned", "a request for %zu bytes aligned to %zu returned an address aligned to %zu", bytes, align, (size_t)(p & -p));
    Region* r = os_find(p);
    if (!r || p + bytes > r->base + r->len || p + bytes < p) violation("*", "block-outside-mapping", "a block of %zu bytes does not lie inside mapped memory (%s)", bytes, r ? "it extends beyond the end of its mapping" : "no mapping there");
    if (r->tag != tag) violation("*", "block-foreign-region", "a block of %zu bytes lies in memory mapped by another pool", bytes);
    auto it = live.upper_bound(p);
    if (it != live.end() && it->first < p + bytes) violation("*", "block-overlap", "a block of %zu bytes overlaps a live block of %zu bytes", bytes, it->second.bytes);
    if (it != live.begin()) { --it; if (it->first + it->second.bytes > p) violation("*", "block-overlap", "a block of %zu bytes overlaps a live block of %zu bytes", bytes, it->second.bytes); }
    auto& av = avail[owner];
    auto a = av.upper_bound(p);
    if (a != av.begin() && std::prev(a)->first + std::prev(a)->second.bytes > p) --a;
    while (a != av.end() && a->first < p + bytes) a = av.erase(a);
    Blk b{bytes, align, ++nseed, owner};
    live[p] = b;
    fill(p, b);
    ev(p * 31 + bytes);
  }
  bool has_avail(int owner, size_t bytes, size_t align) { for (auto& a : avail[owner]) if (a.second.bytes == bytes && a.second.align == align) return true; return false; }
  bool is_avail(int owner, uintptr_t p, size_t bytes) { for (auto& a : avail[owner]) if (p >= a.first && p + bytes <= a.first + a.second.bytes) return true; return false; }
  void gone(uintptr_t p) { auto it = live.find(p); avail[it->second.owner][p] = {it->second.bytes, it->second.align}; live.erase(it); }
  void drop_owner(int owner) { avail.erase(owner); for (auto it = live.begin(); it != live.end();) it = it->second.owner == owner ? live.erase(it) : std::next(it); }
  size_t live_bytes(int owner) { size_t n = 0; for (auto& kv : live) if (kv.second.owner == owner) n += kv.second.bytes; return n; }
};

struct PStats { size_t al = 0, de = 0, grow = 0, bytes = 0, cur = 0, peak = 0;
  void on_alloc(size_t b) { ++al; bytes += b; cur += b; peak = std::max(peak, cur); }
  void on_free(size_t b) { ++de; cur -= b; } };
// What a pool has promised to serve without asking the system: the rest of its
// initial size or, after growing, of its growth size.
struct Credit {
  size_t grow = 0, have = 0;
  Credit() = default;
  Credit(size_t i, size_t gr) : grow(gr), have(i) {}
  static size_t need(size_t bytes, size_t align) { size_t n = bytes + align - 1; return n < bytes ? SIZE_MAX : n; }
  bool due(size_t bytes, size_t align) const { return have >= need(bytes, align); }
  // a request failed, the growth made for it stays
  void kept(size_t grown, const char* where) {
    SIM_CHECK(grown >= grow, "C25", "growth-too-small", "%s: the pool grew by %zu bytes, its growth size is %zu", where, grown, grow);
    have = grow;
  }
  // a request has been served; `grown` bytes were mapped for it
  void served(size_t bytes, size_t align, size_t grown, bool recycled, const char* where) {
    size_t n = need(bytes, align);
    if (grown) {
      SIM_CHECK(!due(bytes, align), "C25", "capacity-missing", "%s: a request for %zu bytes aligned to %zu made the pool grow with %zu promised bytes still unused", where, bytes, align, have);
      SIM_CHECK(grown >= grow, "C25", "growth-too-small", "%s: the pool grew by %zu bytes, its growth size is %zu", where, grown, grow);
      have = std::max(grow, n) - n;
    } else if (!recycled) have -= std::min(have, n);
  }
};
template <class P> void check_stats(const P& p, const PStats& s, const char* where) {
  if constexpr (kStats) {
    if (!on("C15")) return;
    if (p.get_allocations() != s.al) violation("C15", "stat-allocations", "%s: allocation count is %zu, the history has %zu", where, (size_t)p.get_allocations(), s.al);
    if (p.get_deallocations() != s.de) violation("C15", "stat-deallocations", "%s: release count is %zu, the history has %zu", where, (size_t)p.get_deallocations(), s.de);
    if (p.get_bytes_allocated() != s.bytes) violation("C15", "stat-bytes", "%s: lifetime bytes are %zu, the history has %zu", where, (size_t)p.get_bytes_allocated(), s.bytes);
    if (p.get_current_usage() != s.cur) violation("C15", "stat-current", "%s: current usage is %zu, the history has %zu", where, (size_t)p.get_current_usage(), s.cur);
    if (p.get_peak_usage() != s.peak) violation("C15", "stat-peak", "%s: peak usage is %zu, the history has %zu", where, (size_t)p.get_peak_usage(), s.peak);
    if (p.get_growth_events() != s.grow) violation("C15", "stat-growth", "%s: growth events are %zu, the history has %zu", where, (size_t)p.get_growth_events(), s.grow);
  }
}

struct OsSnap {
  uint64_t mmaps, huge, refused_huge, regular_ref, heap; size_t regions, bytes;
  OsSnap() : mmaps(os.st.mmaps), huge(os.st.mmap_huge), refused_huge(os.st.refused_huge), regular_ref(regular_refused()), heap(g.stats.fired[F_HEAP]), regions(os_live_regions()), bytes(os_live_bytes()) {}
};
// A request may fail for want of heap memory after its pool has grown for it.
// The pool then owns that growth: nothing is leaked.
inline size_t growth_kept(const OsSnap& b) { return g.stats.fired[F_HEAP] > b.heap && os_live_regions() > b.regions ? os_live_regions() - b.regions : 0; }
struct TagRegions { size_t n = 0, bytes = 0, huge = 0; };
inline TagRegions tag_regions(int tag) { TagRegions t; for (auto& r : os.regions) if (r.live && r.tag == tag) { ++t.n; t.bytes += r.len; t.huge += r.huge; } return t; }

// C28: giving something back works while every request for memory is refused
inline Step no_memory() {
  Step s;
  if (on("C28")) { s.fk = g.cur_index % 3 ? F_HEAP : F_MMAP; s.fn = 1; s.fp = true; probe("released_without_memory"); }
  return s;
}
template <class F> Outcome2 pcall(const Step& s, int tag, F&& f) {
  Outcome2 o;
  arm(s);
  os.tag = tag;
  g.step_limit = g.steps + 20000000;
  { Sut sut;
    try { f(); }
    catch (const std::bad_alloc&) { o.ex = 1; }
    catch (const std::exception&) { o.ex = 2; }
    catch (...) { o.ex = 3; } }
  g.step_limit = 0;
  os.tag = 0;
  disarm();
  ev(0xB0B0 + (uint64_t)o.ex);
  return o;
}
inline void pexplain(const Outcome2& o, const OsSnap& b, bool impossible, const char* what) {
  if (!o.ex) return;
  bool mem = regular_refused() > b.regular_ref || g.stats.fired[F_HEAP] > b.heap;
  if (o.ex == 1 && (mem || impossible)) { probe("failed_with_bad_alloc"); return; }
  if (o.ex == 1 && os.st.refused_huge > b.refused_huge) violation("*", "no-fallback", "%s failed because huge pages were refused although ordinary pages were available", what);
  violation("*", "unexpected-exception", "%s threw %s although nothing it depends on failed", what, o.ex == 1 ? "std::bad_alloc" : "an unexpected exception");
}
// every huge page obtained since `from` must have been touched by this node
inline void check_touch(size_t from, const std::vector<std::vector<int16_t>>& before, const char* where) {
  if (!os.touch || !on("C17")) return;
  for (size_t i = 0; i < os.regions.size(); ++i) {
    Region& r = os.regions[i];
    if (!r.live) continue;
    if (i >= from) {
      if (!r.huge) continue;
      for (size_t p = 0; p < r.node.size(); ++p) {
        if (r.node[p] < 0) violation("C17", "page-not-touched", "%s: huge page %zu of %zu of a new mapping was not touched before the call returned", where, p, r.node.size());
        if (r.node[p] != os.cur_node) violation("C17", "page-wrong-node", "%s: huge page %zu was first touched on node %d, the creating thread runs on node %d", where, p, (int)r.node[p], os.cur_node);
      }
      probe("huge_pages_placed", r.node.size());
    } else if (i < before.size()) {
      for (size_t p = 0; p < r.node.size() && p < before[i].size(); ++p)
        if (before[i][p] < 0 && r.node[p] >= 0) violation("C17", "foreign-page-touched", "%s: page %zu of an older mapping was touched", where, p);
    }
  }
}
inline std::vector<std::vector<int16_t>> touch_snap() { std::vector<std::vector<int16_t>> v; if (os.touch) for (auto& r : os.regions) v.push_back(r.live ? r.node : std::vector<int16_t>()); return v; }

// ------------------------------------------------------------------ plans
struct PoolGen {
  static int64_t size_for(Rng& r, int style, const std::vector<int64_t>& sizes, int64_t grow) {
    switch (style) {
      case 0: return sizes[0];
      case 1: return sizes[r.below(sizes.size())];
      case 2: return r.range(8, 700);
      case 3: return r.chance(1, 6) ? r.range(grow / 2, grow * 2 + 100) : r.chance(1, 2) ? sizes[r.below(sizes.size())] : r.range(8, 9000);
      default: return r.chance(1, 12) ? r.range(8, 40) * 4096 : r.chance(1, 2) ? sizes[r.below(sizes.size())] : 8 * r.range(1, 300);
    }
  }
};

// ------------------------------------------------------------------ world 1: HugePagePool
enum PoolOp { P_CREATE, P_DESTROY, P_ALLOC, P_FREE, P_BURST, P_CHURN, P_FREEALL, P_PROBE, P_ENV, P_NODE, P_USE, P_OPCOUNT };
inline const std::vector<const char*>& pool_ops() {
  static const std::vector<const char*> v = {"create", "destroy", "alloc", "free", "burst", "churn", "freeall", "probe", "env", "node", "use"};
  return v;
}
struct PoolWorld {
  struct P { fc::HugePagePool* p = nullptr; void* raw = nullptr; bool asked = false, init_huge = false; int id = 0; PStats st; Credit cr; };
  std::vector<P> pools;
  Book book;
  int nextid = 0;

  static void gen(const World&, Rng& r, const std::string& prop, bool faults, int size, Plan& p) {
    int np = (int)r.range(1, 3);
    p.set("pools", np); p.set("placement", (int64_t)r.below(4)); p.set("advfail", r.chance(1, 8));
    bool touch = prop == "C17" || (prop == "C11" && r.chance(1, 4));
    p.set("touch", touch);
    if (prop == "C10" && r.chance(5, 6)) faults = true;
    if ((prop == "C11" || prop == "C17" || prop == "C13") && r.chance(3, 4)) faults = true;
    std::vector<int64_t> sizes;
    for (int i = 0, n = (int)r.range(1, 4); i < n; ++i) sizes.push_back(r.chance(1, 2) ? 64 * r.range(1, 30) : r.range(8, 1200));
    // now and then sizes that need more than 32 bits
    const bool giant = !touch && r.chance(1, 30);
    auto gsize = [&]() -> int64_t { static const int64_t g4 = (int64_t)1 << 32; return r.chance(1, 3) ? g4 + r.range(-200, 300) : r.chance(1, 2) ? r.range(1, 5) * (g4 / 2) + 64 * r.range(0, 40) : g4 * r.range(1, 3) + r.range(8, 100000); };
    if (giant) sizes.push_back(gsize());
    auto psize = [&]() -> int64_t {
      if (giant && r.chance(2, 3)) return gsize();
      switch (r.below(6)) {
        case 0: return r.range(1, 200);
        case 1: return 4096 * r.range(1, 4);
        case 2: return sizes[0] * r.range(1, 6) + (int64_t)r.below(70);
        case 3: return r.range(1, 60000);
        case 4: return (2 << 20) + r.range(-3, 3);
        default: return 4096 + r.range(-70, 70);
      }
    };
    int hugep = prop == "C17" ? 5 : prop == "C11" ? 4 : 2;  // out of 6
    int style = giant ? 1 : (int)r.below(5);
    std::vector<int64_t> aligns;
    for (int i = 0, n = (int)r.range(1, 3); i < n; ++i) aligns.push_back(r.chance(1, 3) ? 6 : r.chance(1, 6) ? r.range(12, 21) : r.range(0, 9));
    int n = (int)r.range(8, 60) * (size > 1 ? 2 : 1);
    std::vector<int64_t> grows((size_t)np, 4096);
    auto w = std::vector<int>{3, 2, 14, 9, 6, 5, 1, 2, 0, 0, 2};
    bool env = faults && r.chance(2, 3);
    if (env) w[P_ENV] = 4;
    if (touch) { w[P_NODE] = 5; w[P_CREATE] = 6; w[P_DESTROY] = 4; }
    if (prop == "C11" || prop == "C13") { w[P_CREATE] = 6; w[P_DESTROY] = 4; }
    if (prop == "C12") { w[P_CHURN] = 10; w[P_FREEALL] = 2; }
    if (prop == "C25") { w[P_PROBE] = 8; w[P_BURST] = 9; }
    if (r.chance(1, 2)) for (auto& x : w) if (r.chance(1, 5)) x = 0;
    w[P_CREATE] = std::max(w[P_CREATE], 1); w[P_ALLOC] = std::max(w[P_ALLOC], 3);
    int frate = (int)r.range(2, 6);
    auto create = [&](int t) { Step s; s.op = P_CREATE; s.t = t; s.u = r.chance(1, 4) ? (int64_t)r.below(4) : 3; s.a = psize(); s.b = r.chance(1, 12) ? 0 : psize(); s.c = (int64_t)r.below(6) < hugep; if (s.c && r.chance(1, 2)) { s.a += (2 << 20) * r.range(0, 3); s.b += (2 << 20) * r.range(0, 2); } grows[(size_t)t] = s.b; return s; };
    for (int i = 0; i < n; ++i) {
      Step s;
      int t = (int)r.below((uint64_t)np);
      s.op = i == 0 ? (int)P_CREATE : r.weighted(w);
      s.t = t;
      switch (s.op) {
        case P_CREATE: s = create(t); break;
        case P_ALLOC: case P_BURST: case P_PROBE:
          s.a = PoolGen::size_for(r, style, sizes, grows[(size_t)t]);
          s.b = r.pick(aligns);
          s.c = s.op == P_BURST ? r.range(2, 40) : s.op == P_PROBE ? (int64_t)r.chance(1, 3) : 0;
          if (s.op == P_ALLOC && r.chance(1, 40)) { static const int64_t imp[] = {-1, -63, -4096, INT64_MAX, (int64_t)1 << 62, (int64_t)1 << 50}; s.a = imp[r.below(6)]; }
          if (s.op == P_ALLOC && r.chance(1, 60)) s.a = 0;
          break;
        case P_FREE: s.a = (int64_t)r.below(100000); break;
        case P_CHURN: s.a = (int64_t)r.below(1000000); s.b = r.range(1, 30); s.c = (int64_t)r.below(1000000); break;
        case P_ENV: s.a = r.chance(1, 3) ? -1 : (int64_t)r.below(14); s.b = r.chance(1, 3) ? -1 : (int64_t)r.below(4); break;
        case P_NODE: s.a = (int64_t)r.below(4); break;
        case P_USE: s.a = (int64_t)r.below(100000); break;
        default: break;
      }
      if (faults && (s.op == P_CREATE || s.op == P_ALLOC || s.op == P_BURST) && r.below((uint64_t)frate) == 0) {
        s.fk = r.chance(1, 4) ? F_HEAP : r.chance(1, 2) ? F_MMAP : F_HUGE;
        s.fn = r.chance(2, 3) ? 1 : (int)r.range(1, 3);
        s.fp = r.chance(1, 3);
      }
      p.steps.push_back(s);
      if (s.fk && r.chance(1, 2)) { s.fk = 0; p.steps.push_back(s); }
    }
  }

  void check_pool(P& q, const char* where) {
    if (!q.p) return;
    Sut sut;
    TagRegions t = tag_regions(q.id);
    if (t.n == 0) violation("*", "no-memory-mapped", "%s: a pool has no mapping", where);
    size_t rem = q.p->bytes_remaining(), lv = book.live_bytes(q.id);
    SIM_CHECK(rem + lv <= t.bytes, "C10,C09", "remaining-overstated", "%s: %zu bytes reported remaining and %zu bytes live in %zu bytes of mapped memory", where, rem, lv, t.bytes);
    SIM_CHECK(q.p->using_hugepages() == q.init_huge && q.p->is_hugepages_enabled() == q.init_huge, "C11", "huge-report", "%s: using_hugepages() is %d, the initial memory is %s", where, (int)q.p->using_hugepages(), q.init_huge ? "huge" : "ordinary");
    check_stats(*q.p, q.st, where);
  }
  void create(const Step& s, P& q) {
    destroy(q);
    OsSnap b;
    auto tb = touch_snap();
    size_t rc = os.regions.size();
    int id = 100 + nextid++;
    // now and then with default arguments: 256 MB, growth by 64 MB, huge pages wanted
    const int args = s.u % 16 == 0 ? 0 : s.u % 16 == 1 ? 1 : s.u % 16 == 2 ? 2 : 3;
    const size_t isz = args ? (size_t)s.a : (size_t)256 << 20, gsz = args == 3 ? (size_t)s.b : (size_t)64 << 20;
    bool asked = args < 2 || (s.c & 1);
    Outcome2 o = pcall(s, id, [&] { q.p = args == 0 ? new (q.raw) fc::HugePagePool() : args == 1 ? new (q.raw) fc::HugePagePool(isz) : args == 2 ? new (q.raw) fc::HugePagePool(isz, asked) : new (q.raw) fc::HugePagePool(isz, asked, gsz); });
    if (os.st.mmap_huge > b.huge && !asked) violation("C11", "huge-unasked", "pool creation requested huge pages although told not to");
    if (o.ex) {
      q.p = nullptr;
      pexplain(o, b, false, "pool creation");
      SIM_CHECK(os_live_regions() == b.regions, "*", "leak-on-failure", "failed pool creation left %zu mapping(s) behind", os_live_regions() - b.regions);
      probe("failed_create");
      return;
    }
    q.id = id; q.asked = asked; q.st = PStats(); q.cr = Credit(isz, gsz);
    TagRegions t = tag_regions(id);
    q.init_huge = t.huge > 0;
    if (asked && os.st.mmap_huge == b.huge) SIM_CHECK(false, "C11", "huge-not-requested", "pool creation asked to use huge pages did not request any");
    if (asked && t.huge == 0 && os.st.refused_huge == b.refused_huge) SIM_CHECK(false, "C11", "huge-not-used", "pool uses ordinary pages although huge pages were granted");
    SIM_CHECK(t.bytes >= isz, "C09,C10,C25", "initial-too-small", "initial mapping has %zu bytes, %zu asked for", t.bytes, isz);
    if (asked && t.huge == 0) probe("fallback_create");
    if (t.huge) probe("huge_create");
    check_touch(rc, tb, "pool creation");
    check_pool(q, "after creation");
  }
  void destroy(P& q) {
    if (!q.p) return;
    book.verify_all("before pool destruction");
    pcall(no_memory(), q.id, [&] { q.p->~HugePagePool(); });
    q.p = nullptr;
    TagRegions t = tag_regions(q.id);
    if (t.n) violation("*", "mapping-leak", "%zu mapping(s) of a destroyed pool are still mapped", t.n);
    book.drop_owner(q.id);
  }
  bool alloc(const Step& s, P& q, size_t bytes, size_t align) {
    OsSnap b;
    auto tb = touch_snap();
    size_t rc = os.regions.size();
    size_t rem0 = q.p->bytes_remaining();
    bool reuse = book.has_avail(q.id, bytes, align);
    bool fits = bytes + align - 1 <= rem0 && bytes + align - 1 >= bytes;
    bool impossible = bytes > ((size_t)1 << 40) || align > ((size_t)1 << 40);
    TagRegions t0 = tag_regions(q.id);
    void* vp = nullptr;
    Outcome2 o = pcall(s, q.id, [&] { vp = q.p->allocate(bytes, align); });
    TagRegions t1 = tag_regions(q.id);
    size_t rem1 = q.p->bytes_remaining();
    if (!q.asked && os.st.mmap_huge > b.huge) violation("C11", "huge-unasked", "growth requested huge pages although the pool was told not to use them");
    if (reuse) {
      SIM_CHECK(os.st.mmaps == b.mmaps, "C12", "reuse-missed", "a request for %zu bytes asked the system for memory although a block of that size and alignment had been given back", bytes);
      SIM_CHECK(o.ex || rem1 == rem0, "C12", "reuse-missed", "a request for %zu bytes consumed fresh capacity (%zu -> %zu) although a block of that size and alignment had been given back", bytes, rem0, rem1);
      probe("reuse_due");
    }
    if (q.cr.due(bytes, align)) SIM_CHECK(os.st.mmaps == b.mmaps, "C25", "capacity-missing", "a request for %zu bytes aligned to %zu asked the system for memory with %zu promised bytes unused", bytes, align, q.cr.have);
    if (fits || reuse) SIM_CHECK(os.st.mmaps == b.mmaps, "C10,C12", "needless-growth", "a request for %zu bytes aligned to %zu asked the system for memory with %zu bytes remaining", bytes, align, rem0);
    if (o.ex) {
      pexplain(o, b, impossible, "allocation");
      SIM_CHECK(!q.cr.due(bytes, align) || g.stats.fired[F_HEAP] > b.heap, "C25", "needless-failure", "a request for %zu bytes failed with %zu promised bytes unused", bytes, q.cr.have);
      SIM_CHECK(!(fits || reuse) || g.stats.fired[F_HEAP] > b.heap, "C10,C12", "needless-failure", "a request for %zu bytes failed although it needed nothing from the system", bytes);
      if (const size_t k = growth_kept(b)) { q.st.grow += k; q.cr.kept(t1.bytes - t0.bytes, "a failed allocation"); probe("growth_kept"); }
      else {
        SIM_CHECK(t1.n == t0.n && t1.bytes == t0.bytes && os_live_regions() == b.regions, "*", "leak-on-failure", "a failed allocation changed the pool's mappings");
        SIM_CHECK(rem1 == rem0, "*", "failure-changed-state", "a failed allocation changed bytes_remaining from %zu to %zu", rem0, rem1);
      }
      book.verify_all("after a failed allocation");
      check_pool(q, "after a failed allocation");
      probe("failed_alloc");
      return false;
    }
    if (impossible) violation("*", "impossible-served", "a request for %zu bytes succeeded", bytes);
    if (bytes == 0) { if (vp) violation("C09", "zero-size-block", "a request for no bytes returned a block"); return true; }
    if (t1.n > t0.n) {
      q.st.grow++;
      probe("growths");
      if (q.init_huge) {
        SIM_CHECK(os.st.mmap_huge > b.huge, "C11", "huge-not-requested", "growth of a pool using huge pages did not request huge pages");
        if (t1.huge == t0.huge) { probe("fallback_growth"); SIM_CHECK(os.st.refused_huge > b.refused_huge, "C11", "huge-not-used", "growth used ordinary pages although huge pages were granted"); }
        else probe("huge_growth");
      }
      check_touch(rc, tb, "pool growth");
    } else check_touch(rc, tb, "allocation");
    q.cr.served(bytes, align, t1.bytes - t0.bytes, book.is_avail(q.id, (uintptr_t)vp, bytes), "allocation");
    if (reuse && !book.is_avail(q.id, (uintptr_t)vp, bytes)) SIM_CHECK(false, "C12", "reuse-missed", "a request for %zu bytes was served from fresh memory although a block of that size and alignment had been given back", bytes);
    q.st.on_alloc(bytes);
    book.got(vp, bytes, align, q.id, q.id);
    check_pool(q, "after an allocation");
    return true;
  }
  void release(P& q, uintptr_t p) {
    Blk b = book.live[p];
    book.verify(p, b, "before release");
    OsSnap sn;
    size_t rem0 = q.p->bytes_remaining();
    const Step none = no_memory();
    Outcome2 o = pcall(none, q.id, [&] { q.p->deallocate((void*)p, b.bytes); });
    if (o.ex) violation("*", "release-failed", "releasing a block threw an exception");
    SIM_CHECK(os.st.mmaps == sn.mmaps && os_live_regions() == sn.regions, "C10,C12,C13", "release-maps", "releasing a block changed the memory map");
    (void)rem0;
    q.st.on_free(b.bytes);
    book.gone(p);
    check_pool(q, "after a release");
  }
  std::vector<uintptr_t> owned(const P& q) { std::vector<uintptr_t> v; for (auto& kv : book.live) if (kv.second.owner == q.id) v.push_back(kv.first); return v; }
  void exec(const Step& s) {
    P& q = pools[(size_t)s.t % pools.size()];
    if (s.op != P_CREATE && s.op != P_ENV && s.op != P_NODE && !q.p) return;
    size_t align = (size_t)1 << ((uint64_t)s.b % 22);
    switch (s.op) {
      case P_CREATE: create(s, q); break;
      case P_DESTROY: destroy(q); break;
      case P_ALLOC: alloc(s, q, s.a > 0 && s.a < 8 ? 8 : (size_t)s.a, align); break;
      case P_BURST: for (int64_t i = 0; i < s.c; ++i) { Step one = s; if (i + 1 < s.c) one.fk = 0; if (!alloc(one, q, (size_t)std::max<int64_t>(8, s.a), align)) break; } break;
      case P_FREE: { auto v = owned(q); if (!v.empty()) release(q, v[(size_t)s.a % v.size()]);
        if (s.a % 8 == 3) { pcall(Step(), q.id, [&] { q.p->deallocate(nullptr, (size_t)(s.a % 5) * 64); }); check_pool(q, "after giving back a null pointer"); }
        break; }
      case P_FREEALL: { auto v = owned(q); if (s.a & 1) std::reverse(v.begin(), v.end()); for (auto p : v) release(q, p); break; }
      case P_CHURN: {  // give back a few blocks and ask for the same ones again, in another order
        auto v = owned(q);
        Rng r((uint64_t)s.a * 77 + (uint64_t)s.c);
        std::vector<Blk> got;
        for (int64_t i = 0; i < s.b && !v.empty(); ++i) { size_t k = r.below(v.size()); got.push_back(book.live[v[k]]); release(q, v[k]); v.erase(v.begin() + (long)k); }
        size_t mapped = tag_regions(q.id).bytes;
        Step none;
        std::map<size_t, std::set<size_t>> aligns;
        for (auto& b : got) aligns[b.bytes].insert(b.align);
        bool all = true;
        while (!got.empty()) { size_t k = r.below(got.size()); Blk b = got[k]; got.erase(got.begin() + (long)k); all &= alloc(none, q, b.bytes, b.align); if (aligns[b.bytes].size() > 1) all = false; }
        if (all) SIM_CHECK(tag_regions(q.id).bytes == mapped, "C12", "footprint-grows", "re-requesting the blocks just given back grew the pool");
        break;
      }
      case P_PROBE: {  // requests that fit are served even when the system refuses everything
        size_t bytes = (size_t)std::max<int64_t>(8, s.a);
        if (s.c && q.cr.have >= align + 7) { bytes = q.cr.have - (align - 1); probe("exact_fill_of_region"); }  // all that was promised
        int64_t rf = os.reg_free, hf = os.huge_free;
        os.reg_free = 0; os.huge_free = 0;
        Step none;
        alloc(none, q, bytes, align);
        os.reg_free = rf; os.huge_free = hf;
        break;
      }
      case P_ENV:
        os.reg_free = s.a >= 0 ? s.a * 4096 : (int64_t)1 << 40;
        os.huge_free = s.b >= 0 ? s.b : 1 << 20;
        break;
      case P_NODE: os.cur_node = (int)s.a; break;
      case P_USE: { auto v = owned(q); if (!v.empty()) { uintptr_t p = v[(size_t)s.a % v.size()]; Blk& b = book.live[p]; b.seed = ++book.nseed; book.fill(p, b); } break; }
      default: break;
    }
  }
  static void run(const World&, const Plan& p) {
    PoolWorld w;
    os.placement = (int)p.get("placement", 0); os.advise_fail = (int)p.get("advfail", 0); os.touch = (int)p.get("touch", 0);
    w.pools.resize((size_t)p.get("pools", 1));
    for (auto& q : w.pools) q.raw = raw_alloc(alignof(fc::HugePagePool), sizeof(fc::HugePagePool));
    int idx = 0;
    for (const Step& s : p.steps) {
      set_step(idx++, &s);
      ev((uint64_t)s.op * 999983 + (uint64_t)s.t);
      w.exec(s);
      if (idx % 8 == 0) w.book.verify_all("periodic check");
      uint64_t h = w.book.live.size();
      for (auto& q : w.pools) h = mix64(h ^ (q.p ? 1 + tag_regions(q.id).n * 64 + w.book.avail[q.id].size() : 0));
      state(h * 16 + (uint64_t)s.op);
    }
    set_step(idx, nullptr);
    // recovery: once memory is granted again every pool serves requests
    os.reg_free = (int64_t)1 << 40; os.huge_free = 1 << 20;
    Step none;
    for (auto& q : w.pools) if (q.p) { if (!w.alloc(none, q, 3000, 64)) violation("*", "no-recovery", "allocation fails although memory is granted again"); }
    w.book.verify_all("final check");
    for (auto& q : w.pools) w.destroy(q);
    for (auto& q : w.pools) raw_free(q.raw);
  }
};

// ------------------------------------------------------------------ world 2: MultiSizeHugePagePool
enum MultiOp { M_CREATE, M_DESTROY, M_ALLOC, M_FREE, M_BURST, M_CHURN, M_FREEALL, M_ENV, M_AALLOC, M_VEC, M_NODE, M_OPCOUNT };
inline const std::vector<const char*>& multi_ops() {
  static const std::vector<const char*> v = {"create", "destroy", "alloc", "free", "burst", "churn", "freeall", "env", "aalloc", "vector", "node"};
  return v;
}
struct MultiPoolWorld {
  using MP = fc::MultiSizeHugePagePool;
  struct CS { PStats st; bool huge = false; Credit cr; };
  struct T24 { uint64_t a, b, c; };
  struct alignas(128) T128 { uint64_t a[16]; };
  template <class T> using A = fc::MultiSizeHugePageAllocator<T>;
  using Vec = std::vector<uint64_t, A<uint64_t>>;
  struct V { void* raw; Vec* v = nullptr; std::vector<uint64_t> m; };
  struct P { std::shared_ptr<MP> p; bool asked = false; int id = 0; size_t init = 0, grow = 0; std::map<size_t, CS> classes; V vec; };
  // requested size of each live block (the ledger keeps the same number)
  std::vector<P> pools;
  Book book;
  int nextid = 0;

  static void gen(const World&, Rng& r, const std::string& prop, bool faults, int size, Plan& p) {
    int np = (int)r.range(1, 2);
    p.set("pools", np); p.set("placement", (int64_t)r.below(4)); p.set("advfail", r.chance(1, 8));
    bool touch = prop == "C17";
    p.set("touch", touch);
    if ((prop == "C14" || prop == "C10" || prop == "C11" || prop == "C13") && r.chance(3, 4)) faults = true;
    int hugep = prop == "C17" ? 5 : prop == "C11" ? 4 : 2;
    int n = (int)r.range(8, 60) * (size > 1 ? 2 : 1);
    auto psize = [&]() -> int64_t { switch (r.below(5)) { case 0: return r.range(1, 400); case 1: return 4096 * r.range(1, 4); case 2: return r.range(1, 20000); case 3: return (2 << 20) + r.range(-2, 2); default: return 64 * r.range(1, 300); } };
    static const int64_t edges[] = {1, 8, 63, 64, 65, 127, 128, 129, 448, 449, 511, 512, 513, 640, 767, 768, 769, 1024, 1025, 1792, 1793, 2047, 2048, 2049, 2304, 3000, 4095, 4096, 4097, 5000, 8192, 8193, 16384, 16385};
    const bool giant = !touch && r.chance(1, 20);   // sizes up to more than 32 bits
    int style = giant ? 4 : (int)r.below(4);
    std::vector<int64_t> few; for (int i = 0; i < 4; ++i) few.push_back(edges[r.below(34)]);
    auto sz = [&]() -> int64_t {
      switch (style) { case 0: return r.pick(few); case 1: return edges[r.below(34)]; case 2: return r.range(1, 700);
        case 4: return r.chance(1, 3) ? edges[r.below(34)] : ((int64_t)1 << r.range(12, 33)) + r.range(-1, 1) * (r.chance(1, 2) ? 1 : 60);
        default: return r.chance(1, 2) ? edges[r.below(34)] + r.range(-1, 1) : r.range(1, 6000); }
    };
    std::vector<int64_t> aligns; for (int i = 0, k = (int)r.range(1, 3); i < k; ++i) aligns.push_back(r.chance(1, 5) ? r.range(7, 14) : r.range(0, 6));
    auto w = std::vector<int>{3, 1, 14, 9, 5, 5, 1, 0, 6, 5, 0};
    if (faults && r.chance(2, 3)) w[M_ENV] = 4;
    if (touch) { w[M_NODE] = 5; w[M_CREATE] = 5; }
    if (prop == "C12") w[M_CHURN] = 12;
    if (prop == "C25") { w[M_VEC] = 0; w[M_BURST] = 9; w[M_CREATE] = 4; }
    if (r.chance(1, 2)) for (auto& x : w) if (r.chance(1, 5)) x = 0;
    w[M_ALLOC] = std::max(w[M_ALLOC], 3);
    int frate = (int)r.range(2, 6);
    for (int i = 0; i < n; ++i) {
      Step s; s.t = (int64_t)r.below((uint64_t)np);
      s.op = i == 0 ? (int)M_CREATE : r.weighted(w);
      switch (s.op) {
        case M_CREATE: s.u = r.chance(1, 5) ? (int64_t)r.below(4) : 3; s.a = psize(); s.b = r.chance(1, 12) ? 0 : psize(); s.c = ((int64_t)r.below(6) < hugep) + 2 * (int64_t)r.below(2); break;
        case M_ALLOC: case M_BURST:
          s.a = std::max<int64_t>(1, sz()); s.b = r.pick(aligns); s.c = r.range(2, 20);
          if (s.op == M_ALLOC && r.chance(1, 30)) { static const int64_t imp[] = {-1, -63, -4096, INT64_MAX, INT64_MIN, INT64_MIN + 1, (int64_t)1 << 62, ((int64_t)1 << 62) + 1, (int64_t)1 << 50}; s.a = imp[r.below(9)]; }
          if (s.op == M_ALLOC && r.chance(1, 60)) s.a = 0;
          break;
        case M_AALLOC: s.a = r.chance(1, 2) ? 1 : r.range(1, 60); s.b = (int64_t)r.below(4);
          if (r.chance(1, 20)) { static const int64_t imp[] = {-1, ((int64_t)1 << 61), ((int64_t)1 << 61) + 1, ((int64_t)1 << 57) + 1, -2, INT64_MAX, ((int64_t)1 << 56), 768614336404564651LL}; s.a = imp[r.below(8)]; }
          break;
        case M_VEC: s.a = r.range(1, 200); s.b = (int64_t)r.below(5); break;
        case M_FREE: s.a = (int64_t)r.below(100000); break;
        case M_CHURN: s.a = (int64_t)r.below(1000000); s.b = r.range(1, 25); s.c = (int64_t)r.below(1000000); break;
        case M_ENV: s.a = r.chance(1, 3) ? -1 : (int64_t)r.below(14); s.b = r.chance(1, 3) ? -1 : (int64_t)r.below(4); break;
        case M_NODE: s.a = (int64_t)r.below(4); break;
        default: break;
      }
      if (faults && (s.op == M_CREATE || s.op == M_ALLOC || s.op == M_BURST || s.op == M_AALLOC || s.op == M_VEC) && r.below((uint64_t)frate) == 0) {
        s.fk = r.chance(2, 5) ? F_HEAP : r.chance(1, 2) ? F_MMAP : F_HUGE;
        s.fn = (int)r.range(1, s.fk == F_HEAP ? 5 : 3);
        s.fp = r.chance(1, 3);
      }
      p.steps.push_back(s);
      if (s.fk && r.chance(1, 2)) { s.fk = 0; p.steps.push_back(s); }
    }
  }
  // class k of a pool: the tag its mappings carry is not known beforehand, so
  // regions of all classes of a pool carry the pool's tag
  static size_t cls(size_t b) { return MP::get_size_class(b); }
  int owner(const P& q, size_t c) { return q.id * 100000 + (int)(c / 64 % 100000); }
  void check_pool(P& q, const char* where) {
    if (!q.p) return;
    Sut sut;
    const MP& m = *q.p;
    size_t n = 0; bool anyhuge = false;
    for (auto& kv : q.classes) { n += 1; anyhuge |= kv.second.huge; }
    SIM_CHECK(m.active_size_classes() == n && m.get_pools().size() == n, "C14", "active-classes", "%s: %zu size classes are active, requests of %zu classes have been served", where, (size_t)m.active_size_classes(), n);
    for (auto& kv : q.classes) {
      const fc::HugePagePool* hp = m.get_pool(kv.first);
      SIM_CHECK(hp != nullptr, "C14", "class-missing", "%s: size class %zu has served requests but has no pool", where, kv.first);
      if (!hp) continue;
      check_stats(*hp, kv.second.st, where);
      for (auto& k2 : q.classes) if (k2.first != kv.first && m.get_pool(k2.first) == hp) violation("C14", "class-shared", "%s: size classes %zu and %zu share one pool", where, kv.first, k2.first);
      SIM_CHECK(hp->using_hugepages() == kv.second.huge, "C11", "huge-report", "%s: class %zu reports using_hugepages()=%d wrongly", where, kv.first, (int)hp->using_hugepages());
    }
    for (auto& kv : m.get_pools()) SIM_CHECK(kv.second != nullptr, "C14", "null-pool", "%s: size class %zu is listed without a pool", where, kv.first);
    SIM_CHECK(m.using_hugepages() == anyhuge, "C11", "huge-report", "%s: using_hugepages() is %d, %s of its pools started on huge pages", where, (int)m.using_hugepages(), anyhuge ? "one" : "none");
  }
  // run one request against pool q; f performs it.
  template <class F> bool request(const Step& s, P& q, size_t bytes, size_t align, bool impossible, F&& f) {
    OsSnap b;
    auto tb = touch_snap();
    size_t rc = os.regions.size();
    size_t c = impossible ? 0 : cls(bytes);
    auto ci = q.classes.find(c);
    bool existed = ci != q.classes.end();
    int own = owner(q, c);
    const fc::HugePagePool* hp0 = existed ? q.p->get_pool(c) : nullptr;
    size_t rem0 = hp0 ? hp0->bytes_remaining() : 0;
    bool reuse = existed && book.has_avail(own, c, align);
    void* vp = nullptr;
    size_t bytes0 = tag_regions(q.id).bytes;
    bool due = existed ? ci->second.cr.due(c, align) : !impossible && bytes && Credit(q.init, q.grow).due(c, align);
    Outcome2 o = pcall(s, q.id, [&] { vp = f(); });
    if (existed && due) SIM_CHECK(os.st.mmaps == b.mmaps, "C25", "capacity-missing", "a request of class %zu aligned to %zu asked the system for memory with %zu promised bytes unused", c, align, ci->second.cr.have);
    if (!q.asked && os.st.mmap_huge > b.huge) violation("C11", "huge-unasked", "huge pages were requested although the pool was told not to use them");
    if (o.ex) {
      pexplain(o, b, impossible, "a multi-size request");
      const size_t kept = existed ? growth_kept(b) : 0;
      if (kept) { ci->second.st.grow += kept; ci->second.cr.kept(tag_regions(q.id).bytes - bytes0, "a failed request"); probe("growth_kept"); }
      else SIM_CHECK(os_live_regions() == b.regions, "*", "leak-on-failure", "a failed request changed the memory map (%zu -> %zu mappings)", b.regions, os_live_regions());
      if (hp0 && !kept) SIM_CHECK(q.p->get_pool(c) == hp0 && hp0->bytes_remaining() == rem0, "C14,C10", "failure-changed-state", "a failed request changed the pool of class %zu", c);
      SIM_CHECK(!existed || !due || g.stats.fired[F_HEAP] > b.heap, "C25", "needless-failure", "a request of class %zu failed with promised bytes unused", c);
      SIM_CHECK(!reuse || g.stats.fired[F_HEAP] > b.heap, "C12,C14", "needless-failure", "a request failed although a block of its class had been given back");
      book.verify_all("after a failed request");
      check_pool(q, "after a failed request");
      probe("failed_request");
      return false;
    }
    if (impossible) violation("*", "impossible-served", "an impossible request succeeded");
    if (bytes == 0) { if (vp) violation("C14", "zero-size-block", "a request for no bytes returned a block"); check_pool(q, "after an empty request"); return true; }
    CS& k = q.classes[c];
    if (!existed) {
      probe("class_created");
      bool h = false; size_t cnt = 0, first = 0;
      for (size_t i = rc; i < os.regions.size(); ++i) if (os.regions[i].live && cnt++ == 0) { h = os.regions[i].huge; first = os.regions[i].len; }
      k.huge = h;
      k.cr = Credit(q.init, q.grow);
      SIM_CHECK(first >= q.init, "C25", "initial-too-small", "the pool of size class %zu starts with %zu bytes, %zu asked for", c, first, q.init);
      bytes0 += first;
      if (cnt == 0) SIM_CHECK(false, "C14,C09", "class-without-memory", "the first request of class %zu mapped no memory of its own", c);
      if (cnt > 1) k.st.grow += cnt - 1;
    } else if (os.regions.size() > rc) { k.st.grow += os_live_regions() - b.regions; probe("growths"); }
    check_touch(rc, tb, "multi-size request");
    if (reuse) {
      SIM_CHECK(os.st.mmaps == b.mmaps && q.p->get_pool(c) && q.p->get_pool(c)->bytes_remaining() == rem0, "C12,C14", "reuse-missed", "a request of class %zu consumed fresh memory although a block of that class had been given back", c);
      SIM_CHECK(book.is_avail(own, (uintptr_t)vp, c), "C12,C14", "reuse-missed", "a request of class %zu was not served from a block given back", c);
      probe("reuse_due");
    }
    k.cr.served(c, align, tag_regions(q.id).bytes - bytes0, book.is_avail(own, (uintptr_t)vp, c), "multi-size request");
    k.st.on_alloc(c);
    // the whole class-sized block belongs to the requester
    for (auto& kv : book.avail) if (kv.first / 100000 == q.id && kv.first != own)
      for (auto& a : kv.second) if ((uintptr_t)vp < a.first + a.second.bytes && a.first < (uintptr_t)vp + bytes) violation("C14", "class-mixed", "a request of %zu bytes (class %zu) was given a block recycled from another size class", bytes, c);
    book.got(vp, c, align, own, q.id);
    check_pool(q, "after a request");
    return true;
  }
  struct Req { size_t bytes; int via; };
  std::map<uintptr_t, Req> reqs;   // how each live block was asked for
  void release(P& q, uintptr_t p) {
    Blk b = book.live[p]; Req rq = reqs[p];
    book.verify(p, b, "before release");
    OsSnap sn; const Step none = no_memory();
    Outcome2 o = pcall(none, q.id, [&] {
      switch (rq.via) {
        case 1: A<uint64_t>(q.p).deallocate((uint64_t*)p, rq.bytes / 8); break;
        case 2: A<T24>(q.p).deallocate((T24*)p, rq.bytes / sizeof(T24)); break;
        case 3: A<T128>(q.p).deallocate((T128*)p, rq.bytes / sizeof(T128)); break;
        case 4: A<char>(q.p).deallocate((char*)p, rq.bytes); break;
        default: q.p->deallocate((void*)p, rq.bytes);
      }
    });
    if (o.ex) violation("*", "release-failed", "releasing a block threw an exception");
    SIM_CHECK(os.st.mmaps == sn.mmaps && os_live_regions() == sn.regions, "C12,C13,C14", "release-maps", "releasing a block changed the memory map");
    size_t c = cls(rq.bytes);
    q.classes[c].st.on_free(c);
    book.gone(p); reqs.erase(p);
    check_pool(q, "after a release");
  }
  void destroy_vec(P& q) { if (q.vec.v) { pcall(no_memory(), q.id, [&] { std::destroy_at(q.vec.v); }); q.vec.v = nullptr; q.vec.m.clear(); } }
  void destroy(P& q) {
    if (!q.p) return;
    destroy_vec(q);
    book.verify_all("before pool destruction");
    pcall(no_memory(), q.id, [&] { q.p.reset(); });
    TagRegions t = tag_regions(q.id);
    if (t.n) violation("*", "mapping-leak", "%zu mapping(s) of a destroyed pool are still mapped", t.n);
    for (auto& kv : q.classes) book.drop_owner(owner(q, kv.first));
    for (auto it = reqs.begin(); it != reqs.end();) it = book.live.count(it->first) ? std::next(it) : reqs.erase(it);
    q.classes.clear();
  }
  std::vector<uintptr_t> owned(const P& q) { std::vector<uintptr_t> v; for (auto& kv : book.live) if (kv.second.owner / 100000 == q.id) v.push_back(kv.first); return v; }
  bool alloc(const Step& s, P& q, size_t bytes, size_t align) {
    bool imp = bytes > ((size_t)1 << 40);
    void* got = nullptr;
    if (!request(s, q, bytes, align, imp, [&] { return got = q.p->allocate(bytes, align); })) return false;
    if (bytes) reqs[(uintptr_t)got] = {bytes, 0};
    return true;
  }
  template <class T> void aalloc(const Step& s, P& q, int via) {
    size_t n = (size_t)s.a;
    bool imp = n > ((size_t)1 << 40) / sizeof(T);
    T* got = nullptr;
    if (request(s, q, imp ? 1 : n * sizeof(T), alignof(T), imp, [&] { A<T> a(q.p); A<uint64_t> b(a); A<T> c(b); return (void*)(got = c.allocate(n)); })) reqs[(uintptr_t)got] = {n * sizeof(T), via};
  }
  // a standard container as client: only contents and balance are checked, the
  // classes it touches are re-read from the pool's own list afterwards
  void vec(const Step& s, P& q) {
    V& v = q.vec;
    OsSnap b;
    if (!v.v) { Step none; pcall(none, q.id, [&] { v.v = new (v.raw) Vec(A<uint64_t>(q.p)); }); }
    Outcome2 o;
    uint64_t base = ++book.nseed << 20;
    std::vector<uint64_t> m = v.m;
    size_t done = 0;
    o = pcall(s, q.id, [&] {
      switch (s.b) {
        case 0: for (int64_t i = 0; i < s.a; ++i) { v.v->push_back(base + (uint64_t)i); ++done; } break;
        case 1: v.v->reserve((size_t)s.a * 3); break;
        case 2: v.v->resize((size_t)s.a); break;
        case 3: v.v->shrink_to_fit(); break;
        default: { Vec x(*v.v); v.v->swap(x); } break;
      }
    });
    if (o.ex) { pexplain(o, b, false, "a vector operation"); }
    if (s.b == 0) for (size_t i = 0; i < done; ++i) m.push_back(base + i);
    if (s.b == 2 && !o.ex) m.resize((size_t)s.a);
    if (m.size() != v.v->size()) violation("*", "client-damaged", "a vector using the multi-size allocator has the wrong size");
    for (size_t i = 0; i < m.size(); ++i) if ((*v.v)[i] != m[i]) violation("*", "client-damaged", "element %zu of a vector using the multi-size allocator changed", i);
    v.m = m;
    book.verify_all("after a vector operation");
    // the vector allocated through classes we do not follow block by block
    resync(q);
  }
  void resync(P& q) {
    Sut sut;
    for (auto& kv : q.p->get_pools()) {
      if (!kv.second) { SIM_CHECK(false, "C14", "null-pool", "size class %zu is listed without a pool", kv.first); continue; }
      NoSut ns;
      CS& k = q.classes[kv.first];
      k.huge = kv.second->using_hugepages();
      k.cr = Credit(0, q.grow);   // how much the vector left is not followed
      if constexpr (kStats) { auto& p = *kv.second; k.st = {p.get_allocations(), p.get_deallocations(), p.get_growth_events(), p.get_bytes_allocated(), p.get_current_usage(), p.get_peak_usage()}; }
      book.avail.erase(owner(q, kv.first));   // the vector may have recycled any of them
    }
  }
  void exec(const Step& s) {
    P& q = pools[(size_t)s.t % pools.size()];
    if (s.op != M_CREATE && s.op != M_ENV && s.op != M_NODE && !q.p) return;
    size_t align = (size_t)1 << ((uint64_t)s.b % 16);
    switch (s.op) {
      case M_CREATE: {
        destroy(q);
        OsSnap b;
        const int args = (int)std::min<int64_t>(3, s.u % 16);   // how many of them are given
        q.id = 100 + nextid++; q.asked = args < 2 || (s.c & 1);
        q.init = args ? (size_t)s.a : (size_t)64 << 20; q.grow = args == 3 ? (size_t)s.b : (size_t)64 << 20;
        Outcome2 o = pcall(s, q.id, [&] {
          if (s.c & 2) q.p = (args == 0 ? fc::make_multi_size_hugepage_allocator<uint64_t>() : args == 1 ? fc::make_multi_size_hugepage_allocator<uint64_t>(q.init) : args == 2 ? fc::make_multi_size_hugepage_allocator<uint64_t>(q.init, q.asked) : fc::make_multi_size_hugepage_allocator<uint64_t>(q.init, q.asked, q.grow)).get_pool();
          else q.p = args == 0 ? std::make_shared<MP>() : args == 1 ? std::make_shared<MP>(q.init) : args == 2 ? std::make_shared<MP>(q.init, q.asked) : std::make_shared<MP>(q.init, q.asked, q.grow);
        });
        if (o.ex) { q.p.reset(); pexplain(o, b, false, "multi-size pool creation"); break; }
        check_pool(q, "after creation");
        break;
      }
      case M_DESTROY: destroy(q); break;
      case M_ALLOC: alloc(s, q, (size_t)s.a, align); break;
      case M_BURST: for (int64_t i = 0; i < s.c; ++i) { Step one = s; if (i + 1 < s.c) one.fk = 0; if (!alloc(one, q, (size_t)s.a, align)) break; } break;
      case M_AALLOC: switch (s.b) { case 0: aalloc<uint64_t>(s, q, 1); break; case 1: aalloc<T24>(s, q, 2); break; case 2: aalloc<T128>(s, q, 3); break; default: aalloc<char>(s, q, 4); } break;
      case M_FREE: { auto v = owned(q); if (!v.empty()) release(q, v[(size_t)s.a % v.size()]); break; }
      case M_FREEALL: for (auto p : owned(q)) release(q, p); break;
      case M_CHURN: {
        auto v = owned(q);
        Rng r((uint64_t)s.a * 77 + (uint64_t)s.c);
        std::vector<std::pair<size_t, size_t>> got;
        for (int64_t i = 0; i < s.b && !v.empty(); ++i) { size_t k = r.below(v.size()); got.push_back({reqs[v[k]].bytes, book.live[v[k]].align}); release(q, v[k]); v.erase(v.begin() + (long)k); }
        Step none;
        while (!got.empty()) { size_t k = r.below(got.size()); auto b = got[k]; got.erase(got.begin() + (long)k); alloc(none, q, b.first, b.second); }
        break;
      }
      case M_VEC: vec(s, q); break;
      case M_ENV:
        os.reg_free = s.a >= 0 ? s.a * 4096 : (int64_t)1 << 40;
        os.huge_free = s.b >= 0 ? s.b : 1 << 20;
        break;
      case M_NODE: os.cur_node = (int)s.a; break;
      default: break;
    }
  }
  static void run(const World&, const Plan& p) {
    MultiPoolWorld w;
    os.placement = (int)p.get("placement", 0); os.advise_fail = (int)p.get("advfail", 0); os.touch = (int)p.get("touch", 0);
    w.pools.resize((size_t)p.get("pools", 1));
    for (auto& q : w.pools) q.vec.raw = raw_alloc(alignof(Vec), sizeof(Vec));
    int idx = 0;
    for (const Step& s : p.steps) {
      set_step(idx++, &s);
      ev((uint64_t)s.op * 999979 + (uint64_t)s.t);
      w.exec(s);
      if (idx % 8 == 0) w.book.verify_all("periodic check");
      uint64_t h = w.book.live.size();
      for (auto& q : w.pools) h = mix64(h ^ (q.p ? 1 + tag_regions(q.id).n * 64 + q.classes.size() : 0));
      state(h * 16 + (uint64_t)s.op);
    }
    set_step(idx, nullptr);
    os.reg_free = (int64_t)1 << 40; os.huge_free = 1 << 20;
    Step none;
    for (auto& q : w.pools) if (q.p) { if (!w.alloc(none, q, 333, 8)) violation("*", "no-recovery", "a request fails although memory is granted again"); }
    w.book.verify_all("final check");
    for (auto& q : w.pools) w.destroy(q);
    for (auto& q : w.pools) raw_free(q.vec.raw);
  }
};
} }  // namespace sim
