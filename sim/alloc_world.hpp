// World 3: allocators as owners of pools.  Handles (HugePageAllocator,
// PolicyBasedHugePageAllocator, pool pointers) are created, copied, rebound,
// assigned and destroyed in any order while blocks obtained through them live.
#pragma once
#include "pool_world.hpp"

namespace sim { inline namespace SIM_NS {
struct ALeaf { ALeaf* next_leaf; unsigned char pad[184]; };
struct AInternal { bool children_are_leaves; unsigned char pad[327]; };
struct AVal { uint64_t a[3]; };
struct alignas(256) AWide { unsigned char pad[512]; };

struct AHandle {
  virtual ~AHandle() = default;   // destroys the allocator (called inside Sut)
  virtual void* alloc(size_t n) = 0;
  virtual void dealloc(void* p, size_t n) = 0;
  virtual AHandle* copy() = 0;
  virtual AHandle* rebind(int type) = 0;
  virtual bool assign(AHandle* o, bool move) = 0;
  virtual bool equal(AHandle* o) = 0;
  virtual void stats(const PStats& s, const char* w) = 0;
  virtual bool huge() = 0;
  virtual size_t remaining() = 0;
  virtual size_t size() = 0;
  virtual size_t align() = 0;
  virtual int type() = 0;
};
template <class F> AHandle* by_type(int t, F&& f) {
  switch (t) { case 0: return f((ALeaf*)nullptr); case 1: return f((AInternal*)nullptr); case 2: return f((AVal*)nullptr); default: return f((AWide*)nullptr); }
}
template <class T> constexpr int type_no() { return std::is_same_v<T, ALeaf> ? 0 : std::is_same_v<T, AInternal> ? 1 : std::is_same_v<T, AVal> ? 2 : 3; }
// handles themselves live in simulator memory
struct RawNew {
  static void* operator new(size_t n) { return std::malloc(n); }
  static void operator delete(void* p) { std::free(p); }
};
template <class T> struct HugeH final : AHandle, RawNew {
  using A = fc::HugePageAllocator<T>;
  A a;
  HugeH() : a() {}
  HugeH(size_t i, bool h, size_t gr) : a(i, h, gr) {}
  explicit HugeH(const A& o) : a(o) {}
  template <class U> explicit HugeH(const fc::HugePageAllocator<U>& o) : a(o) {}
  void* alloc(size_t n) override { return a.allocate(n); }
  void dealloc(void* p, size_t n) override { a.deallocate((T*)p, n); }
  AHandle* copy() override { return new HugeH(a); }
  AHandle* rebind(int t) override { return by_type(t, [&](auto* u) -> AHandle* { using U = std::remove_pointer_t<decltype(u)>; if constexpr (std::is_same_v<U, T>) return new HugeH(a); else return new HugeH<U>(a); }); }
  bool assign(AHandle* o, bool move) override { auto* x = dynamic_cast<HugeH*>(o); if (!x) return false; if (move) a = std::move(x->a); else a = x->a; return true; }
  bool equal(AHandle* o) override { auto* x = dynamic_cast<HugeH*>(o); return x && a == x->a; }
  void stats(const PStats& s, const char* w) override { check_stats(a, s, w); }
  bool huge() override { return a.using_hugepages(); }
  size_t remaining() override { return a.bytes_remaining(); }
  size_t size() override { return sizeof(T); }
  size_t align() override { return alignof(T) > 64 ? alignof(T) : 64; }
  int type() override { return type_no<T>(); }
};
template <class T> struct PolH final : AHandle, RawNew {
  using A = fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>;
  A a;
  explicit PolH(const fc::TwoPoolPolicy& p) : a(p) {}
  explicit PolH(const A& o) : a(o) {}
  template <class U> explicit PolH(const fc::PolicyBasedHugePageAllocator<U, fc::TwoPoolPolicy>& o) : a(o) {}
  fc::HugePagePool* pool() { return std::is_same_v<T, AInternal> ? a.get_policy().internal_pool_.get() : a.get_policy().leaf_pool_.get(); }
  void* alloc(size_t n) override { return a.allocate(n); }
  void dealloc(void* p, size_t n) override { a.deallocate((T*)p, n); }
  AHandle* copy() override { return new PolH(a); }
  AHandle* rebind(int t) override { return by_type(t, [&](auto* u) -> AHandle* { using U = std::remove_pointer_t<decltype(u)>; if constexpr (std::is_same_v<U, T>) return new PolH(a); else return new PolH<U>(a); }); }
  bool assign(AHandle* o, bool move) override { (void)move; auto* x = dynamic_cast<PolH*>(o); if (!x) return false; a = x->a; return true; }
  bool equal(AHandle* o) override { auto* x = dynamic_cast<PolH*>(o); return x && a == x->a; }
  void stats(const PStats& s, const char* w) override { check_stats(*pool(), s, w); }
  bool huge() override { return pool()->using_hugepages(); }
  size_t remaining() override { return pool()->bytes_remaining(); }
  size_t size() override { return sizeof(T); }
  size_t align() override { return alignof(T) > 64 ? alignof(T) : 64; }
  int type() override { return type_no<T>(); }
};

enum AllocOp { A_NEW, A_NEWPOL, A_COPY, A_REBIND, A_ASSIGN, A_DESTROY, A_ALLOC, A_ALLOCN, A_FREE, A_BURST, A_CHURN, A_ENV, A_NODE, A_POOLPTR, A_OPCOUNT };
inline const std::vector<const char*>& alloc_ops() {
  static const std::vector<const char*> v = {"new", "newpol", "copy", "rebind", "assign", "destroy", "alloc", "allocn", "free", "burst", "churn", "env", "node", "poolptr"};
  return v;
}
struct AllocWorld {
  struct Pl { bool asked = false, huge = false; PStats st; Credit cr; size_t init = 0; };
  // p[0]: pool of leaf-like and plain types, p[1]: pool of internal-like types
  struct H { AHandle* h = nullptr; bool pol = false; int p[2] = {0, 0}; int pool() const { return pol && h->type() == 1 ? p[1] : p[0]; } };
  std::vector<H> hs;
  std::vector<std::pair<std::shared_ptr<fc::HugePagePool>, int>> ptrs;  // pool handles held by the user
  std::map<int, Pl> pls;
  Book book;
  std::map<uintptr_t, int> btype;
  int nextid = 100;

  static void gen(const World&, Rng& r, const std::string& prop, bool faults, int size, Plan& p) {
    int ns = (int)r.range(2, 6);
    p.set("slots", ns); p.set("placement", (int64_t)r.below(4)); p.set("advfail", r.chance(1, 8));
    bool touch = prop == "C17";
    p.set("touch", touch);
    if ((prop == "C10" || prop == "C11" || prop == "C13" || prop == "C17") && r.chance(3, 4)) faults = true;
    int hugep = prop == "C17" ? 5 : prop == "C11" ? 4 : 2;
    int n = (int)r.range(10, 60) * (size > 1 ? 2 : 1);
    auto psize = [&]() -> int64_t { switch (r.below(5)) { case 0: return r.range(1, 600); case 1: return 4096 * r.range(1, 4); case 2: return r.range(1, 20000); case 3: return (2 << 20) + r.range(-2, 2); default: return 64 * r.range(1, 300); } };
    auto w = std::vector<int>{4, 4, 6, 4, 4, 7, 14, 1, 10, 5, 4, 0, 0, 2};
    if (faults && r.chance(2, 3)) w[A_ENV] = 4;
    if (touch) w[A_NODE] = 5;
    if (prop == "C16") { w[A_NEW] = 0; w[A_NEWPOL] = 7; }
    if (r.chance(1, 2)) for (auto& x : w) if (r.chance(1, 5)) x = 0;
    w[A_ALLOC] = std::max(w[A_ALLOC], 4); w[A_NEWPOL] = std::max(w[A_NEWPOL], 1);
    int frate = (int)r.range(2, 6);
    for (int i = 0; i < n; ++i) {
      Step s; s.op = i == 0 ? (int)(w[A_NEW] && r.chance(1, 2) ? A_NEW : A_NEWPOL) : r.weighted(w);
      s.t = (int64_t)r.below((uint64_t)ns); s.u = (int64_t)r.below((uint64_t)ns);
      switch (s.op) {
        case A_NEW: s.a = psize(); s.b = psize(); s.c = (int64_t)r.below(4) * 2 + ((int64_t)r.below(6) < hugep); break;
        case A_NEWPOL: s.a = psize(); s.b = psize(); s.c = (int64_t)r.below(4) * 2 + ((int64_t)r.below(6) < hugep); break;
        case A_REBIND: s.a = (int64_t)r.below(4); break;
        case A_ASSIGN: s.a = (int64_t)r.below(2); break;
        case A_ALLOCN: s.a = r.chance(1, 3) ? 0 : r.range(2, 5); break;
        case A_BURST: s.a = r.range(2, 40); break;
        case A_FREE: s.a = (int64_t)r.below(100000); break;
        case A_CHURN: s.a = (int64_t)r.below(1000000); s.b = r.range(1, 25); break;
        case A_ENV: s.a = r.chance(1, 3) ? -1 : (int64_t)r.below(14); s.b = r.chance(1, 3) ? -1 : (int64_t)r.below(4); break;
        case A_NODE: s.a = (int64_t)r.below(4); break;
        default: break;
      }
      if (faults && (s.op <= A_REBIND || s.op == A_ALLOC || s.op == A_BURST) && r.below((uint64_t)frate) == 0) {
        s.fk = r.chance(2, 5) ? F_HEAP : r.chance(1, 2) ? F_MMAP : F_HUGE;
        s.fn = (int)r.range(1, s.op == A_NEWPOL ? 4 : 2);
        s.fp = r.chance(1, 3);
      }
      p.steps.push_back(s);
      if (s.fk && r.chance(1, 2)) { s.fk = 0; p.steps.push_back(s); }
    }
  }
  H& S(int64_t i) { return hs[(size_t)i % hs.size()]; }
  int refs(int pool) { int n = 0; for (auto& h : hs) if (h.h) n += h.p[0] == pool || (h.pol && h.p[1] == pool); for (auto& x : ptrs) n += x.second == pool; return n; }
  // pools without an owner must be gone, pools with one must be there
  void check_pools(const char* where) {
    for (auto it = pls.begin(); it != pls.end();) {
      TagRegions t = tag_regions(it->first);
      if (refs(it->first) == 0) {
        if (t.n) violation("*", "mapping-kept", "%s: %zu mapping(s) of a pool nobody owns any more are still mapped", where, t.n);
        book.drop_owner(it->first);
        it = pls.erase(it);
      } else { if (t.n == 0) violation("*", "unmapped-early", "%s: the memory of a pool that still has an owner was unmapped", where); ++it; }
    }
    for (auto it = btype.begin(); it != btype.end();) it = book.live.count(it->first) ? std::next(it) : btype.erase(it);
    Sut sut;
    for (auto& h : hs) if (h.h) {
      Pl& q = pls[h.pool()];
      h.h->stats(q.st, where);
      SIM_CHECK(h.h->huge() == q.huge, "C11", "huge-report", "%s: an allocator reports using_hugepages()=%d, the initial memory of its pool is %s", where, (int)h.h->huge(), q.huge ? "huge" : "ordinary");
      size_t rem = h.h->remaining(), lv = book.live_bytes(h.pool());
      SIM_CHECK(rem + lv <= tag_regions(h.pool()).bytes, "C09,C10", "remaining-overstated", "%s: %zu bytes reported remaining and %zu bytes live exceed the mapped memory", where, rem, lv);
      for (auto& o : hs) if (o.h && o.h->type() == h.h->type() && o.pol == h.pol) {
        bool same = o.pool() == h.pool();
        SIM_CHECK(h.h->equal(o.h) == same, "C05,C13", "allocator-equality", "%s: two allocators %s a pool but compare %s", where, same ? "share" : "do not share", same ? "unequal" : "equal");
      }
    }
  }
  void destroy(H& h) {
    if (!h.h) return;
    pcall(no_memory(), 0, [&] { delete h.h; });
    h.h = nullptr;
  }
  // a new pool with this tag has just been created
  void born(int id, bool asked, size_t init, size_t grow, const char* what) {
    TagRegions t = tag_regions(id);
    if (t.n == 0) violation("*", "no-memory-mapped", "%s mapped no memory", what);
    SIM_CHECK(t.bytes >= init, "C25", "initial-too-small", "%s mapped %zu bytes, %zu asked for", what, t.bytes, init);
    pls[id] = Pl{asked, t.huge > 0, PStats(), Credit(init, grow), init};
  }
  void failed(const OsSnap& b, const Outcome2& o, const char* what) {
    pexplain(o, b, false, what);
    SIM_CHECK(os_live_regions() == b.regions, "*", "leak-on-failure", "%s failed and left the memory map changed (%zu -> %zu mappings)", what, b.regions, os_live_regions());
    probe("failed_create");
  }
  bool alloc(const Step& s, H& h) {
    int id = h.pool();
    Pl& q = pls[id];
    OsSnap b; auto tb = touch_snap(); size_t rc = os.regions.size();
    size_t bytes = h.h->size(), align = h.h->align();
    size_t rem0 = h.h->remaining();
    const bool due = q.cr.due(bytes, align);
    bool reuse = book.has_avail(id, bytes, align), fits = rem0 >= bytes + align - 1;
    void* vp = nullptr;
    Outcome2 o = pcall(s, id, [&] { vp = h.h->alloc(1); });
    size_t rem1 = h.h->remaining();
    SIM_CHECK(q.asked || os.st.mmap_huge == b.huge, "C11", "huge-unasked", "growth requested huge pages although none were asked for");
    if (due) SIM_CHECK(os.st.mmaps == b.mmaps, "C25", "capacity-missing", "a request for %zu bytes aligned to %zu asked the system for memory with %zu promised bytes unused", bytes, align, q.cr.have);
    if (fits || reuse) SIM_CHECK(os.st.mmaps == b.mmaps, "C10,C12", "needless-growth", "a request for %zu bytes asked the system for memory with %zu bytes remaining%s", bytes, rem0, reuse ? " and a block given back" : "");
    if (reuse) SIM_CHECK(o.ex || rem1 == rem0, "C12", "reuse-missed", "a request for %zu bytes consumed fresh capacity although a block of that size and alignment had been given back", bytes);
    if (o.ex) {
      pexplain(o, b, false, "allocation");
      SIM_CHECK(!due || g.stats.fired[F_HEAP] > b.heap, "C25", "needless-failure", "a request for %zu bytes failed with %zu promised bytes unused", bytes, q.cr.have);
      if (const size_t k = growth_kept(b)) { q.st.grow += k; q.cr.kept(os_live_bytes() - b.bytes, "a failed allocation"); probe("growth_kept"); }
      else {
        SIM_CHECK(os_live_regions() == b.regions, "*", "leak-on-failure", "a failed allocation changed the memory map");
        SIM_CHECK(rem1 == rem0, "*", "failure-changed-state", "a failed allocation changed bytes_remaining");
      }
      book.verify_all("after a failed allocation");
      check_pools("after a failed allocation");
      return false;
    }
    if (os_live_regions() > b.regions) {
      q.st.grow += os_live_regions() - b.regions;
      if (q.huge) {
        SIM_CHECK(os.st.mmap_huge > b.huge, "C11", "huge-not-requested", "growth of a pool using huge pages did not request huge pages");
        if (os.st.refused_huge == b.refused_huge) SIM_CHECK(os.regions.back().huge, "C11", "huge-not-used", "growth used ordinary pages although huge pages were granted");
      }
    }
    check_touch(rc, tb, "allocation through an allocator");
    q.cr.served(bytes, align, os_live_bytes() - b.bytes, book.is_avail(id, (uintptr_t)vp, bytes), "allocation through an allocator");
    q.st.on_alloc(bytes);
    book.got(vp, bytes, align, id, id);
    btype[(uintptr_t)vp] = h.h->type();
    check_pools("after an allocation");
    return true;
  }
  void release(H& h, uintptr_t p) {
    Blk b = book.live[p];
    book.verify(p, b, "before release");
    OsSnap sn; const Step none = no_memory();
    Outcome2 o = pcall(none, h.pool(), [&] { h.h->dealloc((void*)p, 1); });
    if (o.ex) violation("*", "release-failed", "releasing a block threw an exception");
    SIM_CHECK(os.st.mmaps == sn.mmaps && os_live_regions() == sn.regions, "C10,C12,C13", "release-maps", "releasing a block changed the memory map");
    pls[h.pool()].st.on_free(b.bytes);
    book.gone(p); btype.erase(p);
    check_pools("after a release");
  }
  std::vector<uintptr_t> owned(const H& h) { std::vector<uintptr_t> v; for (auto& kv : book.live) if (kv.second.owner == h.pool() && btype[kv.first] == h.h->type()) v.push_back(kv.first); return v; }
  void exec(const Step& s) {
    H &h = S(s.t), &u = S(s.u);
    OsSnap b; auto tb = touch_snap(); size_t rc = os.regions.size();
    switch (s.op) {
      case A_NEW: {
        destroy(h); check_pools("after destroying an allocator");
        b = OsSnap(); rc = os.regions.size(); tb = touch_snap();
        int id = nextid++;
        const bool dflt = s.u % 16 == 15;   // default arguments
        const bool asked = dflt || (s.c & 1);
        const size_t init = dflt ? (size_t)256 << 20 : (size_t)s.a, grow = dflt ? (size_t)64 << 20 : (size_t)s.b;
        Outcome2 o = pcall(s, id, [&] { h.h = by_type((int)(s.c / 2 % 4), [&](auto* t) -> AHandle* { using H = HugeH<std::remove_pointer_t<decltype(t)>>; return dflt ? new H() : new H(init, asked, grow); }); });
        SIM_CHECK(asked || os.st.mmap_huge == b.huge, "C11", "huge-unasked", "allocator creation requested huge pages although told not to");
        if (o.ex) { h.h = nullptr; failed(b, o, "allocator creation"); break; }
        h.pol = false; h.p[0] = id; born(id, asked, init, grow, "allocator creation");
        check_touch(rc, tb, "allocator creation");
        break;
      }
      case A_NEWPOL: {
        destroy(h); check_pools("after destroying an allocator");
        b = OsSnap(); rc = os.regions.size(); tb = touch_snap();
        int a = nextid++, c = nextid++;
        std::shared_ptr<fc::HugePagePool> pl, pi;
        Outcome2 o;
        if (s.u % 2 == 0) {
          // pools made by hand; the internal one may be borrowed from another policy
          o = pcall(s, a, [&] { pl = std::make_shared<fc::HugePagePool>((size_t)s.a, s.c & 1, (size_t)s.b); });
          bool lent = s.u % 4 == 0 && u.h && u.pol && &u != &h;
          if (!o.ex && lent) { pi = by_pool(u); c = u.p[1]; }
          else if (!o.ex) { Step q = s; q.fk = 0; o = pcall(q, c, [&] { pi = std::make_shared<fc::HugePagePool>((size_t)s.b, s.c & 1, (size_t)s.a); }); }
          if (!o.ex) { Step q; pcall(q, 0, [&] { h.h = by_type((int)(s.c / 2 % 4), [&](auto* t) -> AHandle* { return new PolH<std::remove_pointer_t<decltype(t)>>(fc::TwoPoolPolicy(pl, pi)); }); }); }
          { Sut sut; pl.reset(); pi.reset(); }
          if (o.ex) { h.h = nullptr; failed(b, o, "policy creation"); break; }
          h.pol = true; h.p[0] = a; h.p[1] = c;
          born(a, s.c & 1, (size_t)s.a, (size_t)s.b, "pool creation"); if (!pls.count(c)) born(c, s.c & 1, (size_t)s.b, (size_t)s.a, "pool creation");
        } else {
          // sizes that map different numbers of pages, so that the two regions can be told apart
          const size_t pg = 2u << 20, x = (size_t)s.a, y = (size_t)s.b + ((x + pg - 1) / pg == ((size_t)s.b + pg - 1) / pg ? pg : 0);
          const size_t lsz = s.u % 4 == 1 ? x : y, isz = s.u % 4 == 1 ? y : x;
          const bool dflt = s.t % 3 == 2;   // growth sizes and huge pages left to the defaults
          const bool asked = dflt || (s.c & 1);
          const size_t lgr = dflt ? (size_t)64 << 20 : isz, igr = dflt ? (size_t)64 << 20 : lsz;
          o = pcall(s, a, [&] { h.h = new PolH<std::pair<int64_t, AVal>>((dflt ? fc::make_two_pool_allocator<int64_t, AVal>(lsz, isz) : fc::make_two_pool_allocator<int64_t, AVal>(lsz, isz, asked, lgr, igr)).get_policy()); });
          SIM_CHECK(asked || os.st.mmap_huge == b.huge, "C11", "huge-unasked", "allocator creation requested huge pages although told not to");
          if (o.ex) { h.h = nullptr; failed(b, o, "two-pool allocator creation"); break; }
          std::vector<size_t> fresh;
          for (size_t i = rc; i < os.regions.size(); ++i) if (os.regions[i].live) fresh.push_back(i);
          if (fresh.size() != 2 || os.regions[fresh[0]].len == os.regions[fresh[1]].len) violation("*", "two-pool-regions", "creating a two-pool allocator with pools of %zu and %zu bytes mapped %zu regions, or two of the same size", lsz, isz, fresh.size());
          os.regions[fresh[(os.regions[fresh[0]].len > os.regions[fresh[1]].len) == (isz > lsz) ? 0 : 1]].tag = c;
          AHandle* v = h.h;
          Step none; pcall(none, 0, [&] { h.h = v->rebind((int)(s.c / 2 % 4)); delete v; });
          h.pol = true; h.p[0] = a; h.p[1] = c;
          born(a, asked, lsz, lgr, "pool creation"); born(c, asked, isz, igr, "pool creation");
        }
        check_touch(rc, tb, "policy creation");
        break;
      }
      case A_COPY: {
        if (!u.h || &u == &h) break;
        destroy(h);
        Outcome2 o = pcall(s, 0, [&] { h.h = u.h->copy(); });
        if (o.ex) violation("*", "copy-failed", "copying an allocator threw an exception");
        SIM_CHECK(os.st.mmaps == b.mmaps, "C13,C10", "copy-maps", "copying an allocator asked the system for memory");
        h.pol = u.pol; h.p[0] = u.p[0]; h.p[1] = u.p[1];
        break;
      }
      case A_REBIND: {
        if (!u.h || &u == &h) break;
        destroy(h); check_pools("after destroying an allocator");
        b = OsSnap(); rc = os.regions.size(); tb = touch_snap();
        int t = (int)(s.a % 4), id = nextid++;
        bool fresh = !u.pol && t != u.h->type();
        Outcome2 o = pcall(s, id, [&] { h.h = u.h->rebind(t); });
        if (o.ex) { h.h = nullptr; failed(b, o, "rebinding an allocator"); break; }
        h.pol = u.pol; h.p[0] = u.p[0]; h.p[1] = u.p[1];
        if (fresh) { h.p[0] = id; born(id, pls[u.p[0]].asked, pls[u.p[0]].init, pls[u.p[0]].cr.grow, "rebinding"); SIM_CHECK(pls[u.p[0]].asked || os.st.mmap_huge == b.huge, "C11", "huge-unasked", "rebinding requested huge pages although none were asked for"); check_touch(rc, tb, "rebinding"); }
        else SIM_CHECK(os.st.mmaps == b.mmaps, "C13,C16", "copy-maps", "rebinding a policy allocator asked the system for memory");
        break;
      }
      case A_ASSIGN: {
        if (!u.h || !h.h || u.pol != h.pol || u.h->type() != h.h->type()) break;
        bool done = false;
        Outcome2 o = pcall(s, 0, [&] { done = h.h->assign(u.h, s.a & 1); });
        if (o.ex || !done) violation("*", "copy-failed", "assigning an allocator failed");
        h.p[0] = u.p[0]; h.p[1] = u.p[1];
        break;
      }
      case A_DESTROY: destroy(h); break;
      case A_ALLOC: if (h.h) alloc(s, h); break;
      case A_BURST: if (h.h) for (int64_t i = 0; i < s.a; ++i) { Step one = s; if (i + 1 < s.a) one.fk = 0; if (!alloc(one, h)) break; } break;
      case A_ALLOCN: if (h.h) {
        void* p = nullptr;
        size_t rem0 = h.h->remaining();
        Outcome2 o = pcall(s, h.pool(), [&] { p = h.h->alloc((size_t)s.a); });
        if (s.a == 0) { if (o.ex || p) violation("*", "zero-size-block", "a request for no objects returned a block or failed"); }
        else if (!o.ex) violation("*", "short-block", "a request for %lld objects, which the allocator does not support, succeeded", (long long)s.a);
        SIM_CHECK(h.h->remaining() == rem0 && os.st.mmaps == b.mmaps, "C10,C15", "failure-changed-state", "an unsupported request changed the pool");
        if (s.a == 0 || s.u % 2) {  // giving back no block changes nothing
          size_t before = h.h->remaining();
          o = pcall(Step(), h.pool(), [&] { h.h->dealloc(nullptr, s.u % 4 < 2 ? 1 : 0); });
          if (o.ex) violation("*", "release-failed", "giving back a null pointer threw an exception");
          SIM_CHECK(h.h->remaining() == before, "C10,C12", "null-release", "giving back a null pointer changed bytes_remaining");
        }
        break;
      } break;
      case A_FREE: if (h.h) { auto v = owned(h); if (!v.empty()) release(h, v[(size_t)s.a % v.size()]); } break;
      case A_CHURN: if (h.h) {
        auto v = owned(h); Rng r((uint64_t)s.a); size_t n = 0;
        for (int64_t i = 0; i < s.b && !v.empty(); ++i, ++n) { size_t k = r.below(v.size()); release(h, v[k]); v.erase(v.begin() + (long)k); }
        size_t mapped = tag_regions(h.pool()).bytes; Step none;
        while (n--) alloc(none, h);
        SIM_CHECK(tag_regions(h.pool()).bytes == mapped, "C12", "footprint-grows", "re-requesting the blocks just given back grew the pool");
      } break;
      case A_POOLPTR: {  // the user takes or drops a pool pointer
        if (s.a % 2 == 0 && h.h && h.pol) { auto p = leaf_ptr(h); if (p) ptrs.push_back({p, h.p[0]}); }
        else if (!ptrs.empty()) { size_t k = (size_t)s.u % ptrs.size(); Sut sut; ptrs[k].first.reset(); NoSut ns; ptrs.erase(ptrs.begin() + (long)k); }
        break;
      }
      case A_ENV:
        os.reg_free = s.a >= 0 ? s.a * 4096 : (int64_t)1 << 40;
        os.huge_free = s.b >= 0 ? s.b : 1 << 20;
        break;
      case A_NODE: os.cur_node = (int)s.a; break;
      default: break;
    }
    check_pools("after the step");
  }
  template <class T> static std::shared_ptr<fc::HugePagePool> pick(AHandle* h, bool internal) { auto* x = dynamic_cast<PolH<T>*>(h); if (!x) return nullptr; return internal ? x->a.get_policy().internal_pool_ : x->a.get_policy().leaf_pool_; }
  static std::shared_ptr<fc::HugePagePool> any(AHandle* h, bool internal) {
    if (auto p = pick<ALeaf>(h, internal)) return p;
    if (auto p = pick<AInternal>(h, internal)) return p;
    if (auto p = pick<AVal>(h, internal)) return p;
    return pick<AWide>(h, internal);
  }
  static std::shared_ptr<fc::HugePagePool> by_pool(H& u) { return any(u.h, true); }
  static std::shared_ptr<fc::HugePagePool> leaf_ptr(H& u) { return any(u.h, false); }
  static void run(const World&, const Plan& p) {
    AllocWorld w;
    os.placement = (int)p.get("placement", 0); os.advise_fail = (int)p.get("advfail", 0); os.touch = (int)p.get("touch", 0);
    w.hs.resize((size_t)p.get("slots", 2));
    int idx = 0;
    for (const Step& s : p.steps) {
      set_step(idx++, &s);
      ev((uint64_t)s.op * 999961 + (uint64_t)s.t);
      w.exec(s);
      if (idx % 8 == 0) w.book.verify_all("periodic check");
      uint64_t hh = w.book.live.size();
      for (auto& h : w.hs) hh = mix64(hh ^ (h.h ? 1 + (uint64_t)h.pool() : 0));
      state(hh * 16 + (uint64_t)s.op);
    }
    set_step(idx, nullptr);
    os.reg_free = (int64_t)1 << 40; os.huge_free = 1 << 20;
    Step none;
    for (auto& h : w.hs) if (h.h) if (!w.alloc(none, h)) violation("*", "no-recovery", "allocation fails although memory is granted again");
    w.book.verify_all("final check");
    for (auto& h : w.hs) { w.destroy(h); w.check_pools("during final destruction"); }
    { Sut sut; for (auto& x : w.ptrs) x.first.reset(); }
    w.ptrs.clear();
    w.check_pools("after final destruction");
  }
};
} }  // namespace sim
