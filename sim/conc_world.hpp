// ConcWorld: simulated threads.  C07: several readers of one tree.  C08:
// several threads, each with trees, pools, allocators and maps of its own.
#pragma once
#include "conc.hpp"
#include "dense_world.hpp"
#include "pool_world.hpp"
#include "tree_world.hpp"

namespace sim { inline namespace SIM_NS {
enum ConcOp { R_FIND = T_OPCOUNT, R_BOUNDS, R_AT, R_ITER, R_RITER, R_WALK, R_SIZE, R_COPY, R_DREAD, R_PREAD, R_POOL, R_DENSE, R_SW, R_COUNT };
inline const std::vector<const char*>& conc_ops() {
  static const std::vector<const char*> v = [] { std::vector<const char*> o = kTreeOps; for (auto x : {"r_find", "r_bounds", "r_at", "r_iter", "r_riter", "r_walk", "r_size", "r_copy", "r_dread", "r_pread", "pool_ops", "dense_ops", "sw"}) o.push_back(x); return o; }();
  return v;
}
constexpr int64_t kThread = 16;   // Step::t = slot + kThread * thread

inline void gen_sched(Rng& r, Plan& p) {
  static const int64_t means[] = {2, 5, 12, 30, 80, 200, 600, 2000, 8000};
  p.set("tail", means[r.below(9)]);
  p.set("tailseed", (int64_t)r.below(1000000000));
}
// what every thread does
inline Sched sched_of(const Plan& p) {
  Sched s;
  for (auto& st : p.steps) if (st.op == R_SW) s.sw.push_back({st.a, (int)(st.t % kThread)});
  s.tail = p.get("tail", 0); s.tailseed = (uint64_t)p.get("tailseed", 1);
  return s;
}
inline void conc_probes(const ConcResult& r) {
  probe("accesses", r.accesses); probe("switches", r.switches); probe("blocked_on_lock", r.blocked); probe("atomic_accesses", r.atomics);
}

// one thread's private array maps
template <class C> struct DenseScript {
  using W = DenseWorld<DenseCfg<typename C::KP, typename C::VP, C::M, 13, 40, 8>>;
  W w;
  explicit DenseScript(const Plan& p, int id) : w(p) { w.nextv = (uint64_t)id << 40; }
  void op(const Step& sp) {
    Rng r((uint64_t)sp.c);
    for (int j = 0; j < 5; ++j) {
      Step s; s.op = j == 0 && r.chance(1, 2) ? (int)D_FILL : (int)r.below(D_COUNT);
      s.t = (int64_t)r.below(W::NS); s.u = (int64_t)r.below(W::NS);
      s.a = s.op == D_PREFIX || s.op == D_SUFFIX ? (r.chance(1, 6) ? 100000 + (int64_t)r.below(40) : (int64_t)r.below(41)) : (int64_t)r.below(1000);
      s.b = s.op == D_FILL || s.op == D_DRAIN ? r.range(1, 20) : (int64_t)r.below(1000); s.c = s.op == D_FILL || s.op == D_DRAIN ? r.range(1, 3) : (int64_t)r.below(1000);
      if (j == 0) { s.fk = sp.fk; s.fn = sp.fn; s.fp = sp.fp; }
      w.exec(s, s.t, s.u);
      w.check(s.t, "after the step"); w.check(s.u, "after the step");
      w.lookups(s.t, s.a, "lookup after the step");
    }
  }
  // read-only: concurrent readers share the maps
  void read(const Step& sp) {
    int64_t i = sp.c % W::NS;
    switch (sp.c / 7 % 3) {
      case 0: w.check(i, "concurrent reading"); break;
      case 1: w.lookup(i, w.K(sp.a), "concurrent lookup"); break;
      default: for (int64_t d = -1; d < 2; ++d) w.lookup(i, w.K(sp.a + d), "concurrent lookup");
    }
  }
  void finish() { for (int64_t j = 0; j < W::NS; ++j) { w.check(j, "final check"); w.destroy(j); } }
};

// what the pools behind a tree report
template <class P> inline void pool_numbers(const P& hp, std::vector<uint64_t>& o) {   // called as code under test
  uint64_t x[10] = {(uint64_t)hp.bytes_remaining(), (uint64_t)hp.using_hugepages(), (uint64_t)hp.initial_size(), (uint64_t)hp.growth_size()};
  if constexpr (kStats) { x[4] = hp.get_allocations(); x[5] = hp.get_deallocations(); x[6] = hp.get_growth_events(); x[7] = hp.get_bytes_allocated(); x[8] = hp.get_current_usage(); x[9] = hp.get_peak_usage(); }
  NoSut ns;
  o.insert(o.end(), x, x + 10);
}
template <class C> struct ReaderWorld {
  using Set = TreeSet<C>;
  static void gen(const World&, Rng& r, const std::string&, bool, int size, Plan& p) {
    using S = Set;
    int64_t L = (int64_t)S::L;
    int64_t keys = std::min<int64_t>(C::KP::max_keys(), r.chance(1, 2) ? r.range(4, 60) : r.range(60, L >= 32 ? 1500 : 400));
    p.set("keys", keys); p.set("keymode", (int64_t)r.below(5)); p.set("slots", 2); p.set("doms", 1);
    p.set("init0", 65536); p.set("grow0", 65536);
    int n = (int)r.range(2, 4);
    p.set("threads", n);
    gen_sched(r, p);
    // build
    int nb = r.chance(1, 12) ? 0 : (int)r.range(1, 4);
    for (int i = 0; i < nb; ++i) {
      Step s; s.op = T_FILL; s.a = r.range(0, keys - 1); s.b = r.range(1, keys); s.c = r.chance(1, 2) ? 1 : r.range(2, 7);
      p.steps.push_back(s);
      if (r.chance(1, 2)) { Step d; d.op = T_DRAIN; d.a = r.range(0, keys - 1); d.b = r.range(1, std::max<int64_t>(1, keys / 3)); d.c = r.chance(1, 2) ? 1 : 3; p.steps.push_back(d); }
      if (r.chance(1, 3)) {   // the tree may also have been copied, moved into, cleared, thinned out, ...
        static const int ops[] = {T_COPY, T_MOVE, T_SWAP, T_CLEAR, T_ERASE_RANGE, T_ERASE_IF, T_COPY_ASSIGN, T_MOVE_ASSIGN, T_INDEX_SET, T_ERASE};
        Step d; d.op = ops[r.below(10)]; d.t = (int64_t)r.below(2); d.u = 1 - d.t; d.a = r.range(0, keys - 1); d.b = r.range(1, 60); d.c = (int64_t)r.below(100000);
        p.steps.push_back(d);
      }
    }
    std::vector<int> w = {10, 8, 4, 3, 3, 5, 2, C::Doms::pools ? 0 : 2, 6, C::Doms::pools ? 4 : 0};
    p.set("dseed", (int64_t)r.below(1000000)); p.set("dops", r.chance(1, 10) ? 0 : r.range(1, 4));
    for (auto& x : w) if (r.chance(1, 4)) x = 0;
    if (r.chance(1, 3)) w[0] += 10;
    bool any = false; for (auto x : w) any |= x > 0;
    if (!any) w[0] = 1;
    int64_t hot = r.range(0, keys - 1);
    int per = (int)r.range(3, 14 * size);
    for (int t = 0; t < n; ++t)
      for (int i = 0; i < per; ++i) {
        Step s; s.op = R_FIND + r.weighted(w); s.t = t * kThread;
        s.a = r.chance(1, 2) ? hot + r.range(-2, 2) : r.range(0, keys - 1); s.c = (int64_t)r.below(100000);
        p.steps.push_back(s);
      }
  }
  static void read(Set& set, const Step& st) {
    auto& s = set.S(0);
    auto& t = *s.t; const auto& ct = t;
    using KP = typename C::KP;
    int64_t kid = set.K(st.a), rk = KP::rank(kid);
    auto end = s.m.m.end();
    auto f = s.m.m.find(rk), lb = s.m.m.lower_bound(rk), ub = s.m.m.upper_bound(rk);
    auto k = KP::make(kid);
    auto same = [&](auto it, decltype(f) m, const char* op) {
      bool e; { Sut sut; e = it == t.end(); }
      if (e != (m == end)) violation("*", "wrong-lookup", "%s(#%lld) %s", op, (long long)kid, e ? "reports end although an element qualifies" : "reports an element although none qualifies");
      if (!e) { Sut sut; set.check_elem(s, m->second, it->first, it->second, op); }
    };
    auto sut = [](auto&& fn) { Sut x; return fn(); };
    switch (st.op) {
      case R_FIND:
        same(sut([&] { return ct.find(k); }), f, "const find");
        same(sut([&] { return t.find(k); }), f, "find");
        if (sut([&] { return ct.contains(k); }) != (f != end) || sut([&] { return ct.count(k); }) != (f != end ? 1u : 0u)) violation("*", "wrong-lookup", "contains/count(#%lld) disagree with the contents", (long long)kid);
        break;
      case R_BOUNDS: {
        auto go = [&](auto& x) {
          same(sut([&] { return x.lower_bound(k); }), lb, "lower_bound");
          same(sut([&] { return x.upper_bound(k); }), ub, "upper_bound");
          auto er = sut([&] { return x.equal_range(k); });
          same(er.first, lb, "equal_range.first"); same(er.second, ub, "equal_range.second");
        };
        go(t);
        break;
      }
      case R_AT: {
        int thrown = 0; const typename Set::Value* v = nullptr;
        { Sut x; try { v = &ct.at(k); } catch (const std::out_of_range&) { thrown = 1; } try { if (&t.at(k) != v) thrown = 4; } catch (const std::out_of_range&) { thrown |= 2; } }
        if (thrown != (f == end ? 3 : 0)) violation("*", "wrong-lookup", "at(#%lld) is wrong", (long long)kid);
        if (v) { Sut x; if (C::VP::id(*v) != f->second.vid || !C::VP::ok(*v)) violation("*", "wrong-value", "at(#%lld) yields a wrong value", (long long)kid); }
        break;
      }
      case R_ITER: {
        auto go = [&](auto b, auto last) {
          auto m = s.m.m.begin();
          auto it = sut(b);
          size_t n = 0, cap = (size_t)(st.c % 3 == 0 ? 100000 : 40);
          for (;; ++m) {
            bool e = sut([&] { return it == last(); });
            if (e != (m == end)) violation("*", "wrong-iteration", "forward iteration yields %s elements", e ? "too few" : "too many");
            if (e || ++n > cap) break;
            { Sut x; set.check_elem(s, m->second, it->first, it->second, "forward iteration"); if (n & 1) ++it; else it++; }
          }
        };
        switch (st.c / 3 % 3) {
          case 0: go([&] { return ct.begin(); }, [&] { return ct.end(); }); break;
          case 1: go([&] { return t.begin(); }, [&] { return t.end(); }); break;
          default: go([&] { return ct.cbegin(); }, [&] { return ct.cend(); });
        }
        break;
      }
      case R_RITER: {
        auto go = [&](auto b, auto last) {
          auto m = s.m.m.rbegin();
          auto it = sut(b);
          size_t n = 0, cap = (size_t)(st.c % 3 == 0 ? 100000 : 40);
          for (;; ++m) {
            bool e = sut([&] { return it == last(); });
            if (e != (m == s.m.m.rend())) violation("*", "wrong-iteration", "reverse iteration yields %s elements", e ? "too few" : "too many");
            if (e || ++n > cap) break;
            { Sut x; set.check_elem(s, m->second, it->first, it->second, "reverse iteration"); if (n & 1) ++it; else it++; }
          }
        };
        switch (st.c / 3 % 3) {
          case 0: go([&] { return ct.rbegin(); }, [&] { return ct.rend(); }); break;
          case 1: go([&] { return t.rbegin(); }, [&] { return t.rend(); }); break;
          default: go([&] { return ct.crbegin(); }, [&] { return ct.crend(); });
        }
        break;
      }
      case R_WALK: {
        auto m = lb; auto it = sut([&] { return t.lower_bound(k); });
        Rng r((uint64_t)st.c);
        for (int j = 0; j < 16; ++j) {
          if (r.chance(1, 2)) { if (m == end) continue; ++m; Sut x; ++it; }
          else { if (m == s.m.m.begin()) continue; --m; Sut x; --it; }
          same(it, m, "walk");
        }
        break;
      }
      case R_SIZE: {
        Sut x;
        size_t n = s.m.m.size();
        if (ct.size() != n || ct.empty() != (n == 0)) violation("*", "wrong-size", "size() is %zu, expected %zu", ct.size(), n);
        if ((ct.begin() == ct.end()) != (n == 0)) violation("*", "wrong-iteration", "begin()/end() wrong");
        (void)ct.key_comp(); (void)ct.value_comp(); (void)ct.get_allocator();
        break;
      }
      case R_COPY: if constexpr (!C::Doms::pools) {   // copying reads the source only; pools would be shared by the copies
        if (s.m.m.size() > 400) break;
        probe("copied_shared");
        Sut x;
        typename Set::Tree copy(ct);
        if (copy.size() != s.m.m.size()) violation("*", "wrong-copy", "a copy of the shared tree has %zu elements, expected %zu", (size_t)copy.size(), s.m.m.size());
        auto it = copy.begin();
        for (auto m = s.m.m.begin(); m != end; ++m, ++it) {
          if (it == copy.end()) violation("*", "wrong-copy", "a copy of the shared tree ends too early");
          if (KP::kid(it->first) != m->second.kid || C::VP::id(it->second) != m->second.vid || !C::VP::ok(it->second)) violation("*", "wrong-copy", "a copy of the shared tree holds a wrong element");
        }
      }
        break;
      default: break;
    }
  }
  static std::vector<uint64_t> pool_report(Set& set) {
    std::vector<uint64_t> o;
    if constexpr (C::Doms::kind == AK_MULTI) {
      if (!set.doms.d[0]) return o;
      const auto& cp = *set.doms.d[0];   // no copy of the handle: its counter would order the threads
      Sut sut;
      uint64_t x[3] = {(uint64_t)cp.using_hugepages(), (uint64_t)cp.active_size_classes(), (uint64_t)cp.get_pools().size()};
      { NoSut ns; o.assign(x, x + 3); }
      for (size_t c = 64; c <= 8192; c = c < 512 ? c + 64 : c < 2048 ? c + 256 : c * 2) if (auto hp = cp.get_pool(c)) pool_numbers(*hp, o);
    } else if constexpr (C::Doms::kind == AK_POL) {
      for (auto* hp : {set.doms.d[0].leaf.get(), set.doms.d[0].internal.get()}) if (hp) { Sut sut; pool_numbers(*hp, o); }
    }
    return o;
  }
  static void run(const World&, const Plan& p) {
    typename C::Doms* doms;
    { Sut sut; doms = new (std::malloc(sizeof(typename C::Doms))) typename C::Doms(p, 1); }
    {
      Set set(*doms, p, 2, 1);
      int n = (int)std::max<int64_t>(2, std::min<int64_t>(6, p.get("threads", 2)));
      int idx = 0;
      for (const Step& st : p.steps) { if (st.op < T_OPCOUNT) { set_step(idx, &st); set.exec(st, st.t % 2, st.u % 2); } ++idx; }
      set.need(0, 0);
      DenseScript<C> dense(p, 7);
      for (int64_t j = 0, dn = p.get("dops", 0); j < dn; ++j) { Step st; st.op = R_DENSE; st.c = p.get("dseed", 0) * 5 + j; dense.op(st); }
      std::vector<std::pair<void*, size_t>> extra;   // size classes besides those of the nodes
      if constexpr (C::Doms::kind == AK_MULTI) if (doms->d[0]) for (int64_t j = 0, x = p.get("dseed", 0); j < p.get("dops", 0); ++j) {
        size_t n = 1 + (size_t)(mix64((uint64_t)(x + j)) % 2500);
        void* q; { Sut sut; q = doms->d[0]->allocate(n, 8); }
        extra.push_back({q, n});
      }
      const std::vector<uint64_t> reports = pool_report(set);
      Sched sc = sched_of(p);
      ConcResult r = conc_run(n, sc, [&](int id) {
        int i = 0;
        for (const Step& st : p.steps) {
          if (st.op >= R_FIND && st.op <= R_PREAD && st.t / kThread % n == id) { set_step(i, &st); if (st.op == R_DREAD) dense.read(st); else if (st.op == R_PREAD) { if (pool_report(set) != reports) violation("*", "report-changed", "a pool reports something else although nothing was requested or released"); } else read(set, st); }
          ++i;
        }
      });
      conc_probes(r);
      set_step(idx, nullptr);
      set.check_full(0, "after concurrent readers"); set.check_lookup(0, 3, "after concurrent readers");
      if constexpr (C::Doms::kind == AK_MULTI) for (auto& e : extra) { Sut sut; doms->d[0]->deallocate(e.first, e.second); }
      dense.finish();
      set.destroy(0); set.destroy(1);
    }
    { Sut sut; std::destroy_at(doms); }
    std::free((void*)doms);
  }
};

// one thread's private pool blocks
struct PoolScript {
  struct B { unsigned char* p; size_t n; uint64_t pat; };
  std::vector<B> live;
  fc::HugePagePool* hp = nullptr;
  fc::MultiSizeHugePagePool* mp = nullptr;
  PStats st;
  bool huge = false;
  size_t rem = 0;
  int id;
  explicit PoolScript(int i) : id(i) {}
  static unsigned char pat(uint64_t x, size_t i) { return (unsigned char)(mix64(x + i / 8) >> (8 * (i % 8))); }
  void check(const B& b, const char* where) {
    Sut sut;
    for (size_t i = 0; i < b.n; i += i % 64 == 0 ? 7 : 57) if (b.p[i] != pat(b.pat, i)) violation("*", "block-overwritten", "%s: a live block of thread %d was overwritten", where, id);
  }
  // what the pool reports depends on this thread's own requests only
  void report(const char* where) {
    Sut sut;
    if (!hp) return;
    if (hp->using_hugepages() != huge) violation("*", "report-changed", "%s: the pool of thread %d reports using_hugepages()=%d, at its creation it was %d", where, id, (int)hp->using_hugepages(), (int)huge);
    if (hp->bytes_remaining() != rem) violation("*", "report-changed", "%s: the pool of thread %d reports %zu bytes remaining, %zu after its last request", where, id, (size_t)hp->bytes_remaining(), rem);
    if constexpr (kStats) {
      if (hp->get_allocations() != st.al || hp->get_deallocations() != st.de || hp->get_bytes_allocated() != st.bytes || hp->get_current_usage() != st.cur || hp->get_peak_usage() != st.peak)
        violation("*", "report-changed", "%s: the statistics of the pool of thread %d are not those of its own requests", where, id);
    }
  }
  void release(const B& b) {
    check(b, "before release");
    Sut sut;
    if (multi_of(b)) mp->deallocate(b.p, b.n); else { hp->deallocate(b.p, b.n); st.on_free(b.n); rem = hp->bytes_remaining(); }
  }
  void drop(bool multi) {
    for (size_t k = 0; k < live.size();) if (multi_of(live[k]) == multi) { B b = live[k]; live[k] = live.back(); live.pop_back(); release(b); } else ++k;
    Sut sut;
    if (multi) { delete mp; mp = nullptr; } else { delete hp; hp = nullptr; }
  }
  void op(const Step& sp) {
    Rng r((uint64_t)sp.c);
    int n = (int)(sp.a % 12) + 1;
    bool multi = sp.b % 2;
    if (r.chance(1, 8)) drop(multi);
    for (int j = 0; j < n; ++j) {
      report("before an operation");
      if (!live.empty() && r.chance(2, 5)) {
        size_t k = r.below(live.size());
        B b = live[k]; live[k] = live.back(); live.pop_back();
        release(b);
        continue;
      }
      uint64_t refused0 = os.st.refused;
      Step one = sp; if (j) one.fk = 0;
      arm(one);
      size_t sz = multi ? 1 + r.below(3000) : 64 * (1 + r.below(6)), al = (size_t)8 << (r.chance(1, 6) ? r.below(10) : r.below(4));
      bool impossible = r.chance(1, 40), want = r.chance(1, 2);
      if (impossible) sz = SIZE_MAX - r.below(200);
      size_t init = 4096 * (1 + r.below(3)), grow = r.chance(1, 2) ? 8192 : 1 + r.below(9000);
      void* p = nullptr; bool threw = false;
      {
        Sut sut;
        try {
          if (multi) { if (!mp) mp = new fc::MultiSizeHugePagePool(init, want, grow); p = mp->allocate(sz, al); }
          else { if (!hp) { hp = new fc::HugePagePool(init, want, grow); st = PStats(); huge = hp->using_hugepages(); } p = hp->allocate(sz, al); st.on_alloc(sz); }
        } catch (const std::bad_alloc&) { threw = true; }
        if (hp) rem = hp->bytes_remaining();
      }
      bool fired = g.ffired;
      disarm();
      if (threw) { if (!fired && !impossible && os.st.refused == refused0) violation("*", "unexpected-exception", "a pool threw std::bad_alloc although memory was available"); probe("pool_oom"); report("after a failed request"); continue; }
      if (impossible) violation("*", "impossible-served", "a request for %zu bytes succeeded", sz);
      if (!os_inside(p, sz) || (uintptr_t)p % al) violation("*", "bad-block", "thread %d got a block outside mapped memory or misaligned", id);
      B b{(unsigned char*)p, sz, r.next() | (multi ? 1u : 0u)};
      if (!multi) b.pat &= ~1ULL;
      { Sut sut; for (size_t i = 0; i < sz; ++i) b.p[i] = pat(b.pat, i); }
      live.push_back(b);
    }
  }
  static bool multi_of(const B& b) { return b.pat & 1; }
  void finish() { drop(false); drop(true); }
};
template <class C> struct PrivateWorld {
  using Set = TreeSet<C>;
  struct Th { typename C::Doms* doms; Set* set; PoolScript pool; DenseScript<C> dense; };
  static void gen(const World&, Rng& r, const std::string& prop, bool faults, int size, Plan& p) {
    TreeInfo ti;
    ti.ak = C::Doms::kind; ti.vthrow = C::VP::throwing; ti.kthrow = C::KP::throwing; ti.vtracked = false; ti.strs = std::is_same_v<typename C::KP::Key, std::string>;
    ti.maxkeys = std::min<int64_t>(C::KP::max_keys(), 160); ti.L = (int)Set::L; ti.I = (int)Set::I;
    ti.leaf_bytes = node_bytes<typename Set::Tree>(true); ti.internal_bytes = node_bytes<typename Set::Tree>(false); ti.stable_rank = true;
    int n = (int)r.range(2, 4);
    std::vector<std::vector<Step>> per((size_t)n);
    int limit = (int)r.range(3, 10 * size);
    for (int t = 0; t < n; ++t) {
      Plan q;
      gen_tree(ti, r, prop, faults, 1, q);
      if (t == 0) p.params = q.params;
      int c = 0;
      for (Step s : q.steps) {
        if (s.op == T_ENV) continue;
        if (++c > limit) break;
        if (s.op == T_FILL || s.op == T_DRAIN) s.b = std::min<int64_t>(s.b, 60);
        s.t = s.t % kThread + t * kThread;
        per[(size_t)t].push_back(s);
        if (r.chance(1, 4)) { Step x; x.op = r.chance(2, 3) ? R_POOL : R_DENSE; x.t = t * kThread; x.a = (int64_t)r.below(1000); x.b = (int64_t)r.below(2); x.c = (int64_t)r.below(1000000); if (faults && x.op == R_POOL && r.chance(1, 3)) { x.fk = r.chance(1, 3) ? F_MMAP : r.chance(1, 2) ? F_HUGE : F_HEAP; x.fn = 1; } per[(size_t)t].push_back(x); }
      }
    }
    p.set("threads", n); p.set("lookup", 0);
    // in some runs every thread hands what it owns over to another one half-way
    p.set("hand", r.chance(1, 3) ? r.range(1, n - 1) : 0);
    for (auto& v : per) for (auto& s : v) p.steps.push_back(s);
    gen_sched(r, p);
  }
  static void run(const World&, const Plan& p) {
    int n = (int)std::max<int64_t>(2, std::min<int64_t>(6, p.get("threads", 2)));
    int nd = (int)p.get("doms", 2), ns = (int)p.get("slots", 2);
    os.placement = (int)p.get("placement", 0);
    os.advise_fail = (int)p.get("advfail", 0);
    std::vector<Th*> th;
    for (int i = 0; i < n; ++i) {
      auto* d = new (std::malloc(sizeof(typename C::Doms))) typename C::Doms(p, nd);
      th.push_back(new Th{d, new Set(*d, p, ns, nd), PoolScript(i), DenseScript<C>(p, i)});
      th.back()->set->nextv = (uint64_t)i << 32;
    }
    Sched sc = sched_of(p);
    const int hand = (int)(p.get("hand", 0) % n);
    std::vector<int> count((size_t)n, 0);
    for (const Step& st : p.steps) if (st.op != R_SW) ++count[(size_t)(st.t / kThread % n)];
    ConcResult r = conc_run(n, sc, [&](int self) {
      int id = self;   // whose containers this thread works on
      auto part = [&](int lo, int hi) {
        Th& t = *th[(size_t)id];
        int i = 0, k = 0;
        for (const Step& st : p.steps) {
          if (st.op != R_SW && st.t / kThread % n == id) {
            if (k >= lo && k < hi) {
              set_step(i, &st);
              if (st.op < T_OPCOUNT) t.set->exec(st, st.t % kThread % ns, st.u % ns);
              else if (st.op == R_POOL) t.pool.op(st);
              else if (st.op == R_DENSE) t.dense.op(st);
            }
            ++k;
          }
          ++i;
        }
      };
      if (hand) {
        part(0, count[(size_t)id] / 2);
        conc_barrier();
        id = (self + hand) % n;
        probe("handed_over");
        part(count[(size_t)id] / 2, count[(size_t)id]);
      } else part(0, count[(size_t)id]);
      Th& t = *th[(size_t)id];
      for (int64_t j = 0; j < ns; ++j) { t.set->check_full(j, "final check"); t.set->check_lookup(j, 7, "final lookup"); t.set->destroy(j); }
      t.pool.finish();
      t.dense.finish();
      Sut sut;
      std::destroy_at(t.doms);
    });
    conc_probes(r);
    for (auto* t : th) { delete t->set; std::free((void*)t->doms); delete t; }
    set_step((int)p.steps.size(), nullptr);
  }
};
inline int w_c07(const std::string& p) { return p == "C07" ? 1 : 0; }
inline int w_c08(const std::string& p) { return p == "C08" ? 1 : 0; }
template <template <class> class W, class C> inline void conc_reg(const char* wname, const char* name, int (*wf)(const std::string&)) { worlds().push_back(World{wname, name, conc_ops(), &W<C>::gen, &W<C>::run, wf}); }
#define READER_CONFIG(ID, NAME, ...) static void reg_##ID() { using C_ = __VA_ARGS__; ::sim::conc_reg<::sim::ReaderWorld, C_>("readers", NAME SIM_SUF, ::sim::w_c07); } static ::sim::LazyReg lazy_##ID(&reg_##ID);
#define PRIVATE_CONFIG(ID, NAME, ...) static void reg_##ID() { using C_ = __VA_ARGS__; ::sim::conc_reg<::sim::PrivateWorld, C_>("private", NAME SIM_SUF, ::sim::w_c08); } static ::sim::LazyReg lazy_##ID(&reg_##ID);
} }  // namespace sim
