// CostWorld: one large tree whose operations are timed with the simulated step
// clock (basic blocks executed), after histories that try to unbalance it.
#pragma once
#include "tree_world.hpp"

namespace sim { inline namespace SIM_NS {
enum CostOp { K_FILL, K_DRAIN, K_FIND, K_BOUND, K_INSERT, K_ERASE, K_ERASE_IT, K_ENDS, K_MOVE, K_SWAP, K_RANGE, K_MISS, K_STEP, K_QUEUE, K_SETS, K_COPY, K_COUNT };
inline const std::vector<const char*>& cost_ops() {
  static const std::vector<const char*> v = {"fill", "drain", "find", "bound", "insert", "erase", "erase_it", "ends", "move", "swap", "erase_range", "miss", "iterate", "queue", "update", "copy"};
  return v;
}
template <class C> struct CostWorld {
  using S = TreeSet<C>; using KP = typename C::KP; using VP = typename C::VP;
  using Tree = typename S::Tree; using Key = typename S::Key;
  static constexpr uint64_t L = S::L, I = S::I;
  static void gen(const World&, Rng& r, const std::string&, bool, int, Plan& p) {
    int64_t keys = r.chance(1, 4) ? r.range(200, 2000) : r.chance(1, 2) ? r.range(2000, 12000) : (r.chance(1, 12) ? r.range(66000, 140000) : r.chance(1, 3) ? r.range(30000, 60000) : r.range(12000, 30000));
    keys = std::min<int64_t>(keys, KP::max_keys());
    p.set("keys", keys); p.set("keymode", (int64_t)r.below(2));
    int n = (int)r.range(2, 7);
    for (int i = 0; i < n; ++i) {
      Step s;
      s.op = i == 0 || r.chance(1, 2) ? (int)K_FILL : (int)K_DRAIN;
      s.a = r.range(0, keys - 1);
      s.b = i == 0 ? r.range(keys / 2, keys) : r.range(1, keys);
      static const int64_t st[] = {1, -1, 1, 2, 3, 7, -5, 97, 1009};
      s.c = st[r.below(9)];
      p.steps.push_back(s);
      int m = (int)r.range(4, 24);
      std::vector<int> w = {0, 0, 6, 4, 6, 6, 5, 1, 1, 1, 2, 3, 3, 2, 6, 1};
      for (int j = 0; j < m; ++j) {
        Step q; q.op = r.weighted(w); q.a = r.range(0, keys - 1); q.b = q.op == K_RANGE && r.chance(1, 4) ? r.range(40, keys / 2) : (int64_t)r.below(40); q.c = (int64_t)r.below(1000);
        if (r.chance(1, 6)) q.a = r.chance(1, 2) ? 0 : keys - 1;
        p.steps.push_back(q);
      }
    }
  }
  // the deepest legal tree of n elements: nodes at least three eighths full
  static uint64_t levels(uint64_t n) {
    const uint64_t ml = std::max<uint64_t>(2, (L + 1) / 2 - ((L + 1) / 2) / 4), mi = std::max<uint64_t>(2, (I + 1) / 2 - ((I + 1) / 2) / 4);
    uint64_t lv = 1;
    for (uint64_t k = n / ml; k > 1; k /= mi) ++lv;
    return lv + 1;
  }
  // about three (updates) to five (lookups) times what the pinned commit needs
  static uint64_t update_bound(uint64_t n) { return 400 + levels(n) * (100 + 16 * (L + I)); }
  static uint64_t lookup_bound(uint64_t n) { return 100 + levels(n) * (20 + 3 * (L + I)); }
  // the end of a whole tree: so much per node
  static uint64_t whole_bound(uint64_t n) {
    const uint64_t ml = std::max<uint64_t>(2, (L + 1) / 2 - ((L + 1) / 2) / 4), mi = std::max<uint64_t>(2, (I + 1) / 2 - ((I + 1) / 2) / 4);
    uint64_t nodes = 1;
    for (uint64_t k = n / ml; k > 0; k = k > 1 ? k / mi : 0) nodes += k;
    return kConst + (nodes + 1) * (200 + 20 * (L + I));
  }
  static constexpr uint64_t kConst = 120;
  static void check(const char* what, uint64_t used, uint64_t bound, uint64_t n) {
    ev(used);
    uint64_t pct = used * 100 / bound;
    probe(pct < 5 ? "cost_under_5pct_of_bound" : pct < 20 ? "cost_under_20pct_of_bound" : pct < 50 ? "cost_under_50pct_of_bound" : "cost_over_50pct_of_bound");
    if (used > bound) violation("C23", "too-much-work", "%s took %llu simulated steps with %llu elements (at most %llu expected)", what, (unsigned long long)used, (unsigned long long)n, (unsigned long long)bound);
  }
  template <class F> static uint64_t timed(F&& f, uint64_t bound = 0) { uint64_t s0 = g.steps; g.step_limit = g.steps + std::max<uint64_t>(40000000, 2 * bound); { Sut sut; f(); } g.step_limit = 0; return g.steps - s0; }
  static void run(const World&, const Plan& p) {
    int64_t nk = std::min<int64_t>(p.get("keys", 100), KP::max_keys());
    KP::setup(nk, p.get("keymode", 0));
    std::vector<uint64_t> m((size_t)nk, 0);   // 0: absent, else value id
    uint64_t n = 0, nextv = 0;
    Tree* t; { Sut sut; t = new Tree(); }
    auto K = [&](int64_t a) { return ((a % nk) + nk) % nk; };
    auto insert = [&](int64_t k) {
      uint64_t v = ++nextv; bool ins = false; uint64_t u;
      { Key key = KP::make(k); auto val = VP::make(v); u = timed([&] { ins = t->insert(key, val).second; }); }
      if (ins != (m[(size_t)k] == 0)) violation("*", "wrong-insert-flag", "insertion of #%lld reported inserted=%d", (long long)k, (int)ins);
      if (ins) { m[(size_t)k] = v; ++n; }
      check("an insertion", u, update_bound(n), n);
    };
    auto erase = [&](int64_t k) {
      size_t r = 0; uint64_t u;
      { Key key = KP::make(k); u = timed([&] { r = t->erase(key); }); }
      if (r != (m[(size_t)k] != 0)) violation("*", "wrong-erase-count", "erase(#%lld) returned %zu", (long long)k, r);
      if (r) { m[(size_t)k] = 0; --n; }
      check("an erasure", u, update_bound(n + 1), n);
    };
    int idx = 0;
    for (const Step& st : p.steps) {
      set_step(idx++, &st);
      int64_t k = K(st.a);
      switch (st.op) {
        case K_FILL: for (int64_t j = 0, x = st.a; j < st.b; ++j, x += st.c) insert(K(x)); break;
        case K_DRAIN: for (int64_t j = 0, x = st.a; j < st.b; ++j, x += st.c) erase(K(x)); break;
        case K_INSERT: insert(k); break;
        case K_ERASE: erase(k); break;
        case K_SETS: {  // every other way to insert or assign, with hints anywhere
          Key key = KP::make(k); uint64_t v = ++nextv, u, got = 0; auto val = VP::make(v);
          bool had = m[(size_t)k] != 0, sets = false;
          typename Tree::iterator hint;
          { Sut sut; Key hk = KP::make(K(st.a * 31 + st.c * 7)); hint = st.c % 4 == 0 ? t->begin() : st.c % 4 == 1 ? t->end() : t->lower_bound(hk); }
          u = timed([&] {
            switch (st.b % 7) {
              case 0: got = VP::id(t->emplace_hint(hint, key, val)->second); break;
              case 1: got = VP::id(t->insert_or_assign(key, val).first->second); sets = true; break;
              case 2: got = VP::id(t->try_emplace(key, val).first->second); break;
              case 3: got = VP::id((*t)[key] = val); sets = true; break;
              case 4: got = VP::id(t->emplace(key, val).first->second); break;
              case 5: got = VP::id(t->insert({key, val}).first->second); break;
              default: got = VP::id(t->emplace_hint(t->end(), key, val)->second); break;
            }
          });
          if (!had) { ++n; m[(size_t)k] = v; } else if (sets) m[(size_t)k] = v;
          if (got != m[(size_t)k]) violation("*", "wrong-insert-value", "an insertion of #%lld yields the wrong value", (long long)k);
          check("an insertion or assignment", u, update_bound(n), n);
          break;
        }
        case K_QUEUE: {  // first in, first out, at either end
          int64_t cnt = std::min<int64_t>((int64_t)n, 50 + st.c / 2);
          for (int64_t j = 0; j < cnt; ++j) {
            int64_t x = -1;
            uint64_t u = timed([&] {
              if (st.b % 2) { auto it = t->begin(); x = KP::kid(it->first); t->erase(it); }
              else { auto it = t->end(); --it; x = KP::kid(it->first); t->erase(it); }
            });
            if (x < 0 || !m[(size_t)x]) violation("*", "wrong-lookup", "iteration yields an element that is not there");
            m[(size_t)x] = 0; --n;
            check("an erasure of the first or last element", u, update_bound(n + 1), n);
          }
          break;
        }
        case K_FIND: case K_MISS: {
          Key key = KP::make(k); uint64_t got = 0, u;
          if (st.op == K_FIND && st.b % 4) {
            const Tree& ct = *t;
            u = timed([&] {
              if (st.b % 4 == 1) { auto it = ct.find(key); if (!(it == ct.end())) got = VP::id(it->second); }
              else if (st.b % 4 == 2) { try { got = VP::id(t->at(key)); } catch (const std::out_of_range&) {} }
              else { auto r = t->equal_range(key); if (!(r.first == r.second)) got = VP::id(r.first->second); }
            });
          } else if (st.op == K_MISS) u = timed([&] { got = t->contains(key) + 2 * t->count(key); });
          else u = timed([&] { auto it = t->find(key); if (!(it == t->end())) got = VP::id(it->second); });
          uint64_t want = st.op == K_MISS ? (m[(size_t)k] ? 3 : 0) : m[(size_t)k];
          if (got != want) violation("*", "wrong-lookup", "lookup of #%lld is wrong", (long long)k);
          check("a lookup", u, 2 * lookup_bound(n), n);
          break;
        }
        case K_BOUND: {
          Key key = KP::make(k); uint64_t got = 0;
          int64_t w = KP::rank(0) <= KP::rank(1) ? 1 : -1, x = k;
          if (st.b % 2) x += w;
          while (x >= 0 && x < nk && !m[(size_t)x]) x += w;
          uint64_t u = timed([&] { auto it = st.b % 2 ? t->upper_bound(key) : t->lower_bound(key); if (!(it == t->end())) got = VP::id(it->second); });
          if (got != (x >= 0 && x < nk ? m[(size_t)x] : 0)) violation("*", "wrong-lookup", "bound of #%lld is wrong", (long long)k);
          check("a bound", u, lookup_bound(n), n);
          break;
        }
        case K_ERASE_IT: {
          if (!m[(size_t)k]) break;
          Key key = KP::make(k);
          typename Tree::iterator it; { Sut sut; it = t->find(key); if (it == t->end()) violation("*", "wrong-lookup", "find(#%lld) misses a present key", (long long)k); }
          uint64_t u = timed([&] { it = t->erase(it); });
          m[(size_t)k] = 0; --n;
          check("an erasure through an iterator", u, update_bound(n + 1), n);
          break;
        }
        case K_RANGE: {
          Key key = KP::make(k); uint64_t c = 0;
          typename Tree::iterator a, b;
          { Sut sut; a = b = t->lower_bound(key); while (c < (uint64_t)st.b && !(b == t->end())) { int64_t x = KP::kid(b->first); if (x < 0 || !m[(size_t)x]) violation("*", "wrong-lookup", "iteration yields an element that is not there"); m[(size_t)x] = 0; ++b; ++c; } }
          n -= c;
          uint64_t u = timed([&] { t->erase(a, b); }, (c + 1) * update_bound(n + c));
          check("a range erasure", u, (c + 1) * update_bound(n + c), n);
          break;
        }
        case K_STEP: {
          uint64_t c = 0; Key key = KP::make(k);
          typename Tree::iterator it; { Sut sut; it = t->lower_bound(key); }
          uint64_t u = timed([&] { while (c < 500 && !(it == t->end())) { ++it; ++c; } });
          check("500 iterator increments", u, c * 120 + kConst, n);
          u = timed([&] { for (uint64_t j = 0; j < c; ++j) --it; });
          check("500 iterator decrements", u, c * 120 + kConst, n);
          c = 0;
          u = timed([&] { auto r = t->rbegin(); while (c < 500 && !(r == t->rend())) { ++r; ++c; } });
          check("500 reverse iterator increments", u, c * 120 + kConst, n);
          break;
        }
        case K_ENDS: {
          bool e = false; size_t sz = 0;
          uint64_t u = timed([&] { const Tree& ct = *t; e = (t->begin() == t->end()); (void)ct.begin(); (void)ct.end(); sz = ct.size() + ct.empty(); });
          if (e != (n == 0) || sz != n + (n == 0)) violation("*", "wrong-size", "size/empty/begin/end are wrong");
          check("begin, end, size and empty", u, kConst, n);
          break;
        }
        case K_MOVE: {
          Tree* o = nullptr;
          alignas(Tree) unsigned char raw[sizeof(Tree)];
          uint64_t u = timed([&] { o = new (raw) Tree(std::move(*t)); });
          check("a move construction", u, kConst, n);
          u = timed([&] { *t = std::move(*o); });
          check("a move assignment to an empty tree", u, kConst, n);
          { Sut sut; o->~Tree(); }
          break;
        }
        case K_COPY: {
          Tree* o = nullptr;
          alignas(Tree) unsigned char raw[sizeof(Tree)];
          uint64_t u = timed([&] { o = new (raw) Tree(static_cast<const Tree&>(*t)); }, (n + 1) * update_bound(n));
          check("a copy construction", u, (n + 1) * update_bound(n), n);
          if (o->size() != n) violation("*", "wrong-size", "a copy of %llu elements has size %zu", (unsigned long long)n, o->size());
          { Sut sut; auto a = t->begin(), b = o->begin(); for (uint64_t j = 0; j < n && j < 300; ++j, ++a, ++b) if (b == o->end() || KP::kid(a->first) != KP::kid(b->first) || VP::id(a->second) != VP::id(b->second)) violation("*", "wrong-copy", "a copy differs from its source"); }
          if (st.b % 3 == 0) {
            u = timed([&] { *o = static_cast<const Tree&>(*t); }, (n + 1) * update_bound(n) + whole_bound(n));
            check("a copy assignment", u, (n + 1) * update_bound(n) + whole_bound(n), n);
          }
          u = timed([&] { if (st.b % 2) o->clear(); else o->~Tree(); }, whole_bound(n));
          check(st.b % 2 ? "clear" : "destruction", u, whole_bound(n), n);
          if (st.b % 2) { if (!o->empty()) violation("*", "wrong-size", "clear left elements"); Sut sut; o->~Tree(); }
          break;
        }
        case K_SWAP: {
          Tree* o; { Sut sut; o = new Tree(); }
          uint64_t u = timed([&] { t->swap(*o); });
          check("a swap", u, kConst, n);
          timed([&] { t->swap(*o); delete o; });
          break;
        }
        default: break;
      }
      if (t->size() != n) violation("*", "wrong-size", "size() is %zu, expected %llu", t->size(), (unsigned long long)n);
      state(mix64((uint64_t)st.op * 31 + n) ^ g.hash);
    }
    timed([&] { delete t; }, whole_bound(n));
  }
};
inline int w_cost(const std::string& p) { return p == "C23" ? 1 : 0; }
template <class C> inline void cost_reg(const char* name) { worlds().push_back(World{"cost", name, cost_ops(), &CostWorld<C>::gen, &CostWorld<C>::run, &w_cost}); }
#define COST_CONFIG(ID, NAME, ...) static void reg_##ID() { using C_ = __VA_ARGS__; ::sim::cost_reg<C_>(NAME); } static ::sim::LazyReg lazy_##ID(&reg_##ID);
} }  // namespace sim
