// TreeWorld: several btrees as concurrent "clients" of simulated memory,
// driven by a plan of operations, faults and memory-grant changes, checked
// after every step against a sorted-map reference model and ownership ledgers.
#pragma once
#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <algorithm>
#include <optional>

#include "tree_gen.hpp"
#include "types.hpp"

namespace sim { inline namespace SIM_NS {
namespace fc = kressler::fast_containers;

// ------------------------------------------------------------ allocator policies
struct DomParams { int64_t init0, grow0, init1, grow1; bool huge; };
inline DomParams dom_params(const Plan& p) {
  return {p.get("init0", 65536), p.get("grow0", 65536), p.get("init1", 65536), p.get("grow1", 65536), p.get("huge", 0) != 0};
}
struct StdDoms {
  static constexpr int kind = AK_STD;
  static constexpr bool propagates = true, swaps = true, pools = false;
  template <class K, class V> using A = std::allocator<std::pair<K, V>>;
  explicit StdDoms(const Plan&, int) {}
  void ensure(int) {}
  void drop(int) {}
  template <class K, class V> A<K, V> make(int) { return {}; }
  static bool same(int, int) { return true; }
};
template <bool PM, bool PS> struct SimDoms {
  static constexpr int kind = PM && PS ? AK_SIM : AK_SIM_NOPROP;
  static constexpr bool propagates = PM, swaps = PS, pools = false;
  template <class K, class V> using A = SimAlloc<std::pair<K, V>, PM, PS>;
  std::vector<AllocDomain> d;
  SimDoms(const Plan&, int n) { for (int i = 0; i < n; ++i) d.push_back(AllocDomain{i}); }
  void ensure(int) {}
  void drop(int) {}
  template <class K, class V> A<K, V> make(int i) { return A<K, V>(&d[(size_t)i]); }
  static bool same(int a, int b) { return a == b; }
};
struct HugeDoms {
  static constexpr int kind = AK_HUGE;
  static constexpr bool propagates = true, swaps = true, pools = true;
  template <class K, class V> using A = fc::HugePageAllocator<std::pair<K, V>>;
  DomParams dp;
  HugeDoms(const Plan& p, int) : dp(dom_params(p)) {}
  void ensure(int) {}
  void drop(int) {}
  // every tree gets pools of its own; the prototype allocator dies at once
  template <class K, class V> A<K, V> make(int) { return A<K, V>((size_t)dp.init0, dp.huge, (size_t)dp.grow0); }
  static bool same(int, int) { return false; }
};
struct PolDoms {
  static constexpr int kind = AK_POL;
  static constexpr bool propagates = true, swaps = true, pools = true;
  template <class K, class V> using A = fc::PolicyBasedHugePageAllocator<std::pair<K, V>, fc::TwoPoolPolicy>;
  struct D { std::shared_ptr<fc::HugePagePool> leaf, internal; };
  DomParams dp;
  // 0: every policy has pools of its own; 1: one leaf pool, several internal
  // pools; 2: several leaf pools, one internal pool
  int share;
  std::vector<D> d;
  PolDoms(const Plan& p, int n) : dp(dom_params(p)), share((int)p.get("share", 0)) { NoSut ns; d.resize((size_t)n); }
  int leaf_of(int i) const { return share == 1 ? 0 : i; }
  int internal_of(int i) const { return share == 2 ? 0 : i; }
  void ensure(int i) {
    D& x = d[(size_t)i];
    if (x.leaf && x.internal) return;
    std::shared_ptr<fc::HugePagePool> l = x.leaf, in = x.internal;
    for (size_t j = 0; j < d.size(); ++j) {
      if (!l && d[j].leaf && leaf_of((int)j) == leaf_of(i)) l = d[j].leaf;
      if (!in && d[j].internal && internal_of((int)j) == internal_of(i)) in = d[j].internal;
    }
    struct Tag { ~Tag() { os.tag = 0; } } untag;
    os.tag = 100 + leaf_of(i) * 2;
    if (!l) l = std::make_shared<fc::HugePagePool>((size_t)dp.init0, dp.huge, (size_t)dp.grow0);
    os.tag = 101 + internal_of(i) * 2;
    if (!in) in = std::make_shared<fc::HugePagePool>((size_t)dp.init1, dp.huge, (size_t)dp.grow1);
    x.leaf = std::move(l);
    x.internal = std::move(in);
  }
  void drop(int i) { d[(size_t)i].leaf.reset(); d[(size_t)i].internal.reset(); }
  template <class K, class V> A<K, V> make(int i) { return A<K, V>(fc::TwoPoolPolicy(d[(size_t)i].leaf, d[(size_t)i].internal)); }
  static bool same(int a, int b) { return a == b; }
  // the pool a region belongs to: initial regions are tagged, later ones are
  // told apart by their order of magnitude (see gen_tree)
  bool is_internal(const Region& r) const { return r.tag >= 100 ? r.tag % 2 == 1 : (r.len >= ((size_t)12 << 20)) == (dp.grow1 > dp.grow0); }
  bool is_foreign(const Region& r, int i) const { return r.tag >= 100 && (r.tag - 100) / 2 != (r.tag % 2 ? internal_of(i) : leaf_of(i)); }
};
struct MultiDoms {
  static constexpr int kind = AK_MULTI;
  static constexpr bool propagates = true, swaps = true, pools = true;
  template <class K, class V> using A = fc::MultiSizeHugePageAllocator<std::pair<K, V>>;
  DomParams dp;
  std::vector<std::shared_ptr<fc::MultiSizeHugePagePool>> d;
  MultiDoms(const Plan& p, int n) : dp(dom_params(p)) { NoSut ns; d.resize((size_t)n); }
  void ensure(int i) { if (!d[(size_t)i]) d[(size_t)i] = std::make_shared<fc::MultiSizeHugePagePool>((size_t)dp.init0, dp.huge, (size_t)dp.grow0); }
  void drop(int i) { d[(size_t)i].reset(); }
  template <class K, class V> A<K, V> make(int i) { return A<K, V>(d[(size_t)i]); }
  static bool same(int a, int b) { return a == b; }
};

// ------------------------------------------------------------ model
struct Model {
  struct E { int64_t kid; uint64_t vid; };
  std::map<int64_t, E> m;
  uint64_t sum = 0; int64_t holders = 0;
  void add(uint64_t vid) { if (vid) { sum += mix64(vid); ++holders; } }
  void del(uint64_t vid) { if (vid) { sum -= mix64(vid); --holders; } }
  void insert(int64_t rank, int64_t kid, uint64_t vid) { m[rank] = {kid, vid}; add(vid); }
  void set(std::map<int64_t, E>::iterator it, uint64_t vid) { del(it->second.vid); it->second.vid = vid; add(vid); }
  std::map<int64_t, E>::iterator erase(std::map<int64_t, E>::iterator it) { del(it->second.vid); return m.erase(it); }
  void clear() { m.clear(); sum = 0; holders = 0; }
};

struct Outcome { int ex = 0; };  // 0 ok, 1 bad_alloc, 2 SimThrow, 3 out_of_range, 4 other
static constexpr const char* kExNames[] = {"none", "std::bad_alloc", "user exception", "std::out_of_range", "another exception"};

template <class KP_, class VP_, size_t L_, size_t I_, fc::SearchMode M_, class Doms_> struct TreeCfg {
  using KP = KP_; using VP = VP_; using Doms = Doms_;
  static constexpr size_t L = L_, I = I_;
  static constexpr fc::SearchMode M = M_;
  static constexpr bool default_size = L_ == 0;
};

// size of a node; a guess if the tree does not name its node types
template <class Tree> constexpr int64_t node_bytes(bool leaf) {
  if constexpr (requires { sizeof(typename Tree::leaf_node); sizeof(typename Tree::internal_node); })
    return (int64_t)(leaf ? sizeof(typename Tree::leaf_node) : sizeof(typename Tree::internal_node));
  else return leaf ? 1024 : 512;
}
template <class C> struct TreeSet {
  using KP = typename C::KP; using VP = typename C::VP; using Doms = typename C::Doms;
  using Key = typename KP::Key; using Value = typename VP::Value; using Cmp = typename KP::Cmp;
  using Alloc = typename Doms::template A<Key, Value>;
  static constexpr size_t L = C::default_size ? fc::default_leaf_node_size<Key, Value>() : C::L;
  static constexpr size_t I = C::default_size ? fc::default_internal_node_size<Key>() : C::I;
  using Tree = fc::btree<Key, Value, L, I, Cmp, C::M, Alloc>;
  using It = typename Tree::iterator;
  using Pair = typename Tree::value_type;

  struct Slot { void* raw = nullptr; Tree* t = nullptr; int dom = 0; Model m; };
  Doms& doms;
  std::vector<Slot> slots;
  int64_t nkeys;
  int ndom;
  uint64_t nextv = 0;

  TreeSet(Doms& d, const Plan& p, int nslots, int nd) : doms(d), ndom(nd) {
    nkeys = p.get("keys", 64);
    if (nkeys > KP::max_keys()) nkeys = KP::max_keys();
    KP::setup(nkeys, p.get("keymode", 0));
    slots.resize((size_t)nslots);
    for (auto& s : slots) s.raw = raw_alloc(alignof(Tree), sizeof(Tree));
  }
  ~TreeSet() { for (auto& s : slots) raw_free(s.raw); }
  Slot& S(int64_t i) { return slots[(size_t)i]; }
  uint64_t fresh() { return ++nextv; }
  int64_t K(int64_t a) const { return ((a % nkeys) + nkeys) % nkeys; }

  // ---- run a piece of code under test with the step's fault armed
  template <class F> Outcome call(const Step& s, F&& f) {
    Outcome o;
    arm(s);
    g.step_limit = g.steps + 40000000;
    {
      Sut sut;
      try { f(); }
      catch (const std::bad_alloc&) { o.ex = 1; }
      catch (const SimThrow&) { o.ex = 2; }
      catch (const std::out_of_range&) { o.ex = 3; }
      catch (const std::exception&) { o.ex = 4; }
    }
    g.step_limit = 0;
    disarm();
    ev(0xC0DE + (uint64_t)o.ex);
    return o;
  }
  struct Armed { Armed(const Step& s) { arm(s); } ~Armed() { disarm(); } };
  // Requests the simulated system really refused.  A refused huge-page request
  // alone never explains a failure: ordinary pages must be tried instead.
  static uint64_t refused() { return os.st.refused - os.st.refused_huge; }
  uint64_t refused0 = 0;
  // is this failure one the environment explains?
  // frugal: what was asked for adds nothing and so needs no memory
  void explain(const Step& s, const Outcome& o, const char* what, bool frugal = false) {
    constexpr bool strs = std::is_same_v<Key, std::string> || std::is_same_v<Value, std::string>;
    if (frugal && !strs && s.fk && s.fk < F_VCOPY && on("C28")) {
      probe("without_memory"); probe(g.ffired ? "memory_asked_for" : "no_memory_asked_for");
      SIM_CHECK(o.ex != 1, "C28", "needs-memory", "%s, which adds no element, failed because it was refused memory", what);
    }
    if (o.ex == 0) return;
    bool user = g.ffired && s.fk >= F_VCOPY;
    bool mem = (g.ffired && (s.fk == F_ALLOC || s.fk == F_HEAP)) || refused() > refused0;
    if (o.ex == 1 && mem) { probe("oom_exceptions"); return; }
    if (o.ex == 2 && user) { probe("user_exceptions"); return; }
    violation("*", "unexpected-exception", "%s threw %s although nothing it depends on failed", what, kExNames[o.ex]);
  }

  // ---- oracles
  void check_elem(const Slot& s, const Model::E& e, const Key& k, const Value& v, const char* where) {
    int64_t kid = KP::kid(k);
    if (kid != e.kid) violation("*", "wrong-key", "%s: key #%lld where #%lld was expected (tree %d)", where, (long long)kid, (long long)e.kid, (int)(&s - slots.data()));
    if (!VP::ok(v) || VP::id(v) != e.vid) violation("*", "wrong-value", "%s: value %llu where %llu was expected for key #%lld (tree %d)", where, (unsigned long long)VP::id(v), (unsigned long long)e.vid, (long long)kid, (int)(&s - slots.data()));
    if constexpr (Doms::pools) {
      bool in = os_inside(&v, sizeof(Value)) && os_inside(&k, sizeof(Key));
      if (!in) violation("*", "element-outside-mapping", "%s: element #%lld lies outside any memory its pool has mapped", where, (long long)kid);
    }
  }
  void check_full(int64_t i, const char* where) {
    Slot& s = S(i);
    if (!s.t) return;
    Tree& t = *s.t; const Tree& ct = t;
    Sut sut;
    size_t n = s.m.m.size();
    g.step_limit = g.steps + 40000000;
    if (ct.size() != n) violation("*", "wrong-size", "%s: size() is %zu, expected %zu (tree %lld)", where, ct.size(), n, (long long)i);
    if (ct.empty() != (n == 0)) violation("*", "wrong-empty", "%s: empty() is %d with %zu elements", where, (int)ct.empty(), n);
    uint64_t h = 0;
    auto mi = s.m.m.begin();
    auto e = t.end();
    for (auto it = t.begin(); it != e; ++it, ++mi) {
      if (mi == s.m.m.end()) violation("*", "extra-element", "%s: iteration yields more than the %zu elements present (tree %lld)", where, n, (long long)i);
      check_elem(s, mi->second, it->first, it->second, where);
      h = mix64(h ^ (uint64_t)mi->second.kid);
    }
    if (mi != s.m.m.end()) violation("*", "missing-element", "%s: iteration ends before key #%lld (tree %lld)", where, (long long)mi->second.kid, (long long)i);
    if (!(ct.cbegin() == t.begin()) || !(ct.cend() == e) || !(ct.begin() == t.begin()) || !(ct.end() == e)) violation("*", "wrong-begin-end", "%s: begin()/end() of the constant and the mutable tree differ (tree %lld)", where, (long long)i);
    if (n && on("C01,C06,C02,C03,C05,C16,C20")) {
      auto it = ct.end();
      for (auto r = s.m.m.rbegin(); r != s.m.m.rend(); ++r) { --it; check_elem(s, r->second, it->first, it->second, "backward walk"); }
      if (!(it == ct.begin())) violation("*", "backward-walk", "%s: decrementing from end() over all elements does not reach begin()", where);
      if (!(ct.crbegin() == t.rbegin()) || !(ct.crend() == t.rend()) || !(ct.rbegin() == t.rbegin()) || !(ct.rend() == t.rend())) violation("*", "wrong-begin-end", "%s: rbegin()/rend() of the constant and the mutable tree differ (tree %lld)", where, (long long)i);
      auto ri = t.rbegin();
      for (auto r = s.m.m.rbegin(); r != s.m.m.rend(); ++r, ++ri) {
        if (ri == t.rend()) violation("*", "reverse-walk", "%s: reverse iteration ends early", where);
        check_elem(s, r->second, ri->first, ri->second, "reverse iteration");
      }
      if (!(ri == t.rend())) violation("*", "reverse-walk", "%s: reverse iteration yields too many elements", where);
    } else if (n == 0) {
      if (!(t.begin() == t.end()) || !(t.rbegin() == t.rend()) || !(ct.begin() == ct.end()) || !(ct.rbegin() == ct.rend()) || !(ct.crbegin() == ct.crend())) violation("*", "empty-walk", "%s: begin()!=end() in an empty tree", where);
    }
    g.step_limit = 0;
    ev(h + n);
  }
  void check_key(int64_t i, int64_t kid, const char* where) {
    Slot& s = S(i);
    Tree& t = *s.t; const Tree& ct = t;
    NoSut ns;
    Key k = KP::make(kid);
    Sut sut;
    int64_t rk = KP::rank(kid);
    auto f = s.m.m.find(rk);
    auto lb = s.m.m.lower_bound(rk), ub = s.m.m.upper_bound(rk);
    bool has = f != s.m.m.end();
    auto same = [&](It it, decltype(lb) m, const char* op) {
      bool e = it == t.end();
      if (e != (m == s.m.m.end())) violation("*", "wrong-lookup", "%s: %s(#%lld) %s (tree %lld)", where, op, (long long)kid, e ? "reports end although an element qualifies" : "reports an element although none qualifies", (long long)i);
      if (!e) check_elem(s, m->second, it->first, it->second, op);
    };
    same(t.find(k), f, "find");
    same(ct.find(k), f, "const find");
    if (ct.contains(k) != has || ct.count(k) != (has ? 1u : 0u)) violation("*", "wrong-lookup", "%s: contains/count(#%lld) disagree with contents", where, (long long)kid);
    same(t.lower_bound(k), lb, "lower_bound");
    same(t.upper_bound(k), ub, "upper_bound");
    auto er = t.equal_range(k);
    same(er.first, lb, "equal_range.first");
    same(er.second, ub, "equal_range.second");
    if (!(er.first == t.lower_bound(k)) || !(er.second == t.upper_bound(k))) violation("*", "wrong-lookup", "%s: equal_range(#%lld) is not {lower_bound, upper_bound}", where, (long long)kid);
    if (lb != s.m.m.end()) {
      bool less = rk < lb->first;
      auto p = t.lower_bound(k);
      if (t.key_comp()(k, p->first) != less || t.key_comp()(p->first, k)) violation("*", "wrong-comparator", "%s: key_comp() orders #%lld wrongly", where, (long long)kid);
    }
    if (has) {
      check_elem(s, f->second, t.find(k)->first, t.at(k), "at");
      check_elem(s, f->second, t.find(k)->first, ct.at(k), "const at");
    } else {
      int thrown = 0;
      try { (void)ct.at(k); } catch (const std::out_of_range&) { thrown = 1; }
      try { (void)t.at(k); } catch (const std::out_of_range&) { thrown |= 2; }
      if (thrown != 3) violation("*", "at-missing", "%s: at() of an absent key does not throw std::out_of_range", where);
    }
  }
  void check_lookup(int64_t i, int64_t around, const char* where) {
    Slot& s = S(i);
    if (!s.t) return;
    int64_t step = nkeys > 400 ? nkeys / 97 + 1 : nkeys > 96 ? 3 : 1;
    for (int64_t k = ((around % step) + step) % step; k < nkeys; k += step) check_key(i, k, where);
    for (int64_t d = -2; d <= 2; ++d) check_key(i, K(around + d), where);
  }
  void shape(int64_t op) {
    uint64_t h = (uint64_t)op;
    for (auto& s : slots) h = mix64(h ^ (s.t ? 1 + s.m.m.size() : 0));
    if constexpr (Doms::kind == AK_SIM || Doms::kind == AK_SIM_NOPROP) for (auto& d : doms.d) h = mix64(h ^ (uint64_t)(d.live[1] * 1000 + d.live[2]));
    h = mix64(h ^ (uint64_t)(os.st.mmaps * 7 + os_live_regions()));
    state(h);
  }
  // contents and ownership sums
  static int64_t g_holders(const std::vector<Slot>& v, uint64_t& sum) { int64_t h = 0; for (auto& s : v) { h += s.m.holders; sum += s.m.sum; } return h; }
  void check_nodes(const char* where) {
    if constexpr (Doms::kind == AK_SIM || Doms::kind == AK_SIM_NOPROP) {
      const size_t ml = (L + 1) / 2 - ((L + 1) / 2) / 4, mi = (I + 1) / 2 - ((I + 1) / 2) / 4;
      for (int d = 0; d < ndom; ++d) {
        int64_t maxl = 0, maxi = 0;
        for (auto& s : slots) if (s.t && s.dom == d) {
          int64_t lf = (int64_t)std::max<size_t>(1, s.m.m.size() / ml);
          maxl += lf;
          int64_t in = 0, lv = lf;
          while (lv > 1) { lv = std::max<int64_t>(1, lv / (int64_t)mi); in += lv; }
          maxi += in;
        }
        auto& D = doms.d[(size_t)d];
        SIM_CHECK(D.live[1] <= maxl, "C19,C24", "too-many-leaves", "%s: %lld leaf nodes are live where %lld suffice for the contents (allocator %d)", where, (long long)D.live[1], (long long)maxl, d);
        SIM_CHECK(D.live[2] <= maxi, "C19,C24", "too-many-internals", "%s: %lld internal nodes are live where %lld suffice for the contents (allocator %d)", where, (long long)D.live[2], (long long)maxi, d);
        SIM_CHECK(D.live[0] <= maxl + maxi, "C19,C04", "other-nodes", "%s: allocator %d holds %lld blocks that are not nodes", where, d, (long long)D.live[0]);
      }
    }
  }
  // Exact fill of every node, found from outside: leaves by the addresses of
  // the elements, inner nodes by the one reference every node holds to a node
  // of the level above.  Says nothing where nodes are laid out otherwise.
  void check_fill(const char* where) {
    if constexpr (Doms::kind == AK_SIM || Doms::kind == AK_SIM_NOPROP) {
      const int64_t ml = (int64_t)((L + 1) / 2 - ((L + 1) / 2) / 4), mi = (int64_t)((I + 1) / 2 - ((I + 1) / 2) / 4);
      struct N { uintptr_t at; size_t bytes; int kind; int level = -1; int tree = -1; int64_t fill = 0; };
      std::vector<N> ns;
      for (auto& kv : ledger.m) { if (kv.second.kind == 0) return; ns.push_back({(uintptr_t)kv.first, kv.second.n * kv.second.size, kv.second.kind}); }
      std::sort(ns.begin(), ns.end(), [](const N& a, const N& b) { return a.at < b.at; });
      auto inside = [&](uintptr_t a) -> N* {
        auto it = std::upper_bound(ns.begin(), ns.end(), a, [](uintptr_t x, const N& n) { return x < n.at; });
        if (it == ns.begin()) return nullptr;
        --it;
        return a < it->at + it->bytes ? &*it : nullptr;
      };
      std::vector<N*> row;
      std::vector<int64_t> width(slots.size(), 0);
      int64_t empties = 0, leaves = 0, internals = 0;
      for (size_t j = 0; j < slots.size(); ++j) {
        Slot& s = slots[j];
        if (!s.t) continue;
        if (s.m.m.empty()) { ++empties; continue; }
        Sut sut;
        for (auto it = s.t->begin(); it != s.t->end(); ++it) {
          N* n = inside((uintptr_t)&it->second);
          if (!n || n->kind != 1) return;
          NoSut nsut;
          if (n->level < 0) { n->level = 0; n->tree = (int)j; row.push_back(n); ++width[j]; ++leaves; }
          else if (n->tree != (int)j) violation("*", "shared-node", "%s: trees %d and %zu hold elements in the same node", where, n->tree, j);
          ++n->fill;
        }
      }
      for (N* n : row) {
        if (width[(size_t)n->tree] > 1 && n->fill < ml) SIM_CHECK(false, "C19,C24", "underfull-leaf", "%s: a leaf of tree %d holds %lld of %zu elements, fewer than %lld", where, n->tree, (long long)n->fill, (size_t)L, (long long)ml);
      }
      int64_t all[3] = {0, 0, 0};
      for (auto& d : doms.d) for (int k = 0; k < 3; ++k) all[k] += d.live[k];
      SIM_CHECK(all[1] <= leaves + empties, "C19,C24", "superfluous-leaf", "%s: %lld leaf nodes are live, but only %lld hold elements (%lld trees are empty)", where, (long long)all[1], (long long)leaves, (long long)empties);
      int depth = 0;
      for (int level = 1; !row.empty() && level < 40; ++level) {
        depth = level;
        std::vector<N*> up;
        std::vector<int64_t> uw(slots.size(), 0);
        for (N* n : row) {
          if (width[(size_t)n->tree] < 2) continue;
          N* parent = nullptr;
          const uintptr_t* w = (const uintptr_t*)n->at;
          for (size_t q = 0; q < n->bytes / sizeof(uintptr_t); ++q) {
            N* c = inside(w[q]);
            if (!c || c->at != w[q] || c->kind != 2 || (c->level >= 0 && c->level != level) || c == n) continue;
            if (parent && parent != c) return;  // ambiguous
            parent = c;
          }
          if (!parent) return;
          if (parent->level < 0) { parent->level = level; parent->tree = n->tree; up.push_back(parent); ++uw[(size_t)n->tree]; ++internals; }
          else if (parent->tree != n->tree) violation("*", "shared-node", "%s: nodes of trees %d and %d have the same parent", where, n->tree, parent->tree);
          ++parent->fill;
        }
        for (N* n : up) {
          if (uw[(size_t)n->tree] > 1 && n->fill < mi) SIM_CHECK(false, "C19,C24", "underfull-internal", "%s: an inner node of tree %d has %lld of %zu children, fewer than %lld", where, n->tree, (long long)n->fill, (size_t)I, (long long)mi);
          if (uw[(size_t)n->tree] == 1 && n->fill < 2) SIM_CHECK(false, "C19,C24", "superfluous-root", "%s: the root of tree %d has a single child", where, n->tree);
        }
        row = up; width = uw;
      }
      SIM_CHECK(all[2] <= internals, "C19,C24", "superfluous-internal", "%s: %lld inner nodes are live, %lld are part of a tree", where, (long long)all[2], (long long)internals);
      probe("exact_fill");
      if (depth > 2) probe("exact_fill_deep");
    }
  }
  void check_policy(const char* where) {
    if constexpr (Doms::kind == AK_POL) {
      if (!on("C16")) return;
      for (int d = 0; d < ndom; ++d) {
        for (auto& s : slots) if (s.t && s.dom == d && !s.m.m.empty()) {
          Sut sut;
          for (auto it = s.t->begin(); it != s.t->end(); ++it) {
            Region* r = os_find((uintptr_t)&it->second);
            bool internal = r && doms.is_internal(*r), foreign = r && doms.is_foreign(*r, s.dom);
            if (internal || foreign) violation("C16", "element-in-wrong-pool", "%s: element #%lld lives in memory of the internal pool or of a pool of another policy", where, (long long)KP::kid(it->first));
          }
        }
      }
    }
  }

  // What the pools of the two-pool policy must hold, from the contents of the
  // trees alone: bytes of leaf and internal nodes, at least and at most.
  struct Use { uint64_t lo = 0, hi = 0; bool leaf = false, internal = false; };
  using Uses = std::map<const fc::HugePagePool*, Use>;
  void pool_uses(Uses& m) {
    if constexpr (Doms::kind == AK_POL) {
      const uint64_t ml = (L + 1) / 2 - ((L + 1) / 2) / 4, mi = (I + 1) / 2 - ((I + 1) / 2) / 4;
      const uint64_t lb = (uint64_t)node_bytes<Tree>(true), ib = (uint64_t)node_bytes<Tree>(false);
      if constexpr (!requires { sizeof(typename Tree::leaf_node); sizeof(typename Tree::internal_node); }) return;
      for (auto& s : slots) if (s.t) {
        const fc::HugePagePool *lp, *ip;
        { Sut sut; auto a = s.t->get_allocator(); lp = a.get_policy().leaf_pool_.get(); ip = a.get_policy().internal_pool_.get(); }
        uint64_t n = s.m.m.size();
        uint64_t lo = (n + L - 1) / L, hi = std::max<uint64_t>(1, n / ml);
        Use& lu = m[lp]; lu.leaf = true; lu.lo += lo * lb; lu.hi += hi * ((lb + 63) / 64 * 64);
        Use& iu = m[ip]; iu.internal = true;
        for (uint64_t l = lo; l > 1;) { l = (l + I - 1) / I; iu.lo += l * ib; }
        for (uint64_t h = hi; h > 1;) { h = std::max<uint64_t>(1, h / mi); iu.hi += h * ((ib + 63) / 64 * 64); }
      }
    }
  }
  static void check_uses(const Uses& m, const char* where) {
    if constexpr (fc::allocator_stats_enabled) {
      for (auto& kv : m) {
        Sut sut;
        uint64_t u = kv.first->get_current_usage();
        const Use& x = kv.second;
        if (u < x.lo || u > x.hi) violation("C16", "pool-contents", "%s: the %s pool has %llu bytes in use; the nodes of the trees need %llu to %llu", where, x.leaf ? "leaf" : "internal", (unsigned long long)u, (unsigned long long)x.lo, (unsigned long long)x.hi);
      }
    }
  }
  // every element owns one key; beyond those only separators (at most one per node) may exist
  void check_keys() {
    int64_t n = 0, nodes = 0;
    for (auto& s : slots) n += (int64_t)s.m.m.size();
    SIM_CHECK(obj.key_holders >= n, "C04", "key-lost", "%lld keys are alive for %lld elements", (long long)obj.key_holders, (long long)n);
    if constexpr (Doms::kind == AK_SIM || Doms::kind == AK_SIM_NOPROP) {
      for (auto& d : doms.d) nodes += d.live[1] + d.live[2];
      SIM_CHECK(obj.key_holders <= n + nodes, "C04", "key-retained", "%lld keys are alive while the trees hold %lld elements in %lld nodes (keys of removed elements retained)", (long long)obj.key_holders, (long long)n, (long long)nodes);
    }
  }

  // ---- helpers on slots
  void destroy(int64_t i) {
    Slot& s = S(i);
    if (!s.t) return;
    Step none;
    if (on("C28")) { none.fk = Doms::kind == AK_STD ? F_HEAP : Doms::pools ? ((nextv & 1) ? F_HEAP : F_MMAP) : F_ALLOC; none.fn = 1; none.fp = true; }
    Outcome o = call(none, [&] { s.t->~Tree(); });
    (void)o;
    s.t = nullptr;
    s.m.clear();
  }
  bool make_empty(int64_t i, int dom, const Step& st) {
    destroy(i);
    Slot& s = S(i);
    refused0 = refused();
    Outcome o = call(st, [&] { doms.ensure(dom); s.t = new (s.raw) Tree(doms.template make<Key, Value>(dom)); });
    if (o.ex) { s.t = nullptr; explain(st, o, "tree construction"); return false; }
    s.dom = dom;
    return true;
  }
  bool need(int64_t i, int dom) {  // make sure slot i has a tree
    if (S(i).t) return true;
    Step none;
    return make_empty(i, dom, none);
  }
  typename std::map<int64_t, Model::E>::iterator nth(Model& m, int64_t a) {
    auto it = m.m.begin();
    std::advance(it, (int64_t)((uint64_t)a % m.m.size()));
    return it;
  }
  struct Held { It it; const Key* k; const Value* v; Model::E e; };
  std::vector<Held> hold(int64_t i, int64_t around) {
    std::vector<Held> h;
    Slot& s = S(i);
    if (!s.t || s.m.m.empty()) return h;
    int64_t n = (int64_t)s.m.m.size();
    auto add = [&](typename std::map<int64_t, Model::E>::iterator m) {
      Key k = KP::make(m->second.kid);
      Sut sut;
      It it = s.t->find(k);
      if (it == s.t->end()) violation("*", "wrong-lookup", "find(#%lld) misses a present key", (long long)m->second.kid);
      const Key* kp = &it->first; const Value* vp = &it->second;
      NoSut ns;
      h.push_back({it, kp, vp, m->second});
    };
    auto lb = s.m.m.lower_bound(KP::rank(K(around)));
    if (lb != s.m.m.end()) { add(lb); auto x = std::next(lb); if (x != s.m.m.end()) add(x); }
    if (lb != s.m.m.begin()) { auto x = std::prev(lb); add(x); }
    add(s.m.m.begin());
    add(std::prev(s.m.m.end()));
    add(nth(s.m, n / 2));
    add(nth(s.m, n / 3));
    return h;
  }
  void check_held(const std::vector<Held>& h, const char* what, const char* tags) {
    if (!on(tags)) return;
    Sut sut;
    for (auto& x : h) {
      bool okk = KP::kid(x.it->first) == x.e.kid && VP::id(x.it->second) == x.e.vid && &x.it->first == x.k && &x.it->second == x.v;
      if (!okk) violation(tags, "handle-invalidated", "%s: an iterator or reference to element #%lld obtained before is no longer valid", what, (long long)x.e.kid);
    }
  }
  // a stream that can be read only once
  struct OnePass {
    using iterator_category = std::input_iterator_tag; using value_type = Pair; using difference_type = std::ptrdiff_t; using pointer = const Pair*; using reference = const Pair&;
    std::vector<Pair>* v; size_t* at;
    size_t pos() const { return at ? *at : v->size(); }
    const Pair& operator*() const { return (*v)[pos()]; }
    const Pair* operator->() const { return &(*v)[pos()]; }
    OnePass& operator++() { ++*at; return *this; }
    struct Old { const Pair* p; const Pair& operator*() const { return *p; } };
    Old operator++(int) { Old o{&(*v)[pos()]}; ++*at; return o; }
    bool operator==(const OnePass& o) const { return pos() == o.pos(); }
    bool operator!=(const OnePass& o) const { return pos() != o.pos(); }
  };
  struct Addr { int64_t kid; const Value* v; };
  std::vector<Addr> addrs(int64_t i) {
    std::vector<Addr> r;
    Slot& s = S(i);
    if (!s.t) return r;
    size_t n = s.m.m.size(), step = n / 7 + 1, c = 0;
    Sut sut;
    for (auto it = s.t->begin(); it != s.t->end(); ++it, ++c) if (c % step == 0) { const Value* v = &it->second; int64_t k = KP::kid(it->first); NoSut ns; r.push_back({k, v}); }
    return r;
  }
  void check_addrs(int64_t i, const std::vector<Addr>& a, const char* what) {
    if (!on("C05")) return;
    Slot& s = S(i);
    for (auto& x : a) {
      Key k = KP::make(x.kid);
      Sut sut;
      It it = s.t->find(k);
      if (it == s.t->end() || &it->second != x.v) violation("C05", "reference-invalidated", "%s: element #%lld changed its address", what, (long long)x.kid);
    }
  }

  // ---- insertion family
  enum InsKind { INS, INS_PAIR, EMPLACE, EMPLACE_HINT, TRY_EMPLACE, TRY_EMPLACE2, ASSIGN, ASSIGN_RV, INDEX, INDEX_SET };
  void do_insert(const Step& st, int64_t i, InsKind kind, int64_t kid, uint64_t vid) {
    Slot& s = S(i);
    Tree& t = *s.t;
    int64_t rk = KP::rank(kid);
    const int variant = (int)((uint64_t)(st.op == T_FILL ? (kid + (int64_t)vid) / 3 : st.b) % 15);
    if (kind == TRY_EMPLACE && variant % 5 == 4) vid = 0;  // no arguments: a default value
    auto f = s.m.m.find(rk);
    bool had = f != s.m.m.end();
    std::vector<Held> held;
    if (st.fk || os.reg_free < 1 << 20) held = hold(i, kid);
    if constexpr (!std::is_constructible_v<Value, uint64_t, uint64_t> || !(VP::tracked || std::is_trivially_copyable_v<Value>)) { if (kind == TRY_EMPLACE2) kind = TRY_EMPLACE; }
    refused0 = refused();
    Outcome o;
    uint64_t ctor0, copy0;
    const Key* gotk = nullptr; const Value* gotv = nullptr; bool ins = false; bool hasins = true;
    bool retok = true;
    {
      Key k = KP::make(kid);
      Value v = VP::make(vid);
      std::optional<Pair> pr;
      if (kind == INS_PAIR) pr.emplace(k, v);
      It hint;
      if (kind == EMPLACE_HINT) {  // a hint is only that: any position must do
        auto near = s.m.m.lower_bound(rk);
        Key hk{};
        bool byk = variant % 5 >= 3 && !s.m.m.empty();
        if (byk) { if (variant % 5 == 3 && near != s.m.m.begin()) --near; else near = nth(s.m, st.a * 7 + variant); if (near == s.m.m.end()) byk = false; else hk = KP::make(near->second.kid); }
        Sut sut;
        hint = byk ? t.find(hk) : variant % 5 == 0 ? t.begin() : variant % 5 == 1 ? t.end() : t.lower_bound(k);
      }
      const bool rvalue = variant % 5 == 3, byref = variant % 2 == 0;
      ctor0 = obj.val_ctor; copy0 = obj.val_copy;
      auto take = [&](auto r) { gotk = &r.first->first; gotv = &r.first->second; ins = r.second; retok = !(r.first == t.end()); };
      o = call(st, [&] {
        switch (kind) {
          case INS: take(t.insert(k, v)); break;
          case INS_PAIR: take(t.insert(*pr)); break;
          case EMPLACE: if (variant % 4 == 0) take(t.emplace(std::move(k), std::move(v))); else if (variant % 4 == 1) { Pair q(k, v); take(t.emplace(std::move(q))); } else take(t.emplace(k, v)); break;
          case EMPLACE_HINT: { auto it = t.emplace_hint(hint, k, v); gotk = &it->first; gotv = &it->second; hasins = false; break; }
          case TRY_EMPLACE:
            if (vid == 0) take(t.try_emplace(k));
            else if (rvalue) take(t.try_emplace(k, std::move(v)));
            else if constexpr (std::is_constructible_v<Value, uint64_t> && VP::tracked) take(t.try_emplace(k, vid));
            else if (byref) take(t.try_emplace(k, v));
            else take(t.try_emplace(k, std::move(v)));
            break;
          case TRY_EMPLACE2:
            if constexpr (std::is_constructible_v<Value, uint64_t, uint64_t> && (VP::tracked || std::is_trivially_copyable_v<Value>)) take(t.try_emplace(k, vid / 2, vid - vid / 2));
            break;
          case ASSIGN: { const Value& cv = v; take(t.insert_or_assign(k, cv)); break; }
          case ASSIGN_RV: take(t.insert_or_assign(k, std::move(v))); break;
          case INDEX: gotv = &t[k]; hasins = false; break;
          case INDEX_SET: t[k] = std::move(v); hasins = false; break;
        }
      });
      if (on("C29") && st.fk != F_CMP) {
        // what was not inserted or assigned is still the caller's; arguments passed as lvalues always are
        const bool given = kind == EMPLACE && variant % 4 == 0;   // emplace builds its pair first
        const bool used = !o.ex && (kind == ASSIGN_RV || kind == INDEX_SET || (kind == TRY_EMPLACE && !had));
        if (!given && KP::kid(k) != kid) violation("C29", "argument-consumed", "%s insertion of #%lld changed the key it was given", o.ex ? "a failed" : "an", (long long)kid);
        if (!given && !used && (!VP::ok(v) || VP::id(v) != vid)) violation("C29", "argument-consumed", "%s of #%lld took the value it was given without storing it", o.ex ? "a failed insertion" : had ? "an insertion with a key already present" : "an insertion from a const or lvalue argument", (long long)kid);
        if (pr && (KP::kid(pr->first) != kid || VP::id(pr->second) != vid || !VP::ok(pr->second))) violation("C29", "argument-consumed", "inserting a pair for #%lld changed the pair", (long long)kid);
        if (o.ex && (kind == ASSIGN_RV || kind == INDEX_SET || kind == TRY_EMPLACE)) probe("rvalue_kept_on_failure");
        if (had && kind == TRY_EMPLACE) probe("rvalue_kept_on_present_key");
      }
    }
    const char* nm = "insertion";
    if (had) explain(st, o, "insertion or assignment with a key already present", true);
    if (o.ex) {
      explain(st, o, nm);
      bool partial = kind == INDEX_SET && false;
      (void)partial;
      if (t.size() != s.m.m.size()) violation("*", "failed-insert-changed-tree", "a failed insertion of #%lld changed size() from %zu to %zu", (long long)kid, s.m.m.size(), t.size());
      check_held(held, "failed insertion", "C02,C03");
      check_full(i, "after a failed insertion");
      check_lookup(i, kid, "after a failed insertion");
      probe(o.ex == 1 ? "failed_insert_oom" : "failed_insert_user");
      if (t.size() > L) probe("failed_insert_multilevel");
      return;
    }
    // success
    uint64_t nv = kind == INDEX ? 0 : vid;
    if (had) {
      if (kind == ASSIGN || kind == ASSIGN_RV || kind == INDEX_SET) s.m.set(f, vid);
      if ((kind == TRY_EMPLACE || kind == TRY_EMPLACE2) && VP::tracked)
        SIM_CHECK(obj.val_ctor == ctor0 && obj.val_copy == copy0, "C03,C01", "needless-construction", "try_emplace on an existing key constructed a value");
    } else {
      s.m.insert(rk, kid, nv);
    }
    if (hasins && ins == had) violation("*", "wrong-insert-flag", "insertion of #%lld reported inserted=%d although the key was %s", (long long)kid, (int)ins, had ? "present" : "absent");
    if (!retok) violation("*", "wrong-insert-iterator", "insertion of #%lld returned end()", (long long)kid);
    auto m = s.m.m.find(rk);
    if (gotk && KP::kid(*gotk) != m->second.kid) violation("*", "wrong-insert-iterator", "insertion of #%lld returned a position holding #%lld", (long long)kid, (long long)KP::kid(*gotk));
    if (gotv && VP::id(*gotv) != m->second.vid) violation("*", "wrong-insert-value", "insertion of #%lld yields value %llu, expected %llu", (long long)kid, (unsigned long long)VP::id(*gotv), (unsigned long long)m->second.vid);
    ev((uint64_t)kid * 31 + vid + ins);
  }
  // an erasure that failed has removed nothing (more)
  void failed_erase(const Step& st, const Outcome& o, int64_t i, int64_t kid) {
    explain(st, o, "erasure", true);
    probe(o.ex == 1 ? "failed_erase_oom" : "failed_erase_user");
    if (S(i).t->size() != S(i).m.m.size()) violation("*", "failed-erase-changed-tree", "a failed erasure of #%lld changed size() from %zu to %zu", (long long)kid, S(i).m.m.size(), S(i).t->size());
    check_full(i, "after a failed erasure");
    check_lookup(i, kid, "after a failed erasure");
  }
  // Arguments that refer to elements of the tree itself
  void do_alias(const Step& st, int64_t i) {
    Slot& s = S(i);
    Tree& t = *s.t;
    if (s.m.m.empty()) return;
    auto e = nth(s.m, st.c);
    int64_t ekid = e->second.kid, kid = K(st.a), rk = KP::rank(kid);
    uint64_t evid = e->second.vid, fresh_id = fresh();
    auto f = s.m.m.find(rk);
    bool had = f != s.m.m.end();
    Key ek = KP::make(ekid), k = KP::make(kid);
    Value v = VP::make(fresh_id);
    It pos;
    { Sut sut; pos = t.find(ek); if (pos == t.end()) violation("*", "wrong-lookup", "find(#%lld) misses a present key", (long long)ekid); }
    bool ins = false, chk = true; size_t er = 99;
    const Key* gk = nullptr; const Value* gv = nullptr;
    auto take = [&](auto r) { ins = r.second; gk = &r.first->first; gv = &r.first->second; };
    int kind = (int)(st.b % 9);
    Outcome o = call(st, [&] {
      const Key& rkey = pos->first; const Value& rval = pos->second;
      switch (kind) {
        case 0: take(t.insert(k, rval)); break;
        case 1: take(t.insert_or_assign(k, rval)); break;
        case 2: take(t.try_emplace(k, rval)); break;
        case 3: take(t.emplace(k, rval)); break;
        case 4: { auto it = t.emplace_hint(pos, k, rval); gk = &it->first; gv = &it->second; chk = false; break; }
        case 5: take(t.insert_or_assign(rkey, v)); break;
        case 6: take(t.insert(rkey, rval)); break;
        case 7: t[rkey] = v; chk = false; break;
        default: er = t.erase(rkey); break;
      }
    });
    if (kind >= 5 || had) explain(st, o, "an operation given references into the tree", true);
    if (o.ex) {
      explain(st, o, "an operation given references into the tree");
      check_full(i, "after a failed operation given references into the tree");
      check_lookup(i, kid, "after a failed operation given references into the tree");
      return;
    }
    if (kind <= 4) {
      if (had) { if (kind == 1) s.m.set(f, evid); } else s.m.insert(rk, kid, evid);
      auto m = s.m.m.find(rk);
      if ((chk && ins == had) || KP::kid(*gk) != m->second.kid || VP::id(*gv) != m->second.vid) violation("*", "wrong-alias-insert", "inserting #%lld with the value of element #%lld gave the wrong result", (long long)kid, (long long)ekid);
    } else if (kind == 5 || kind == 7) { s.m.set(e, fresh_id); if (chk && ins) violation("*", "wrong-insert-flag", "assigning through the key of a present element reported an insertion"); }
    else if (kind == 6) { if (ins) violation("*", "wrong-insert-flag", "inserting a copy of a present element reported an insertion"); }
    else { if (er != 1) violation("*", "wrong-erase-count", "erasing by a reference to the element's own key returned %zu", er); s.m.erase(e); }
    if (kind <= 7) probe("aliased_arguments");
  }
  void check_succ(Slot& s, It ret, typename std::map<int64_t, Model::E>::iterator nx, const char* what) {
    Tree& t = *s.t;
    NoSut ns;
    if (nx == s.m.m.end()) {
      Sut sut;
      if (!(ret == t.end())) violation("*", "wrong-successor", "%s of the last element did not return end()", what);
      return;
    }
    Key k = KP::make(nx->second.kid);
    Sut sut;
    if (ret == t.end()) violation("*", "wrong-successor", "%s returned end() instead of the position of #%lld", what, (long long)nx->second.kid);
    check_elem(s, nx->second, ret->first, ret->second, what);
    if (!(ret == t.find(k))) violation("*", "wrong-successor", "%s returned an iterator that does not equal the position of its element #%lld", what, (long long)nx->second.kid);
  }
  void adopt(int64_t i, const Model& old, const Model* src, const char* what) {
    // after a failed copy assignment or clear: any valid tree made of old/source elements
    Slot& s = S(i);
    Model nm;
    {
      Sut sut;
      size_t n = s.t->size(), c = 0;
      int64_t last = INT64_MIN;
      g.step_limit = g.steps + 40000000;
      for (auto it = s.t->begin(); it != s.t->end(); ++it, ++c) {
        int64_t kid = KP::kid(it->first); uint64_t vid = VP::id(it->second);
        NoSut ns;
        if (c > n) violation("*", "failed-assign-damage", "%s: iteration does not end", what);
        int64_t rk = KP::rank(kid);
        auto from = [&](const Model& m) { auto f = m.m.find(rk); return f != m.m.end() && f->second.kid == kid && f->second.vid == vid; };
        if (!from(old) && !(src && from(*src))) violation("*", "failed-assign-damage", "%s: element #%lld/%llu belongs to neither tree", what, (long long)kid, (unsigned long long)vid);
        if (c && rk <= last) violation("*", "failed-assign-damage", "%s: elements out of order", what);
        last = rk;
        nm.insert(rk, kid, vid);
      }
      g.step_limit = 0;
    }
    s.m = nm;
    check_full(i, what);
    check_lookup(i, 0, what);
  }

  // What was obtained before a step that changes no membership is still good
  // after it.
  struct Kept { std::vector<Held> h; std::vector<int64_t> kids; };
  std::vector<int64_t> kids(const Slot& s) { std::vector<int64_t> v; for (auto& kv : s.m.m) v.push_back(kv.second.kid); return v; }
  void exec(const Step& st, int64_t i, int64_t u) {
    if (!on("C27")) { exec1(st, i, u); return; }
    std::vector<Kept> k(slots.size());
    for (size_t j = 0; j < slots.size(); ++j) { k[j].h = hold((int64_t)j, st.a + (int64_t)j); k[j].kids = kids(slots[j]); }
    exec1(st, i, u);
    for (size_t j = 0; j < slots.size(); ++j) {
      Slot& s = slots[j];
      const bool target = (int64_t)j == i && (st.op == T_NEW || st.op == T_DESTROY || st.op == T_COPY || (st.op == T_COPY_ASSIGN && i != u) || st.op == T_RANGE_CTOR || st.op == T_LIST_CTOR);
      const bool moved = st.op == T_MOVE || st.op == T_MOVE_ASSIGN || st.op == T_SWAP;  // another property
      if (!s.t || k[j].h.empty() || ((int64_t)j == i && target) || (((int64_t)j == i || (int64_t)j == u) && moved) || st.fk || kids(s) != k[j].kids) continue;
      for (auto& x : k[j].h) x.e.vid = s.m.m.find(KP::rank(x.e.kid))->second.vid;
      check_held(k[j].h, "an operation that neither inserted nor erased", "C27");
      probe((int64_t)j == i ? "kept_handles" : "kept_handles_other");
      if ((int64_t)j == i && s.m.m.size() >= L && (st.op >= T_INSERT && st.op <= T_INDEX_SET)) probe("kept_over_overwrite");
    }
  }
  // ---- one step.  i,u are slot numbers local to this set.
  void exec1(const Step& st, int64_t i, int64_t u) {
    Slot& s = S(i);
    int dom = (int)((uint64_t)st.b % (uint64_t)ndom);
    refused0 = refused();
    switch (st.op) {
      case T_NEW: make_empty(i, dom, st); break;
      case T_DESTROY: destroy(i); break;
      case T_INSERT: case T_INSERT_PAIR: case T_EMPLACE: case T_EMPLACE_HINT: case T_TRY_EMPLACE: case T_TRY_EMPLACE2:
      case T_ASSIGN: case T_ASSIGN_RV: case T_INDEX: case T_INDEX_SET:
        if (need(i, dom)) do_insert(st, i, (InsKind)(st.op - T_INSERT), K(st.a), fresh());
        break;
      case T_ALIAS: if (s.t) do_alias(st, i); break;
      case T_FILL: {
        if (!need(i, dom)) break;
        int64_t n = st.b, k = st.a;
        for (int64_t j = 0; j < n; ++j, k += st.c) {
          Step one = st; if (j + 1 < n) { one.fk = 0; }
          do_insert(one, i, (InsKind)((uint64_t)(k + j) % 3 == 0 ? TRY_EMPLACE : (uint64_t)(k + j) % 3 == 1 ? INS : ASSIGN), K(k), fresh());
        }
        break;
      }
      case T_ERASE: {
        if (!need(i, dom)) break;
        Key k = KP::make(K(st.a));
        size_t r = 99;
        Outcome o = call(st, [&] { r = s.t->erase(k); });
        if (o.ex) { failed_erase(st, o, i, K(st.a)); break; }
        explain(st, o, "erasure", true);
        auto f = s.m.m.find(KP::rank(K(st.a)));
        size_t want = f != s.m.m.end();
        if (want) s.m.erase(f);
        if (r != want) violation("*", "wrong-erase-count", "erase(#%lld) returned %zu, expected %zu", (long long)K(st.a), r, want);
        break;
      }
      case T_DRAIN: {
        if (!need(i, dom)) break;
        int64_t k = st.a;
        for (int64_t j = 0; j < st.b; ++j, k += st.c) {
          Key key = KP::make(K(k));
          size_t r = 99;
          Outcome o = call(st, [&] { r = s.t->erase(key); });
          if (o.ex) { failed_erase(st, o, i, K(k)); continue; }
          explain(st, o, "erasure", true);
          auto f = s.m.m.find(KP::rank(K(k)));
          size_t want = f != s.m.m.end();
          if (want) s.m.erase(f);
          if (r != want) violation("*", "wrong-erase-count", "erase(#%lld) returned %zu, expected %zu", (long long)K(k), r, want);
          if (on("C19")) { check_nodes("during a series of erasures"); if (j % 5 == 0) check_fill("during a series of erasures"); }
        }
        break;
      }
      case T_ERASE_IT: {
        if (!s.t || s.m.m.empty()) break;
        auto f = nth(s.m, st.a);
        Key k = KP::make(f->second.kid);
        It pos, ret;
        { Sut sut; pos = s.t->find(k); if (pos == s.t->end()) violation("*", "wrong-lookup", "find(#%lld) misses a present key", (long long)f->second.kid); }
        Outcome o = call(st, [&] { ret = s.t->erase(pos); });
        if (o.ex) { failed_erase(st, o, i, f->second.kid); break; }
        explain(st, o, "erasure", true);
        auto nx = s.m.erase(f);
        check_succ(s, ret, nx, "erase(iterator)");
        break;
      }
      case T_ERASE_RANGE: {
        if (!s.t) break;
        int64_t n = (int64_t)s.m.m.size();
        int64_t lo = n ? (int64_t)((uint64_t)st.a % (uint64_t)(n + 1)) : 0;
        int64_t len = n - lo > 0 ? (int64_t)((uint64_t)st.c % (uint64_t)(n - lo + 1)) : 0;
        if (st.b % 5 == 0) len = n - lo;
        It first, last, ret;
        {
          Sut sut;
          first = s.t->begin(); for (int64_t j = 0; j < lo; ++j) ++first;
          last = first; for (int64_t j = 0; j < len; ++j) ++last;
        }
        Outcome o = call(st, [&] { ret = s.t->erase(first, last); });
        auto m = s.m.m.begin(); std::advance(m, lo);
        if (o.ex) {  // some elements from the front of the range are gone, and only those
          size_t now = s.t->size();
          if (now > (size_t)n || (size_t)n - now > (size_t)len) violation("*", "failed-erase-changed-tree", "a failed erase(range) of %lld elements changed size() from %lld to %zu", (long long)len, (long long)n, now);
          for (size_t j = now; j < (size_t)n; ++j) m = s.m.erase(m);
          failed_erase(st, o, i, m == s.m.m.end() ? 0 : m->second.kid);
          break;
        }
        explain(st, o, "erasure", true);
        for (int64_t j = 0; j < len; ++j) m = s.m.erase(m);
        check_succ(s, ret, m, "erase(range)");
        break;
      }
      case T_ERASE_IF: {
        if (!s.t) break;
        // erase while iterating: every element visited exactly once
        auto m = s.m.m.begin();
        Step none; uint64_t salt = (uint64_t)st.c; int64_t mod = st.a % 7 + 2, keep = st.b % 3;
        auto pred = [&](int64_t kid) { return keep == 0 ? (int64_t)(mix64((uint64_t)kid ^ salt) % (uint64_t)mod) != 0 : keep == 1 ? kid % mod == 0 : (int64_t)(mix64((uint64_t)(kid / 9) ^ salt) % (uint64_t)mod) == 0; };
        g.step_limit = g.steps + 80000000;
        It it; { Sut sut; it = s.t->begin(); }
        for (;;) {
          bool e; { Sut sut; e = it == s.t->end(); }
          if (e) break;
          if (m == s.m.m.end()) violation("*", "erase-loop", "a selective-erase loop visits more elements than exist");
          int64_t kid; { Sut sut; check_elem(s, m->second, it->first, it->second, "selective-erase loop"); kid = m->second.kid; }
          if (pred(kid)) {
            int64_t rk = m->first;
            It pos = it;
            Outcome o = call(st, [&] { it = s.t->erase(pos); });
            if (o.ex) {  // nothing happened: find the element again and carry on without faults
              failed_erase(st, o, i, kid);
              m = s.m.m.find(rk);
              Key k = KP::make(kid);
              Sut sut; it = s.t->find(k); pos = it;
              if (it == s.t->end()) violation("*", "wrong-lookup", "find(#%lld) misses a present key", (long long)kid);
              call(none, [&] { it = s.t->erase(pos); });
            } else explain(st, o, "erasure", true);
            m = s.m.erase(m);
          } else { Sut sut; ++it; ++m; }
        }
        g.step_limit = 0;
        if (m != s.m.m.end()) violation("*", "erase-loop", "a selective-erase loop ends before key #%lld", (long long)m->second.kid);
        break;
      }
      case T_CLEAR: {
        if (!s.t) break;
        Model old = s.m;
        Outcome o = call(st, [&] { s.t->clear(); });
        explain(st, o, "clear", true);
        if (o.ex) { adopt(i, old, nullptr, "after a failed clear"); probe("failed_clear"); }
        else s.m.clear();
        break;
      }
      case T_WALK: {
        if (!s.t || s.m.m.empty()) break;
        int64_t n = (int64_t)s.m.m.size(), pos = (int64_t)((uint64_t)st.a % (uint64_t)(n + 1));
        auto m = s.m.m.begin(); std::advance(m, pos);
        Rng r((uint64_t)st.c);
        Key k{}; if (pos < n) k = KP::make(m->second.kid);
        Armed armed(st);
        Sut sut;
        It it = pos < n ? s.t->find(k) : s.t->end();
        int dir = 1, len = 0;
        for (int j = 0; j < 60; ++j) {
          if (len == 0) { dir = r.chance(1, 2) ? 1 : -1; len = (int)r.below(12) + 1; }
          --len;
          if (dir > 0 && pos < n) { if (r.chance(1, 2)) ++it; else { It o = it; if (!(it++ == o)) violation("*", "walk", "post-increment returns the wrong iterator"); } ++pos; ++m; }
          else if (dir < 0 && pos > 0) { if (r.chance(1, 2)) --it; else { It o = it; if (!(it-- == o)) violation("*", "walk", "post-decrement returns the wrong iterator"); } --pos; --m; }
          if (pos < n) check_elem(s, m->second, it->first, it->second, "mixed walk");
          if ((it == s.t->end()) != (pos == n) || (it == s.t->begin()) != (pos == 0)) violation("*", "walk", "mixed walk: comparison with begin()/end() is wrong at position %lld of %lld", (long long)pos, (long long)n);
        }
        break;
      }
      case T_RWALK: {
        if (!s.t || s.m.m.empty()) break;
        int64_t n = (int64_t)s.m.m.size(), pos = 0;
        auto m = s.m.m.rbegin();
        Rng r((uint64_t)st.c);
        Armed armed(st);
        Sut sut;
        auto it = s.t->rbegin();
        int dir = 1, len = 0;
        int64_t skip = (int64_t)((uint64_t)st.a % (uint64_t)n);
        for (int64_t j = 0; j < skip; ++j) { ++it; ++pos; ++m; }
        for (int j = 0; j < 60; ++j) {
          if (len == 0) { dir = r.chance(1, 2) ? 1 : -1; len = (int)r.below(12) + 1; }
          --len;
          if (dir > 0 && pos < n) { if (r.chance(1, 2)) ++it; else { auto o = it; if (!(it++ == o)) violation("*", "walk", "post-increment returns the wrong reverse iterator"); } ++pos; ++m; if (pos == n) { if (!(it == s.t->rend())) violation("*", "walk", "reverse walk past the first element is not rend()"); if (r.chance(1, 2)) it = s.t->rend(); } }
          else if (dir < 0 && pos > 0) { if (r.chance(1, 2)) --it; else { auto o = it; if (!(it-- == o)) violation("*", "walk", "post-decrement returns the wrong reverse iterator"); } --pos; --m; }
          if (pos < n) { auto ref = *it; check_elem(s, m->second, ref.first, ref.second, "mixed reverse walk"); if (&it->second != &ref.second) violation("*", "walk", "* and -> of a reverse iterator disagree"); }
          if ((it == s.t->rend()) != (pos == n) || (it == s.t->rbegin()) != (pos == 0)) violation("*", "walk", "mixed reverse walk: comparison with rbegin()/rend() is wrong");
        }
        break;
      }
      case T_SETVAL: {  // modify a value through an iterator
        if (!s.t || s.m.m.empty()) break;
        auto f = nth(s.m, st.a);
        uint64_t vid = fresh();
        Key k = KP::make(f->second.kid);
        { Value v = VP::make(vid); Armed armed(st); Sut sut; auto it = s.t->find(k); if (it == s.t->end()) violation("*", "wrong-lookup", "find(#%lld) misses a present key", (long long)f->second.kid); it->second = std::move(v); }
        s.m.set(f, vid);
        break;
      }
      case T_COPY: {  // slot t := copy of slot u
        if (i == u || !S(u).t) break;
        destroy(i);
        refused0 = refused();
        Outcome o = call(st, [&] { s.t = new (s.raw) Tree(static_cast<const Tree&>(*S(u).t)); });
        if (o.ex) { s.t = nullptr; explain(st, o, "copy construction"); probe("failed_copy"); check_full(u, "source of a failed copy"); check_lookup(u, st.a, "source of a failed copy"); break; }
        s.dom = S(u).dom; s.m = S(u).m;
        break;
      }
      case T_COPY_ASSIGN: {
        if (!s.t || !S(u).t) break;
        Model old = s.m;
        Outcome o = call(st, [&] { *s.t = static_cast<const Tree&>(*S(u).t); });
        if (o.ex) {
          explain(st, o, "copy assignment"); probe("failed_copy_assign");
          if (i != u) { check_full(u, "source of a failed copy assignment"); adopt(i, old, &S(u).m, "target of a failed copy assignment"); }
          else { check_full(i, "after a failed self-assignment"); }
          break;
        }
        s.m = S(u).m;
        break;
      }
      case T_MOVE: {
        if (i == u || !S(u).t) break;
        auto a = addrs(u);
        destroy(i);
        Outcome o = call(st, [&] { s.t = new (s.raw) Tree(std::move(*S(u).t)); });
        explain(st, o, "move construction", true);
        if (o.ex) violation("*", "move-failed", "move construction threw %s", kExNames[o.ex]);
        s.dom = S(u).dom; s.m = S(u).m; S(u).m.clear();
        check_addrs(i, a, "move construction");
        check_full(u, "moved-from tree");
        break;
      }
      case T_MOVE_ASSIGN: {
        if (!s.t || !S(u).t) break;
        if (i == u) { auto a = addrs(u); Tree* p = s.t; call(st, [&] { *s.t = std::move(*p); }); check_addrs(i, a, "self-move"); break; }
        bool hand = Doms::propagates || Doms::same(s.dom, S(u).dom);
        std::vector<Addr> a; if (hand) a = addrs(u);
        Model old = s.m;
        Outcome o = call(st, [&] { *s.t = std::move(*S(u).t); });
        if (hand) explain(st, o, "move assignment", true);
        if (o.ex) {
          if (hand) violation("*", "move-failed", "move assignment threw %s", kExNames[o.ex]);
          explain(st, o, "element-wise move assignment");
          adopt(i, old, &S(u).m, "target of a failed element-wise move assignment");
          if (on("C29")) {   // every element is whole in one of the two trees
            for (auto& kv : S(u).m.m) {
              NoSut ns;
              Key k = KP::make(kv.second.kid);
              auto whole = [&](Tree& t) { Sut sut; auto f = t.find(k); return f != t.end() && VP::ok(f->second) && VP::id(f->second) == kv.second.vid; };
              if (!whole(*s.t) && !whole(*S(u).t)) violation("C29", "element-lost", "after an element-wise move assignment that failed, element #%lld is in neither tree", (long long)kv.second.kid);
            }
            probe("failed_elementwise_move");
          }
          destroy(u);  // valid but unspecified
          break;
        }
        s.m = S(u).m; S(u).m.clear();
        if (Doms::propagates) s.dom = S(u).dom;
        if (hand) check_addrs(i, a, "move assignment");
        check_full(u, "moved-from tree");
        break;
      }
      case T_SWAP: {
        if (!s.t || !S(u).t) break;
        if (!Doms::swaps && !Doms::same(s.dom, S(u).dom)) break;  // undefined for such allocators
        auto a = addrs(i), b = addrs(u);
        Outcome o = call(st, [&] { s.t->swap(*S(u).t); });
        explain(st, o, "swap", true);
        if (o.ex) violation("*", "move-failed", "swap threw %s", kExNames[o.ex]);
        if (i != u) { std::swap(s.m, S(u).m); if (Doms::swaps) std::swap(s.dom, S(u).dom); }
        check_addrs(u, a, "swap"); check_addrs(i, b, "swap");
        break;
      }
      case T_RANGE_CTOR: case T_LIST_CTOR: {
        destroy(i);
        refused0 = refused();
        Model m;
        Outcome o;
        {
          std::vector<Pair> v;
          int64_t n = st.op == T_LIST_CTOR ? 5 : st.c % 120, k = st.a;
          int64_t stride = st.u % 7 - 3;
          for (int64_t j = 0; j < n; ++j, k += stride) {
            uint64_t vid = fresh();
            v.emplace_back(KP::make(K(k)), VP::make(vid));
            int64_t rk = KP::rank(K(k));
            if (!m.m.count(rk)) m.insert(rk, K(k), vid);
          }
          o = call(st, [&] {
            doms.ensure(dom);
            if (st.op == T_LIST_CTOR) s.t = new (s.raw) Tree({v[0], v[1], v[2], v[3], v[4]}, doms.template make<Key, Value>(dom));
            else if (st.b % 3 == 0) { size_t at = 0; s.t = new (s.raw) Tree(OnePass{&v, &at}, OnePass{&v, nullptr}, doms.template make<Key, Value>(dom)); }
            else s.t = new (s.raw) Tree(v.begin(), v.end(), doms.template make<Key, Value>(dom));
          });
          if (on("C20") || on("C29")) {   // the range is read only
            const uint64_t v0 = nextv - (uint64_t)v.size();
            for (size_t j = 0; j < v.size(); ++j) if (!VP::ok(v[j].second) || VP::id(v[j].second) != v0 + j + 1) SIM_CHECK(false, "C20,C29", "argument-consumed", "construction from a range changed an element of the range");
          }
        }
        if (o.ex) { s.t = nullptr; explain(st, o, "range construction"); probe("failed_range_ctor"); break; }
        s.dom = dom; s.m = m;
        break;
      }
      case T_LOOKUP:
        if (!s.t) break;
        if (st.fk) {  // a lookup that fails midway
          Key k = KP::make(K(st.a));
          const Tree& ct = *s.t;
          Outcome o = call(st, [&] {
            switch (st.b % 9) {
              case 0: (void)s.t->find(k); break;
              case 1: (void)ct.find(k); break;
              case 2: (void)ct.contains(k); break;
              case 3: (void)ct.count(k); break;
              case 4: (void)s.t->lower_bound(k); break;
              case 5: (void)s.t->upper_bound(k); break;
              case 6: (void)s.t->equal_range(k); break;
              case 7: (void)s.t->at(k); break;
              default: (void)ct.at(k); break;
            }
          });
          if (o.ex != 3 && (st.b % 9 < 7 || s.m.m.count(KP::rank(K(st.a))))) explain(st, o, "lookup", true);
          if (o.ex == 1 && st.b % 9 >= 7 && on("C28")) break;  // the exception of a missing key may need memory
          if (o.ex && !(o.ex == 3 && st.b % 9 >= 7 && !s.m.m.count(KP::rank(K(st.a))))) { explain(st, o, "lookup"); probe("failed_lookup"); check_full(i, "after a failed lookup"); }
        }
        for (int d = -1; d <= 1; ++d) check_key(i, K(st.a + d), "lookup");
        break;
      case T_DROP: if constexpr (Doms::pools) { Sut sut; doms.drop(dom); } break;
      case T_ENV: {
        if (st.a >= 0) os.reg_free = st.a * 4096;
        if (st.b >= 0) os.huge_free = st.b;
        if (st.a < 0 && st.b < 0) { os.reg_free = (int64_t)1 << 40; os.huge_free = 1 << 20; }
        break;
      }
      default: break;
    }
    if (i != u && S(u).t && (st.op == T_COPY || st.op == T_COPY_ASSIGN || st.op == T_MOVE || st.op == T_MOVE_ASSIGN || st.op == T_SWAP)) check_full(u, "other tree of a two-tree operation");
    if constexpr (Doms::kind == AK_SIM || Doms::kind == AK_SIM_NOPROP || Doms::kind == AK_POL || Doms::kind == AK_MULTI) {
      if (s.t && on("C05") && (st.op == T_MOVE || st.op == T_MOVE_ASSIGN || st.op == T_SWAP || st.op == T_COPY)) {
        Sut sut;
        if constexpr (Doms::kind == AK_SIM || Doms::kind == AK_SIM_NOPROP) {
          if (s.t->get_allocator().dom != &doms.d[(size_t)s.dom]) violation("C05", "allocator-not-carried", "the tree's allocator does not match the memory it holds");
        }
      }
    }
    check_full(i, "after the step");
  }
};

template <class C> struct TreeWorld {
  static void run(const World&, const Plan& p) {
    using Set = TreeSet<C>;
    int nd = (int)p.get("doms", 2), ns = (int)p.get("slots", 3);
    os.placement = (int)p.get("placement", 0);
    os.advise_fail = (int)p.get("advfail", 0);
    typename C::Doms* doms = nullptr;
    { Sut sut; doms = new (std::malloc(sizeof(typename C::Doms))) typename C::Doms(p, nd); }
    {
      Set set(*doms, p, ns, nd);
      int64_t full_every = p.get("lookup", 8);
      int idx = 0;
      for (const Step& st : p.steps) {
        set_step(idx, &st);
        int64_t i = st.t % ns, u = st.u % ns;
        ev((uint64_t)st.op * 1000003 + (uint64_t)i);
        set.exec(st, i, u);
        after(set, st, idx);
        if (full_every && idx % full_every == full_every - 1) for (int64_t j = 0; j < ns; ++j) { set.check_full(j, "periodic check"); set.check_lookup(j, st.a, "periodic lookup"); }
        ++idx;
      }
      set_step(idx, nullptr);
      os.reg_free = (int64_t)1 << 40; os.huge_free = 1 << 20;  // heal: everything must still work
      for (int64_t j = 0; j < ns; ++j) { set.check_full(j, "final check"); set.check_lookup(j, 7, "final lookup"); }
      // progress after the last fault: every surviving tree accepts an insertion and an erasure
      for (int64_t j = 0; j < ns; ++j) if (set.S(j).t) { Step s2; s2.op = T_INSERT; set.do_insert(s2, j, Set::INS, set.K(3 + j), set.fresh()); set.check_full(j, "insertion after faults stopped"); }
      int64_t order = p.get("order", 0);
      if (order % 2) { Sut sut; for (int d = 0; d < nd; ++d) doms->drop(d); }
      for (int64_t j = 0; j < ns; ++j) { int64_t k = order & 2 ? ns - 1 - j : j; set.destroy(k); for (int64_t q = 0; q < ns; ++q) if (on("C05,C13")) set.check_full(q, "after another tree was destroyed"); after(set, Step(), 0); }
    }
    { Sut sut; std::destroy_at(doms); }
    std::free((void*)doms);
    SIM_CHECK(ledger.m.empty(), "C04,C05,C20,C02,C03,C24", "node-leak", "%zu nodes never released after every tree was destroyed", ledger.m.size());
    ledger.m.clear();
  }
  template <class Set> static void after(Set& set, const Step& st, int) {
    if constexpr (C::VP::tracked) {
      uint64_t sum = 0; int64_t h = Set::g_holders(set.slots, sum);
      if (on("C04,C05,C20")) {
        SIM_CHECK(obj.holders == h, "C04,C05,C20", "value-retained", "%lld values are alive while the trees hold %lld elements (resources of removed elements retained, or elements lost)", (long long)obj.holders, (long long)h);
        SIM_CHECK(obj.holder_sum == sum, "C04,C05,C20", "value-identity", "the live values are not the ones the trees hold");
      }
    }
    if constexpr (std::is_same_v<typename C::KP::Key, TKey>) if (on("C04")) set.check_keys();
    if (on("C19,C04,C24")) set.check_nodes("after the step");
    if (on("C19,C24")) set.check_fill("after the step");
    set.check_policy("after the step");
    if (on("C16") && C::Doms::kind == AK_POL) { typename Set::Uses m; set.pool_uses(m); Set::check_uses(m, "after the step"); }
    set.shape(st.op);
  }
};

// Trees of two different types drawing memory from the same pools.
template <class C1, class C2> struct MixWorld {
  static_assert(std::is_same_v<typename C1::Doms, typename C2::Doms>);
  using Doms = typename C1::Doms;
  using S1 = TreeSet<C1>; using S2 = TreeSet<C2>;
  static void after(S1& a, S2& b, const Step& st) {
    uint64_t sum = 0; int64_t h = 0;
    if constexpr (C1::VP::tracked) h += S1::g_holders(a.slots, sum);
    if constexpr (C2::VP::tracked) h += S2::g_holders(b.slots, sum);
    SIM_CHECK(obj.holders == h, "C04,C05,C20", "value-retained", "%lld values are alive while the trees hold %lld elements", (long long)obj.holders, (long long)h);
    SIM_CHECK(obj.holder_sum == sum, "C04,C05,C20", "value-identity", "the live values are not the ones the trees hold");
    a.check_policy("after the step"); b.check_policy("after the step");
    if (on("C16") && Doms::kind == AK_POL) {
      typename S1::Uses m; a.pool_uses(m);
      typename S2::Uses m2; b.pool_uses(m2);
      for (auto& kv : m2) { auto& x = m[kv.first]; x.lo += kv.second.lo; x.hi += kv.second.hi; x.leaf |= kv.second.leaf; x.internal |= kv.second.internal; }
      S1::check_uses(m, "after the step");
    }
    a.shape(st.op);
  }
  static void run(const World&, const Plan& p) {
    int nd = (int)p.get("doms", 2), ns = (int)p.get("slots", 2);
    os.placement = (int)p.get("placement", 0);
    os.advise_fail = (int)p.get("advfail", 0);
    Doms* doms = nullptr;
    { Sut sut; doms = new (std::malloc(sizeof(Doms))) Doms(p, nd); }
    {
      S1 a(*doms, p, ns, nd); S2 b(*doms, p, ns, nd);
      auto each = [&](auto&& f) { for (int64_t j = 0; j < ns; ++j) { f(a, j); f(b, j); } };
      int64_t every = p.get("lookup", 8);
      int idx = 0;
      for (const Step& st : p.steps) {
        set_step(idx, &st);
        int64_t i = st.t / 2 % ns, u = st.u / 2 % ns;
        ev((uint64_t)st.op * 1000003 + (uint64_t)st.t);
        if (st.t % 2) b.exec(st, i, u); else a.exec(st, i, u);
        after(a, b, st);
        // nothing done to one tree may be visible in any other
        each([&](auto& s, int64_t j) { s.check_full(j, "another tree sharing the pools"); });
        if (every && idx % every == every - 1) each([&](auto& s, int64_t j) { s.check_lookup(j, st.a, "periodic lookup"); });
        ++idx;
      }
      set_step(idx, nullptr);
      os.reg_free = (int64_t)1 << 40; os.huge_free = 1 << 20;
      each([&](auto& s, int64_t j) { s.check_full(j, "final check"); s.check_lookup(j, 7, "final lookup"); });
      each([&](auto& s, int64_t j) { if (s.S(j).t) { Step s2; s2.op = T_INSERT; s.do_insert(s2, j, std::remove_reference_t<decltype(s)>::INS, s.K(3 + j), s.fresh()); s.check_full(j, "insertion after faults stopped"); } });
      int64_t order = p.get("order", 0);
      if (order % 2) { Sut sut; for (int d = 0; d < nd; ++d) doms->drop(d); }
      for (int64_t j = 0; j < ns; ++j) {
        int64_t k = order & 2 ? ns - 1 - j : j;
        a.destroy(k); after(a, b, Step());
        each([&](auto& s, int64_t q) { s.check_full(q, "after another tree was destroyed"); });
        b.destroy(k); after(a, b, Step());
        each([&](auto& s, int64_t q) { s.check_full(q, "after another tree was destroyed"); });
      }
    }
    { Sut sut; std::destroy_at(doms); }
    std::free((void*)doms);
  }
};
} }  // namespace sim
