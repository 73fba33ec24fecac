// DenseWorld: several fixed-capacity array maps of different capacity, driven
// by a plan of operations and faults in user types, checked after every step
// against bounded sorted-map models.
#pragma once
#include <fast_containers/dense_map.hpp>

#include <optional>
#include <stdexcept>

#include "types.hpp"

namespace sim { inline namespace SIM_NS {
namespace fc = kressler::fast_containers;

enum DenseOp { D_NEW, D_DESTROY, D_INSERT, D_HINT, D_HINT_RV, D_TRY, D_TRY2, D_ASSIGN, D_ASSIGN_RV, D_INDEX, D_INDEX_SET, D_ALIAS, D_FILL, D_ERASE, D_ERASE_IT, D_ERASE_IF, D_DRAIN, D_CLEAR, D_SPLIT, D_PREFIX, D_SUFFIX, D_COPY, D_COPY_ASSIGN, D_MOVE, D_MOVE_ASSIGN, D_WALK, D_UPDATE_KEY, D_SETVAL, D_LOOKUP, D_COUNT };
inline const std::vector<const char*>& dense_ops() {
  static const std::vector<const char*> v = {"new", "destroy", "insert", "hint", "hint_rv", "try", "try2", "assign", "assign_rv", "index", "index_set", "alias", "fill", "erase", "erase_it", "erase_if", "drain", "clear", "split", "prefix", "suffix", "copy", "copy_assign", "move", "move_assign", "walk", "update_key", "setval", "lookup"};
  return v;
}
struct DenseInfo { bool vthrow, kthrow, strs; int64_t maxkeys; int caps[3]; };

inline void gen_dense(const DenseInfo& di, Rng& r, const std::string& prop, bool faults, int size, Plan& p) {
  int64_t cap = std::max({di.caps[0], di.caps[1], di.caps[2]});
  int64_t keys = std::min<int64_t>(di.maxkeys, r.chance(1, 3) ? r.range(4, 24) : r.range(8, cap * 3 + 8));
  p.set("keys", keys); p.set("keymode", (int64_t)r.below(5)); p.set("slots", 6);
  std::vector<int> w(D_COUNT, 4);
  auto set = [&](std::initializer_list<std::pair<int, int>> l) { for (auto& x : l) w[(size_t)x.first] = x.second; };
  set({{D_NEW, 1}, {D_DESTROY, 1}, {D_FILL, 12}, {D_DRAIN, 5}, {D_INSERT, 8}, {D_SPLIT, 10}, {D_PREFIX, 12}, {D_SUFFIX, 12}, {D_CLEAR, 1}, {D_ERASE, 6}, {D_COPY, 2}, {D_COPY_ASSIGN, 3}, {D_MOVE, 2}, {D_MOVE_ASSIGN, 3}, {D_WALK, 2}, {D_UPDATE_KEY, 2}, {D_SETVAL, 1}});
  if (prop == "C03") set({{D_SPLIT, 3}, {D_PREFIX, 3}, {D_SUFFIX, 3}, {D_COPY, 1}, {D_COPY_ASSIGN, 1}, {D_INSERT, 14}, {D_TRY, 10}, {D_ASSIGN, 10}, {D_HINT, 8}, {D_INDEX_SET, 8}});
  if (prop == "C27") set({{D_ALIAS, 30}, {D_INSERT, 10}, {D_ASSIGN, 10}, {D_TRY, 8}, {D_HINT, 6}, {D_INDEX_SET, 8}, {D_SPLIT, 3}, {D_PREFIX, 4}, {D_SUFFIX, 4}});
  if (prop == "C29") set({{D_TRY, 16}, {D_HINT_RV, 10}, {D_ASSIGN_RV, 12}, {D_INDEX_SET, 8}, {D_ASSIGN, 4}, {D_SPLIT, 3}, {D_PREFIX, 4}, {D_SUFFIX, 4}});
  if (prop == "C26") set({{D_SPLIT, 3}, {D_PREFIX, 4}, {D_SUFFIX, 4}, {D_COPY, 1}, {D_COPY_ASSIGN, 1}, {D_INSERT, 12}, {D_TRY, 10}, {D_ASSIGN, 10}, {D_HINT, 6}, {D_INDEX_SET, 8}, {D_ERASE, 14}, {D_LOOKUP, 6}});
  if (r.chance(2, 3)) for (auto& x : w) if (r.chance(1, 4)) x = 0;
  if (!w[D_FILL]) w[D_FILL] = 4;
  std::vector<int> fk;
  if (faults || prop == "C03" || prop == "C26" || prop == "C29") {
    if (di.vthrow && !di.strs) { fk.push_back(F_VCOPY); if (r.chance(1, 2)) fk.push_back(F_VCTOR); if (r.chance(1, 2)) fk.push_back(F_VDEF); }
    if (di.kthrow && !di.strs) { fk.push_back(F_KCOPY); if (r.chance(1, 3)) fk.push_back(F_KDEF); }
    if (di.strs) fk.push_back(F_HEAP);
    if (prop == "C26") { fk.clear(); fk.push_back(F_CMP); }
  }
  int frate = (int)r.range(2, 7);
  int nsteps = (int)(r.chance(1, 3) ? r.range(6, 25) : r.range(25, 110) * (size > 1 ? 2 : 1));
  bool lanes = r.chance(1, 2);  // every map prefers a key range of its own, so that transfers are possible
  int64_t cur = r.range(0, keys - 1);
  for (int i = 0; i < nsteps; ++i) {
    Step s;
    s.op = i < 3 && r.chance(3, 4) ? (int)D_FILL : r.weighted(w);
    s.t = (int64_t)r.below(6); s.u = (int64_t)r.below(6);
    auto key = [&]() -> int64_t {
      if (lanes && r.chance(4, 5)) { int64_t lo = keys * s.t / 6, hi = std::max(lo, keys * (s.t + 1) / 6 - 1); return r.range(lo, hi); }
      if (r.chance(1, 3)) return cur = (cur + 1) % keys;
      return r.range(0, keys - 1);
    };
    s.a = key(); s.b = (int64_t)r.below(1000); s.c = (int64_t)r.below(1000);
    switch (s.op) {
      case D_FILL: s.b = r.chance(1, 3) ? r.range(1, cap + 2) : r.range(1, std::max<int64_t>(2, keys / 5)); { static const int64_t st[] = {1, 1, 1, -1, 2, 3, -3, 7}; s.c = st[r.below(8)]; } break;
      case D_DRAIN: s.b = r.range(1, cap); { static const int64_t st[] = {1, -1, 2, 3}; s.c = st[r.below(4)]; } break;
      case D_SPLIT: s.a = (int64_t)r.below(1000); break;
      case D_PREFIX: case D_SUFFIX: s.a = r.chance(1, 6) ? (int64_t)r.below((uint64_t)cap + 4) + 100000 : (int64_t)r.below((uint64_t)cap + 1); break;
      default: break;
    }
    bool can = (s.op >= D_INSERT && s.op <= D_FILL) || s.op == D_COPY || s.op == D_COPY_ASSIGN || s.op == D_NEW || s.op == D_UPDATE_KEY;
    if (prop == "C26" && (s.op == D_ERASE || s.op == D_DRAIN || s.op == D_LOOKUP)) can = true;
    if (!fk.empty() && can && r.below((uint64_t)frate) == 0) {
      Step clean = s;
      s.fk = r.pick(fk);
      int64_t span = s.op == D_COPY || s.op == D_COPY_ASSIGN || s.op == D_NEW || s.fk == F_KDEF || s.fk == F_VDEF ? cap * 2 : 4;
      if (r.chance(1, 2)) span = std::max<int64_t>(1, span / 4);
      s.fn = (int)r.range(1, span);
      p.steps.push_back(s);
      if (s.op == D_FILL) { clean.a = clean.a + clean.c * (clean.b - 1); clean.op = D_INSERT; }
      if (r.chance(1, 2)) p.steps.push_back(clean);
      continue;
    }
    p.steps.push_back(s);
  }
}

template <class KP_, class VP_, fc::SearchMode M_, size_t L0, size_t L1, size_t L2> struct DenseCfg {
  using KP = KP_; using VP = VP_;
  static constexpr fc::SearchMode M = M_;
  static constexpr size_t caps[3] = {L0, L1, L2};
};

template <class C> struct DenseWorld {
  using KP = typename C::KP; using VP = typename C::VP;
  using Key = typename KP::Key; using Value = typename VP::Value; using Cmp = typename KP::Cmp;
  template <size_t N> using Map = fc::dense_map<Key, Value, N, Cmp, C::M>;
  using M0 = Map<C::caps[0]>; using M1 = Map<C::caps[1]>; using M2 = Map<C::caps[2]>;
  struct E { int64_t kid; uint64_t vid; };
  using Model = std::map<int64_t, E>;
  using MIt = typename Model::iterator;
  struct Slot { int cls; void* raw; void* obj = nullptr; Model m; };
  static constexpr int NS = 6;
  std::vector<Slot> slots;
  int64_t nkeys;
  uint64_t nextv = 0;
  int64_t K(int64_t a) const { return ((a % nkeys) + nkeys) % nkeys; }
  uint64_t fresh() { return ++nextv; }
  static size_t cap_of(int cls) { return C::caps[cls]; }
  template <class F> void with(int64_t i, F&& f) {
    Slot& s = slots[(size_t)i];
    if (!s.obj) return;
    switch (s.cls) { case 0: f(*(M0*)s.obj); break; case 1: f(*(M1*)s.obj); break; default: f(*(M2*)s.obj); }
  }
  template <class F> void typed(int64_t i, F&& f) {
    Slot& s = slots[(size_t)i];
    switch (s.cls) { case 0: f((M0*)nullptr); break; case 1: f((M1*)nullptr); break; default: f((M2*)nullptr); }
  }
  explicit DenseWorld(const Plan& p) {
    nkeys = std::max<int64_t>(1, std::min<int64_t>(p.get("keys", 32), KP::max_keys()));
    KP::setup(nkeys, p.get("keymode", 0));
    for (int i = 0; i < NS; ++i) slots.push_back(Slot{i % 3, raw_alloc(std::max({alignof(M0), alignof(M1), alignof(M2)}), std::max({sizeof(M0), sizeof(M1), sizeof(M2)})), nullptr, {}});
  }
  ~DenseWorld() { for (auto& s : slots) raw_free(s.raw); }

  enum { X_NONE, X_OOM, X_USER, X_RUNTIME, X_OTHER };
  static const char* xname(int x) { static const char* n[] = {"nothing", "std::bad_alloc", "the user exception", "std::runtime_error", "another exception"}; return n[x]; }
  template <class F> int call(const Step& s, F&& f) {
    int x = X_NONE;
    arm(s);
    g.step_limit = g.steps + 4000000;
    {
      Sut sut;
      try { f(); }
      catch (const std::bad_alloc&) { x = X_OOM; }
      catch (const SimThrow&) { x = X_USER; }
      catch (const std::runtime_error&) { x = X_RUNTIME; }
      catch (...) { x = X_OTHER; }
    }
    g.step_limit = 0;
    disarm();
    ev(0xC0DE + (uint64_t)x);
    return x;
  }
  // true: an injected failure explains x
  bool injected(const Step& s, int x) { return g.ffired && ((x == X_USER && s.fk >= F_VCOPY) || (x == X_OOM && s.fk == F_HEAP)); }

  template <class It> void elem(It it, const E& e, const char* where) {
    const auto ref = *it;
    if (KP::kid(ref.first) != e.kid) violation("*", "wrong-key", "%s: key #%lld where #%lld was expected", where, (long long)KP::kid(ref.first), (long long)e.kid);
    if (!VP::ok(ref.second) || VP::id(ref.second) != e.vid) violation("*", "wrong-value", "%s: value %llu where %llu was expected for key #%lld", where, (unsigned long long)VP::id(ref.second), (unsigned long long)e.vid, (long long)e.kid);
    if (&it->first != &ref.first || &it->second != &ref.second || &it.value_ref() != &ref.second) violation("*", "wrong-reference", "%s: dereferencing by *, -> and value_ref() disagree", where);
  }
  void check(int64_t i, const char* where) {
    with(i, [&](auto& m) {
      Slot& s = slots[(size_t)i];
      const auto& cm = m;
      size_t n = s.m.size();
      Sut sut;
      g.step_limit = g.steps + 4000000;
      if (cm.size() != n || cm.empty() != (n == 0) || cm.full() != (n == cap_of(s.cls)) || cm.capacity() != cap_of(s.cls)) violation("*", "wrong-size", "%s: size() is %zu (empty %d, full %d), expected %zu of %zu", where, cm.size(), (int)cm.empty(), (int)cm.full(), n, cap_of(s.cls));
      if ((size_t)(cm.end() - cm.begin()) != n || (size_t)(m.end() - m.begin()) != n) violation("*", "wrong-size", "%s: end()-begin() is not size()", where);
      auto it = m.begin();
      for (auto& kv : s.m) { elem(it, kv.second, where); ++it; }
      if (!(it == m.end())) violation("*", "extra-element", "%s: iteration does not end after %zu elements", where, n);
      auto ci = cm.end();
      for (auto r = s.m.rbegin(); r != s.m.rend(); ++r) { --ci; elem(ci, r->second, where); }
      if (!(ci == cm.cbegin())) violation("*", "backward-walk", "%s: decrementing from end() does not reach begin()", where);
      auto ri = cm.crbegin();
      for (auto r = s.m.rbegin(); r != s.m.rend(); ++r, ++ri) if (ri == cm.crend() || KP::kid((*ri).first) != r->second.kid) violation("*", "reverse-walk", "%s: reverse iteration disagrees with the contents", where);
      g.step_limit = 0;
      ev(n * 31 + (n ? (uint64_t)s.m.rbegin()->second.kid : 0));
    });
  }
  void lookup(int64_t i, int64_t kid, const char* where) {
    with(i, [&](auto& m) {
      Slot& s = slots[(size_t)i];
      const auto& cm = m;
      NoSut ns;
      Key k = KP::make(kid);
      int64_t rk = KP::rank(kid);
      auto f = s.m.find(rk); auto lb = s.m.lower_bound(rk), ub = s.m.upper_bound(rk);
      auto idx = [&](MIt x) { return (size_t)std::distance(s.m.begin(), x); };
      Sut sut;
      auto pos = [&](auto it, auto b, auto e, MIt want, const char* op) {
        size_t w = want == s.m.end() && op[0] == 'f' ? s.m.size() : idx(want);
        if ((size_t)(it - b) != w || it.index() != w) violation("*", "wrong-lookup", "%s: %s(#%lld) is position %zu, expected %zu of %zu", where, op, (long long)kid, (size_t)(it - b), w, s.m.size());
        if ((it == e) != (w == s.m.size())) violation("*", "wrong-lookup", "%s: %s(#%lld) compares wrongly with end()", where, op, (long long)kid);
        if (w < s.m.size()) elem(it, want->second, op);
      };
      pos(m.find(k), m.begin(), m.end(), f, "find");
      pos(cm.find(k), cm.begin(), cm.end(), f, "find const");
      pos(m.lower_bound(k), m.begin(), m.end(), lb, "lower_bound");
      pos(cm.lower_bound(k), cm.begin(), cm.end(), lb, "lower_bound const");
      pos(m.upper_bound(k), m.begin(), m.end(), ub, "upper_bound");
      pos(cm.upper_bound(k), cm.begin(), cm.end(), ub, "upper_bound const");
    });
  }
  void lookups(int64_t i, int64_t around, const char* where) {
    int64_t step = nkeys > 64 && !on("C21") ? 3 : 1;
    for (int64_t k = ((around % step) + step) % step; k < nkeys; k += step) lookup(i, k, where);
  }
  void destroy(int64_t i) {
    Slot& s = slots[(size_t)i];
    with(i, [&](auto& m) { Step none; call(none, [&] { std::destroy_at(&m); }); });
    s.obj = nullptr; s.m.clear();
  }
  bool make(int64_t i, const Step& st) {
    destroy(i);
    Slot& s = slots[(size_t)i];
    int x = 0;
    typed(i, [&](auto* tag) { using T = std::remove_pointer_t<decltype(tag)>; x = call(st, [&] { s.obj = new (s.raw) T(); }); });
    if (x) { s.obj = nullptr; if (!injected(st, x)) violation("*", "unexpected-exception", "default construction threw %s", xname(x)); return false; }
    return true;
  }
  bool need(int64_t i) { if (slots[(size_t)i].obj) return true; Step none; return make(i, none); }

  void insert(const Step& st, int64_t i, int op, int64_t kid, uint64_t vid) {
    Slot& s = slots[(size_t)i];
    if (op == D_TRY2 && !VP::tracked) op = D_TRY;
    int64_t rk = KP::rank(kid);
    auto f = s.m.find(rk);
    bool had = f != s.m.end(), full = s.m.size() == cap_of(s.cls);
    with(i, [&](auto& m) {
      using Mp = std::remove_reference_t<decltype(m)>;
      Key k = KP::make(kid); Value v = VP::make(vid);
      uint64_t want = op == D_INDEX ? 0 : vid;
      // an argument that refers to an element of the same map
      MIt src = s.m.end();
      if (op == D_ALIAS) { if (s.m.empty()) op = D_INSERT; else { src = s.m.begin(); std::advance(src, st.b % (int64_t)s.m.size()); want = src->second.vid; } }
      typename Mp::iterator hint = m.begin();
      if (op == D_HINT || op == D_HINT_RV) { Sut sut; hint = m.lower_bound(k); }
      std::optional<typename Mp::iterator> it; bool ins = false, hasins = true; const Value* got = nullptr;
      uint64_t ctor0 = obj.val_ctor, copy0 = obj.val_copy;
      bool assigned = false;
      int x = call(st, [&] {
        auto take = [&](auto r) { it = r.first; ins = r.second; };
        switch (op) {
          case D_HINT: take(m.insert_hint(hint, std::as_const(k), std::as_const(v))); break;
          case D_HINT_RV: take(m.insert_hint(hint, std::move(k), std::move(v))); break;
          case D_TRY: if (st.c % 3 == 1) take(m.try_emplace(k, std::move(v))); else if constexpr (VP::tracked) take(m.try_emplace(k, vid)); else take(m.try_emplace(k, v)); break;
          case D_TRY2: if constexpr (VP::tracked) take(m.try_emplace(k, vid / 2, vid - vid / 2)); break;
          case D_ASSIGN: take(m.insert_or_assign(k, std::as_const(v))); assigned = true; break;
          case D_ASSIGN_RV: take(m.insert_or_assign(k, std::move(v))); assigned = true; break;
          case D_INDEX: got = &m[k]; hasins = false; break;
          case D_INDEX_SET: m[k] = std::move(v); hasins = false; assigned = true; break;
          case D_ALIAS: { auto pos = m.begin() + std::distance(s.m.begin(), src); if (st.c % 2) { take(m.insert_or_assign(k, std::as_const(pos.value_ref()))); assigned = true; } else take(m.insert(k, pos->second)); break; }
          default: take(m.insert(k, v)); break;
        }
      });
      if (on("C29") && st.fk != F_CMP) {
        // what was not inserted or assigned is still the caller's
        const bool used = !x && (op == D_ASSIGN_RV || op == D_INDEX_SET || ((op == D_TRY || op == D_HINT_RV) && !had));
        if (!used && (KP::kid(k) != kid || !VP::ok(v) || VP::id(v) != vid)) violation("C29", "argument-consumed", "%s of #%lld took an argument without storing it", x ? "a failed insertion" : "an insertion", (long long)kid);
        if (op != D_HINT_RV && KP::kid(k) != kid) violation("C29", "argument-consumed", "an insertion of #%lld changed the key it was given", (long long)kid);
        if (x && (op == D_TRY || op == D_HINT_RV || op == D_ASSIGN_RV || op == D_INDEX_SET)) probe("rvalue_kept_on_failure");
        if (!x && had && (op == D_TRY || op == D_HINT_RV)) probe("rvalue_kept_on_present_key");
      }
      if (x) {
        if (x == X_RUNTIME && full) { probe(had ? "full_existing" : "array_full"); if (had && (op == D_ASSIGN || op == D_ASSIGN_RV || op == D_INDEX || op == D_INDEX_SET)) violation("*", "full-existing-key", "assigning to an existing key of a full map threw"); }
        else if (injected(st, x)) probe("failed_insert");
        else violation("*", "unexpected-exception", "insertion of #%lld into %zu of %zu threw %s", (long long)kid, s.m.size(), cap_of(s.cls), xname(x));
        return;
      }
      if (!had && full) violation("*", "capacity-exceeded", "insertion of a new key into a full map did not throw");
      if (had) {
        if (assigned) f->second.vid = want;
        if ((op == D_TRY || op == D_TRY2) && VP::tracked) SIM_CHECK(obj.val_ctor == ctor0 && obj.val_copy == copy0, "C03,C18", "needless-construction", "try_emplace on an existing key constructed a value");
      } else { s.m[rk] = E{kid, want}; f = s.m.find(rk); }
      if (hasins) {
        if (ins == had) violation("*", "wrong-insert-flag", "insertion of #%lld reported inserted=%d although the key was %s", (long long)kid, (int)ins, had ? "present" : "absent");
        if (it->index() != (size_t)std::distance(s.m.begin(), f)) violation("*", "wrong-insert-iterator", "insertion of #%lld returned position %zu", (long long)kid, it->index());
      }
      if (got && VP::id(*got) != f->second.vid) violation("*", "wrong-insert-value", "operator[](#%lld) refers to a wrong value", (long long)kid);
    });
  }

  // What was obtained before a step that changes no membership is still good
  // after it.
  struct Kept { const Key* k; const Value* v; size_t pos; E e; };
  std::vector<int64_t> kids(const Slot& s) { std::vector<int64_t> v; for (auto& kv : s.m) v.push_back(kv.second.kid); return v; }
  std::vector<Kept> keep(int64_t i) {
    std::vector<Kept> r;
    Slot& s = slots[(size_t)i];
    with(i, [&](auto& m) { size_t n = 0; Sut sut; auto it = m.begin(); for (auto& kv : s.m) { const Key* k = &it->first; const Value* v = &it->second; NoSut ns; r.push_back({k, v, n++, kv.second}); Sut s2; ++it; } });
    return r;
  }
  void exec(const Step& st, int64_t i, int64_t u) {
    if (!on("C27")) { exec1(st, i, u); return; }
    std::vector<std::vector<Kept>> k; std::vector<std::vector<int64_t>> ks;
    for (int64_t j = 0; j < NS; ++j) { k.push_back(keep(j)); ks.push_back(kids(slots[(size_t)j])); }
    exec1(st, i, u);
    for (int64_t j = 0; j < NS; ++j) {
      Slot& s = slots[(size_t)j];
      const bool target = j == i && (st.op == D_NEW || st.op == D_DESTROY || st.op == D_COPY || (st.op == D_COPY_ASSIGN && i != u));
      const bool moved = (j == i || j == u) && (st.op == D_MOVE || st.op == D_MOVE_ASSIGN);
      if (!s.obj || target || moved || st.fk || s.m.empty() || st.op == D_UPDATE_KEY || kids(s) != ks[(size_t)j]) continue;
      with(j, [&](auto& m) {
        for (auto& x : k[(size_t)j]) {
          x.e.vid = s.m.find(KP::rank(x.e.kid))->second.vid;
          Sut sut;
          auto it = m.begin() + (std::ptrdiff_t)x.pos;
          if (KP::kid(*x.k) != x.e.kid || VP::id(*x.v) != x.e.vid || &it->first != x.k || &it->second != x.v) violation("C27", "handle-invalidated", "an operation that neither inserted nor erased: a reference to element #%lld obtained before is no longer valid", (long long)x.e.kid);
        }
      });
      probe("kept_handles");
    }
  }
  void exec1(const Step& st, int64_t i, int64_t u) {
    Slot& s = slots[(size_t)i]; Slot& o = slots[(size_t)u];
    Step none;
    switch (st.op) {
      case D_NEW: make(i, st); break;
      case D_DESTROY: destroy(i); break;
      case D_INSERT: case D_HINT: case D_HINT_RV: case D_TRY: case D_TRY2: case D_ASSIGN: case D_ASSIGN_RV: case D_INDEX: case D_INDEX_SET: case D_ALIAS:
        if (need(i)) insert(st, i, st.op, K(st.a), fresh());
        break;
      case D_FILL:
        if (!need(i)) break;
        for (int64_t j = 0, k = st.a; j < st.b; ++j, k += st.c) {
          Step one = st; if (j + 1 < st.b) one.fk = 0;
          static const int ops[] = {D_INSERT, D_TRY, D_ASSIGN, D_HINT, D_INDEX_SET};
          if (s.m.size() == cap_of(s.cls) && j + 1 < st.b) continue;
          insert(one, i, ops[(uint64_t)(k + j) % 5], K(k), fresh());
        }
        break;
      case D_ERASE: case D_DRAIN: {
        if (!need(i)) break;
        int64_t n = st.op == D_DRAIN ? st.b : 1;
        for (int64_t j = 0, k = st.a; j < n; ++j, k += st.c) {
          Key key = KP::make(K(k)); size_t r = 99;
          int x = 0;
          with(i, [&](auto& m) { x = call(j + 1 < n ? none : st, [&] { r = m.erase(key); }); });
          if (x) { if (!injected(st, x)) violation("*", "unexpected-exception", "erase threw %s", xname(x)); probe("failed_erase"); break; }
          size_t want = s.m.erase(KP::rank(K(k)));
          if (r != want) violation("*", "wrong-erase-count", "erase(#%lld) returned %zu, expected %zu", (long long)K(k), r, want);
        }
        break;
      }
      case D_ERASE_IT: {
        if (!s.obj || s.m.empty()) break;
        int64_t pos = st.b % (int64_t)s.m.size();
        auto f = s.m.begin(); std::advance(f, pos);
        size_t got = 0; int x = 0;
        with(i, [&](auto& m) { x = call(none, [&] { got = m.erase(m.begin() + pos).index(); }); });
        if (x) violation("*", "unexpected-exception", "erase threw %s", xname(x));
        s.m.erase(f);
        if ((int64_t)got != pos) violation("*", "wrong-successor", "erase(iterator) returned position %zu, expected %lld", got, (long long)pos);
        break;
      }
      case D_ERASE_IF: {
        if (!s.obj) break;
        int64_t mod = st.b % 5 + 2;
        with(i, [&](auto& m) {
          Sut sut;
          auto f = s.m.begin();
          for (auto it = m.begin(); it != m.end();) {
            if (f == s.m.end()) violation("*", "erase-loop", "a selective-erase loop visits too many elements");
            elem(it, f->second, "selective-erase loop");
            if (mix64((uint64_t)f->second.kid ^ (uint64_t)st.c) % (uint64_t)mod == 0) { it = m.erase(it); NoSut n2; f = s.m.erase(f); } else { ++it; ++f; }
          }
          if (f != s.m.end()) violation("*", "erase-loop", "a selective-erase loop ends early");
        });
        break;
      }
      case D_CLEAR: if (s.obj) { int x = 0; with(i, [&](auto& m) { x = call(none, [&] { m.clear(); }); }); if (x) violation("*", "unexpected-exception", "clear threw %s", xname(x)); s.m.clear(); } break;
      case D_SPLIT: {
        if (i == u || !s.obj || !need(u)) break;
        int64_t pos = (int64_t)((uint64_t)st.a % (s.m.size() + 1));
        if (st.b % 3 && !o.m.empty()) { Step cl; cl.op = D_CLEAR; exec(cl, u, u); }
        bool bad = !o.m.empty() || s.m.size() - (size_t)pos > cap_of(o.cls);
        int x = 0;
        with(i, [&](auto& m) { with(u, [&](auto& out) { x = call(none, [&] { m.split_at(m.begin() + pos, out); }); }); });
        if (bad) { if (x != X_RUNTIME) violation("*", "split-limit", "split_at into a %s map threw %s instead of std::runtime_error", o.m.empty() ? "too small" : "non-empty", xname(x)); probe("split_rejected"); break; }
        if (x) violation("*", "unexpected-exception", "split_at threw %s", xname(x));
        auto f = s.m.begin(); std::advance(f, pos);
        if (f != s.m.end()) probe("split");
        o.m.insert(f, s.m.end()); s.m.erase(f, s.m.end());
        break;
      }
      case D_PREFIX: case D_SUFFIX: {
        if (i == u || !o.obj || !need(i)) break;
        bool pre = st.op == D_PREFIX;
        // a == count; counts of 100000 and more mean "too many"
        size_t cnt = st.a >= 100000 ? o.m.size() + (size_t)(st.a - 99999) : (size_t)((uint64_t)st.a % (o.m.size() + 1));
        if (st.a < 100000 && st.b % 4 && cnt > cap_of(s.cls) - s.m.size()) cnt = cap_of(s.cls) - s.m.size();
        bool bad = cnt > o.m.size() || s.m.size() + cnt > cap_of(s.cls);
        if (!bad && cnt && !s.m.empty()) {  // order is a precondition of valid calls
          bool ok = pre ? s.m.rbegin()->first < o.m.begin()->first : o.m.rbegin()->first < s.m.begin()->first;
          if (!ok) {
            // make the call valid by transferring in the direction that is possible, if any
            bool ok2 = !pre ? s.m.rbegin()->first < o.m.begin()->first : o.m.rbegin()->first < s.m.begin()->first;
            if (!ok2) break;
            pre = !pre;
          }
        }
        int x = 0;
        with(i, [&](auto& m) { with(u, [&](auto& src) { x = call(none, [&] { if (pre) m.transfer_prefix_from(src, cnt); else m.transfer_suffix_from(src, cnt); }); }); });
        if (bad) { if (x != X_RUNTIME) violation("*", "transfer-limit", "transferring %zu of %zu elements into %zu of %zu threw %s instead of std::runtime_error", cnt, o.m.size(), s.m.size(), cap_of(s.cls), xname(x)); probe("transfer_rejected"); break; }
        if (x) violation("*", "unexpected-exception", "transfer threw %s", xname(x));
        if (cnt) probe(pre ? "prefix" : "suffix");
        auto b = o.m.begin(), e = o.m.end();
        if (pre) { e = b; std::advance(e, (int64_t)cnt); } else { b = o.m.begin(); std::advance(b, (int64_t)(o.m.size() - cnt)); }
        s.m.insert(b, e); o.m.erase(b, e);
        break;
      }
      case D_COPY: case D_MOVE: {
        if (i == u || !o.obj || s.cls != o.cls) break;
        destroy(i);
        int x = 0;
        with(u, [&](auto& src) {
          using T = std::remove_reference_t<decltype(src)>;
          x = call(st.op == D_COPY ? st : none, [&] { if (st.op == D_COPY) s.obj = new (s.raw) T(std::as_const(src)); else s.obj = new (s.raw) T(std::move(src)); });
        });
        if (x) { s.obj = nullptr; if (st.op == D_MOVE && !injected(st, x)) violation("*", "unexpected-exception", "move threw %s", xname(x)); if (!injected(st, x)) violation("*", "unexpected-exception", "copy threw %s", xname(x)); probe("failed_copy"); break; }
        s.m = o.m; if (st.op == D_MOVE) o.m.clear();
        break;
      }
      case D_COPY_ASSIGN: case D_MOVE_ASSIGN: {
        if (!s.obj || !o.obj || s.cls != o.cls) break;
        int x = 0;
        with(i, [&](auto& dst) {
          using T = std::remove_reference_t<decltype(dst)>;
          T& src = *(T*)o.obj;
          x = call(st.op == D_COPY_ASSIGN ? st : none, [&] { if (st.op == D_COPY_ASSIGN) dst = std::as_const(src); else dst = std::move(src); });
        });
        if (x) { if (!injected(st, x)) violation("*", "unexpected-exception", "assignment threw %s", xname(x)); probe("failed_copy_assign"); break; }
        if (i != u) { s.m = o.m; if (st.op == D_MOVE_ASSIGN) o.m.clear(); }
        break;
      }
      case D_WALK: {
        if (!s.obj || s.m.empty()) break;
        with(i, [&](auto& m) {
          Rng r((uint64_t)st.c * 1000 + (uint64_t)st.b);
          std::vector<E> v; for (auto& kv : s.m) v.push_back(kv.second);
          int64_t n = (int64_t)v.size(), pos = 0;
          Sut sut;
          auto it = m.begin();
          for (int j = 0; j < 40; ++j) {
            int64_t to = (int64_t)r.below((uint64_t)n + 1), d = to - pos;
            const auto was = it;
            switch (r.below(5)) {
              case 0: it += d; break;
              case 1: it = it + d; break;
              case 2: it -= -d; break;
              case 3: it = it - (-d); break;
              default: while (pos < to) { if (j % 2) ++it; else { auto x = it; if (!(it++ == x)) violation("*", "walk", "post-increment returns the wrong iterator"); } ++pos; } while (pos > to) { if (j % 2) --it; else { auto x = it; if (!(it-- == x)) violation("*", "walk", "post-decrement returns the wrong iterator"); } --pos; }
            }
            pos = to;
            if (it - m.begin() != pos || (it == m.end()) != (pos == n) || (it < m.end()) != (pos < n) || (it >= m.end()) != (pos == n) || (it > m.begin()) != (pos > 0) || (it <= m.begin()) != (pos == 0) || (it != m.begin()) != (pos != 0)) violation("*", "walk", "random-access walk: wrong position or comparison at %lld of %lld", (long long)pos, (long long)n);
            if (it - was != d || was - it != -d || (was < it) != (d > 0) || (was > it) != (d < 0) || (was <= it) != (d >= 0) || (was >= it) != (d <= 0) || (was == it) != (d == 0)) violation("*", "walk", "random-access walk: wrong difference or comparison of two positions %lld apart", (long long)d);
            if (pos < n) elem(it, v[(size_t)pos], "random-access walk");
            int64_t q = (int64_t)r.below((uint64_t)n);
            auto ref = it[q - pos];
            if (KP::kid(ref.first) != v[(size_t)q].kid || VP::id(ref.second) != v[(size_t)q].vid) violation("*", "walk", "iterator indexing yields the wrong element");
          }
        });
        break;
      }
      case D_UPDATE_KEY: {  // any key that keeps the order may replace a key
        if (!s.obj || s.m.empty()) break;
        int64_t pos = st.b % (int64_t)s.m.size(), kid = K(st.a);
        auto f = s.m.begin(); std::advance(f, pos);
        int64_t rk = KP::rank(kid);
        if (f != s.m.begin() && std::prev(f)->first >= rk) break;
        if (std::next(f) != s.m.end() && std::next(f)->first <= rk) break;
        Key k = KP::make(kid);
        int x = 0;
        with(i, [&](auto& m) { x = call(st, [&] { m.unsafe_update_key(m.begin() + pos, k); }); });
        if (x) { if (!injected(st, x)) violation("*", "unexpected-exception", "unsafe_update_key threw %s", xname(x)); break; }
        E e = f->second; e.kid = kid; s.m.erase(f); s.m[rk] = e;
        break;
      }
      case D_SETVAL: {
        if (!s.obj || s.m.empty()) break;
        int64_t pos = st.b % (int64_t)s.m.size();
        auto f = s.m.begin(); std::advance(f, pos);
        uint64_t vid = fresh();
        with(i, [&](auto& m) { Value v = VP::make(vid); Sut sut; auto it = m.begin() + pos; if (st.c % 2) it->second = std::move(v); else it.value_ref() = std::move(v); });
        f->second.vid = vid;
        break;
      }
      case D_LOOKUP:
        if (s.obj && st.fk) {
          Key key = KP::make(K(st.a));
          int x = 0;
          with(i, [&](auto& m) {
            const auto& cm = m;
            x = call(st, [&] { switch (st.b % 6) { case 0: (void)m.find(key); break; case 1: (void)cm.find(key); break; case 2: (void)m.lower_bound(key); break; case 3: (void)cm.lower_bound(key); break; case 4: (void)m.upper_bound(key); break; default: (void)cm.upper_bound(key); } });
          });
          if (x) { if (!injected(st, x)) violation("*", "unexpected-exception", "a lookup threw %s", xname(x)); probe("failed_lookup"); }
        }
        lookups(i, st.a, "lookup");
        break;
      default: break;
    }
  }
  void after(const Step& st) {
    int64_t n = 0; uint64_t sum = 0, h = (uint64_t)st.op; int64_t own = 0;
    for (auto& s : slots) {
      h = mix64(h ^ (s.obj ? s.m.size() + 1 : 0));
      for (auto& kv : s.m) { ++n; if (kv.second.vid) { ++own; sum += mix64(kv.second.vid); } }
    }
    state(h);
    if constexpr (VP::tracked) {
      SIM_CHECK(obj.holders == own, "C04", "value-retained", "%lld values are alive while the maps hold %lld elements (resources of removed elements retained, or elements lost)", (long long)obj.holders, (long long)own);
      SIM_CHECK(obj.holder_sum == sum, "C04,C18", "value-identity", "the live values are not the ones the maps hold");
    }
    if constexpr (std::is_same_v<Key, TKey>) SIM_CHECK(obj.key_holders == n, "C04", "key-retained", "%lld keys are alive while the maps hold %lld elements", (long long)obj.key_holders, (long long)n);
  }
  static void run(const World&, const Plan& p) {
    DenseWorld w(p);
    int idx = 0;
    for (const Step& st : p.steps) {
      set_step(idx, &st);
      int64_t i = st.t % NS, u = st.u % NS;
      ev((uint64_t)st.op * 1000003 + (uint64_t)i);
      w.exec(st, i, u);
      for (int64_t j = 0; j < NS; ++j) w.check(j, j == i ? "after the step" : j == u ? "other map of the step" : "uninvolved map");
      w.lookups(i, st.a, "lookup after the step");
      w.after(st);
      ++idx;
    }
    set_step(idx, nullptr);
    for (int64_t j = 0; j < NS; ++j) { w.lookups(j, 1, "final lookup"); w.destroy(j); w.after(Step()); }
  }
  static void gen(const World&, Rng& r, const std::string& prop, bool faults, int size, Plan& p) {
    DenseInfo di{VP::throwing, KP::throwing, std::is_same_v<Key, std::string> || std::is_same_v<Value, std::string>, KP::max_keys(), {(int)C::caps[0], (int)C::caps[1], (int)C::caps[2]}};
    gen_dense(di, r, prop, faults, size, p);
  }
};
template <class C> struct DenseReg {
  DenseReg(const char* name, int (*wf)(const std::string&)) { worlds().push_back(World{"dense", name, dense_ops(), &DenseWorld<C>::gen, &DenseWorld<C>::run, wf}); }
};
inline int w_dense(const std::string& p) { return p == "C18" ? 6 : p == "C26" || p == "C27" || p == "C29" ? 2 : p == "C03" || p == "C04" ? 1 : 0; }
inline int w_dprim(const std::string& p) { return p == "C18" || p == "C21" ? 4 : p == "C27" ? 1 : 0; }
#define DENSE_CONFIG(ID, NAME, WF, ...)                                                       \
  static void reg_##ID() { using C_ = __VA_ARGS__; static ::sim::DenseReg<C_> r_(NAME SIM_SUF, WF); } \
  static ::sim::LazyReg lazy_##ID(&reg_##ID);
} }  // namespace sim
