#include "tree_gen.hpp"
#include "types.hpp"
namespace sim {
Ledger ledger;
const std::vector<const char*> kTreeOps = {
  "new", "destroy", "insert", "insert_pair", "emplace", "emplace_hint", "try_emplace", "try_emplace2", "assign", "assign_rv", "index", "index_set",
  "fill", "erase", "drain", "erase_it", "erase_range", "erase_if", "clear", "walk", "rwalk", "setval",
  "copy", "copy_assign", "move", "move_assign", "swap", "range_ctor", "list_ctor", "lookup", "drop", "env", "alias"};

static std::vector<int> base_weights(const std::string& prop, Rng& r) {
  std::vector<int> w(T_OPCOUNT, 0);
  auto set = [&](std::initializer_list<std::pair<int, int>> l) { for (auto& x : l) w[(size_t)x.first] = x.second; };
  set({{T_INSERT, 8}, {T_INSERT_PAIR, 3}, {T_EMPLACE, 3}, {T_EMPLACE_HINT, 2}, {T_TRY_EMPLACE, 5}, {T_TRY_EMPLACE2, 2}, {T_ASSIGN, 4}, {T_ASSIGN_RV, 3}, {T_INDEX, 2}, {T_INDEX_SET, 2},
       {T_FILL, 10}, {T_ERASE, 8}, {T_DRAIN, 7}, {T_ERASE_IT, 6}, {T_ERASE_RANGE, 3}, {T_ERASE_IF, 3}, {T_CLEAR, 1}, {T_WALK, 2}, {T_RWALK, 2}, {T_SETVAL, 2},
       {T_COPY, 2}, {T_COPY_ASSIGN, 2}, {T_MOVE, 2}, {T_MOVE_ASSIGN, 2}, {T_SWAP, 2}, {T_RANGE_CTOR, 1}, {T_LIST_CTOR, 1}, {T_LOOKUP, 3}, {T_NEW, 1}, {T_DESTROY, 1}, {T_ALIAS, 5}});
  if (prop == "C02" || prop == "C03") set({{T_INSERT, 14}, {T_TRY_EMPLACE, 12}, {T_EMPLACE, 6}, {T_ASSIGN, 9}, {T_INDEX_SET, 6}, {T_INDEX, 4}, {T_FILL, 16}, {T_ERASE_IF, 2}, {T_ERASE_RANGE, 2}, {T_COPY, 1}, {T_COPY_ASSIGN, 1}, {T_RANGE_CTOR, 1}, {T_CLEAR, 1}, {T_MOVE, 1}, {T_MOVE_ASSIGN, 1}, {T_SWAP, 1}});
  if (prop == "C05") set({{T_COPY, 8}, {T_COPY_ASSIGN, 6}, {T_MOVE, 9}, {T_MOVE_ASSIGN, 10}, {T_SWAP, 10}, {T_RANGE_CTOR, 2}, {T_LIST_CTOR, 1}, {T_NEW, 4}, {T_DESTROY, 5}, {T_CLEAR, 2}, {T_DROP, 4}, {T_FILL, 12}, {T_WALK, 0}, {T_RWALK, 0}});
  if (prop == "C06") set({{T_ERASE_IT, 16}, {T_ERASE_RANGE, 12}, {T_ERASE_IF, 14}, {T_WALK, 10}, {T_RWALK, 10}, {T_COPY, 1}, {T_COPY_ASSIGN, 1}, {T_FILL, 18}, {T_DRAIN, 8}});
  if (prop == "C19") set({{T_FILL, 22}, {T_DRAIN, 18}, {T_ERASE_IF, 10}, {T_ERASE_RANGE, 8}, {T_ERASE_IT, 8}, {T_WALK, 0}, {T_RWALK, 0}, {T_COPY, 1}, {T_COPY_ASSIGN, 1}, {T_CLEAR, 2}});
  if (prop == "C24") set({{T_FILL, 20}, {T_ERASE, 20}, {T_DRAIN, 14}, {T_ERASE_IT, 16}, {T_ERASE_RANGE, 8}, {T_ERASE_IF, 3}, {T_COPY, 1}, {T_COPY_ASSIGN, 1}, {T_MOVE, 1}, {T_MOVE_ASSIGN, 1}, {T_SWAP, 1}, {T_WALK, 1}, {T_RWALK, 1}});
  if (prop == "C26") set({{T_INSERT, 12}, {T_TRY_EMPLACE, 10}, {T_EMPLACE, 6}, {T_EMPLACE_HINT, 6}, {T_ASSIGN, 9}, {T_INDEX_SET, 6}, {T_INDEX, 4}, {T_FILL, 18}, {T_ERASE, 14}, {T_ERASE_IT, 8}, {T_DRAIN, 12}, {T_LOOKUP, 6}, {T_ALIAS, 8}, {T_COPY, 1}, {T_COPY_ASSIGN, 1}, {T_MOVE, 1}, {T_MOVE_ASSIGN, 1}, {T_SWAP, 1}, {T_CLEAR, 1}, {T_RANGE_CTOR, 4}, {T_LIST_CTOR, 2}});
  if (prop == "C27") set({{T_INSERT, 10}, {T_INSERT_PAIR, 6}, {T_TRY_EMPLACE, 8}, {T_EMPLACE, 6}, {T_EMPLACE_HINT, 8}, {T_ASSIGN, 10}, {T_ASSIGN_RV, 6}, {T_INDEX_SET, 6}, {T_INDEX, 5}, {T_ALIAS, 40}, {T_LOOKUP, 6}, {T_SETVAL, 5}, {T_COPY, 4}, {T_COPY_ASSIGN, 4}, {T_ERASE, 8}, {T_ERASE_RANGE, 4}, {T_FILL, 14}});
  if (prop == "C28") set({{T_FILL, 20}, {T_ERASE, 14}, {T_DRAIN, 14}, {T_ERASE_IT, 12}, {T_ERASE_RANGE, 8}, {T_ERASE_IF, 6}, {T_LOOKUP, 6}, {T_ALIAS, 8}, {T_CLEAR, 2}, {T_MOVE, 4}, {T_MOVE_ASSIGN, 5}, {T_SWAP, 4}, {T_ASSIGN, 8}, {T_INDEX_SET, 6}, {T_DESTROY, 2}, {T_COPY, 1}, {T_COPY_ASSIGN, 1}});
  if (prop == "C29") set({{T_TRY_EMPLACE, 22}, {T_ASSIGN_RV, 18}, {T_INDEX_SET, 12}, {T_INSERT_PAIR, 4}, {T_EMPLACE, 3}, {T_EMPLACE_HINT, 3}, {T_MOVE_ASSIGN, 8}, {T_FILL, 14}, {T_DRAIN, 6}, {T_COPY, 1}, {T_COPY_ASSIGN, 1}, {T_RANGE_CTOR, 1}, {T_WALK, 1}, {T_RWALK, 1}});
  if (prop == "C20") set({{T_COPY, 14}, {T_COPY_ASSIGN, 16}, {T_RANGE_CTOR, 8}, {T_LIST_CTOR, 4}, {T_CLEAR, 6}, {T_FILL, 14}, {T_MOVE, 1}, {T_MOVE_ASSIGN, 1}, {T_SWAP, 1}, {T_WALK, 0}, {T_RWALK, 0}});
  if (prop == "C04") set({{T_COPY, 4}, {T_COPY_ASSIGN, 4}, {T_CLEAR, 3}, {T_DESTROY, 2}, {T_RANGE_CTOR, 2}});
  if (prop == "C16" || prop == "C13") set({{T_COPY, 4}, {T_COPY_ASSIGN, 3}, {T_MOVE, 4}, {T_MOVE_ASSIGN, 4}, {T_SWAP, 4}, {T_DROP, 3}, {T_NEW, 3}, {T_DESTROY, 4}, {T_CLEAR, 2}, {T_FILL, 14}});
  // swarm: switch a random subset of operations off
  if (r.chance(2, 3)) for (auto& x : w) if (r.chance(1, 4)) x = 0;
  if (w[T_FILL] == 0 && r.chance(3, 4)) w[T_FILL] = 8;
  return w;
}

void gen_tree(const TreeInfo& ti, Rng& r, const std::string& prop, bool faults, int size, Plan& p) {
  const bool pools = ti.ak == AK_HUGE || ti.ak == AK_POL || ti.ak == AK_MULTI;
  const bool must_fault = prop == "C28" || prop == "C02" || prop == "C03" || prop == "C20" || prop == "C24" || prop == "C26" || prop == "C29";
  if (must_fault && (prop == "C28" || r.chance(5, 6))) faults = true;
  if (prop == "C01" || prop == "C06" || prop == "C27") faults = faults && r.chance(1, 4);
  // ---- sizes
  int big = (int)r.below(10);
  int64_t keys = big < 3 ? r.range(5, 40) : big < 7 ? r.range(40, 200) : big < 9 ? r.range(200, 700) : r.range(700, 700 + 300 * size);
  if (ti.L >= 32 && big >= 6) keys = r.range(600, 2600);
  if (!ti.stable_rank) keys *= 2;
  if (keys > ti.maxkeys) keys = ti.maxkeys;
  int slots = prop == "C05" || prop == "C20" || prop == "C13" ? (int)r.range(2, 4) : (int)r.range(1, 3);
  int doms = (int)r.range(1, 3);
  p.set("keys", keys); p.set("keymode", (int64_t)r.below(5));
  p.set("slots", slots); p.set("doms", doms);
  p.set("lookup", r.chance(1, 2) ? 8 : 16); p.set("order", (int64_t)r.below(4));
  if (pools) {
    p.set("placement", (int64_t)r.below(4));
    p.set("advfail", r.chance(1, 8));
    bool huge = r.chance(1, 3);
    p.set("huge", huge);
    // pool sizes: from less than one node to many nodes; leaf and internal sizes all distinct
    auto sz = [&](int64_t node, int64_t salt) -> int64_t {
      switch (r.below(5)) {
        case 0: return 4096 * r.range(1, 3) + 64 * salt;
        case 1: return node + 64 + 64 * salt;
        case 2: return node * r.range(2, 9) + 128 + 64 * salt;
        case 3: return node / 2 + 64 * salt + 64;
        default: return 65536 + 4096 * r.range(0, 30) + 64 * salt;
      }
    };
    p.set("init0", sz(ti.leaf_bytes, 1)); p.set("grow0", sz(ti.leaf_bytes, 2));
    p.set("init1", sz(ti.internal_bytes, 3)); p.set("grow1", sz(ti.internal_bytes, 5));
    if (ti.ak == AK_POL) {
      // one of the two pools grows by much larger steps than the other, so that
      // any region can be attributed to its pool whatever the rounding
      p.set(r.chance(1, 2) ? "grow1" : "grow0", (16 << 20) + 4096 * r.range(0, 30));
      p.set("share", r.chance(1, 2) ? 0 : r.range(1, 2));
    }
  }
  auto w = base_weights(prop, r);
  if (!pools) w[T_DROP] = 0;
  int nsteps = (int)(r.chance(1, 3) ? r.range(6, 25) : r.range(25, 90) * (size > 1 ? 2 : 1));
  // ---- key streams
  int style = (int)r.below(6);
  int64_t cur = r.range(0, keys - 1);
  auto nextkey = [&]() -> int64_t {
    switch (style) {
      case 0: return cur = (cur + 1) % keys;
      case 1: return cur = (cur + keys - 1) % keys;
      case 2: return r.range(0, keys - 1);
      case 3: { if (r.chance(1, 12)) cur = r.range(0, keys - 1); return cur = (cur + (int64_t)r.below(3)) % keys; }
      case 4: return r.range(0, std::max<int64_t>(0, keys / 8));
      default: return r.chance(1, 2) ? r.range(0, keys - 1) : (cur = (cur + 1) % keys);
    }
  };
  std::vector<int> fk;  // fault kinds enabled in this run (swarm)
  if (faults) {
    auto maybe = [&](int k, bool always) { if (always || r.chance(2, 3)) fk.push_back(k); };
    const bool mem = prop != "C03", usr = prop != "C02";
    if (mem) {
      if (ti.ak == AK_SIM || ti.ak == AK_SIM_NOPROP) maybe(F_ALLOC, prop == "C02" || prop == "C05" || prop == "C29");
      if (ti.ak == AK_STD || ti.strs || ti.ak == AK_MULTI || (pools && prop != "C16")) maybe(F_HEAP, prop == "C02");
      if (pools) { maybe(F_MMAP, true); if (p.get("huge", 0)) maybe(F_HUGE, false); }
    }
    if (usr) {
      if (ti.vthrow && ti.vtracked) { maybe(F_VCOPY, prop == "C03"); maybe(F_VCTOR, false); maybe(F_VDEF, false); }
      if (ti.kthrow && !ti.strs) { maybe(F_KCOPY, prop == "C03" || prop == "C24" || prop == "C29"); maybe(F_KDEF, false); }
      if (prop == "C03" && ti.strs) maybe(F_HEAP, true);
      if (prop == "C26") { fk.clear(); fk.push_back(F_CMP); }
      if (prop == "C28") {
        fk.clear();
        if (ti.ak == AK_SIM || ti.ak == AK_SIM_NOPROP) fk.push_back(F_ALLOC);
        if (pools) { fk.push_back(F_MMAP); if (p.get("huge", 0)) fk.push_back(F_HUGE); }
        if (r.chance(1, 2) || fk.empty()) fk.push_back(F_HEAP);
      }
      if (prop == "C24") { fk.clear(); fk.push_back(ti.strs ? F_HEAP : F_KCOPY); }
    }
  }
  int frate = (int)r.range(2, must_fault ? 5 : 9);  // about one fault per frate eligible steps
  bool env_mode = pools && faults && r.chance(1, 2);
  int64_t filled = 0;
  for (int i = 0; i < nsteps; ++i) {
    Step s;
    s.op = i < 2 && r.chance(3, 4) ? (int)T_FILL : r.weighted(w);
    s.t = (int64_t)r.below((uint64_t)slots); s.u = (int64_t)r.below((uint64_t)slots);
    s.b = (int64_t)r.below(15);
    switch (s.op) {
      case T_FILL: {
        s.a = nextkey();
        int64_t cap = std::max<int64_t>(2, keys / (r.chance(1, 3) ? 1 : 4));
        s.b = r.range(1, std::min<int64_t>(cap, 400 + 200 * size));
        static const int64_t strides[] = {1, 1, -1, 1, 7, 3, -5, 13, 2};
        s.c = strides[r.below(9)];
        filled += s.b;
        break;
      }
      case T_DRAIN: {
        s.a = nextkey();
        s.b = r.range(1, std::max<int64_t>(2, std::min<int64_t>(keys, 300)));
        static const int64_t strides[] = {1, 1, -1, -1, 7, 3, -5, 2};
        s.c = strides[r.below(8)];
        break;
      }
      case T_ERASE_IT: case T_ERASE_RANGE: case T_SETVAL: s.a = (int64_t)r.below(100000); s.c = r.chance(1, 2) ? (int64_t)r.below(12) : (int64_t)r.below(100000); if (r.chance(1, 3)) s.a = r.chance(1, 2) ? 0 : (int64_t)r.below(3); break;
      case T_ERASE_IF: s.a = (int64_t)r.below(50); s.b = (int64_t)r.below(9); s.c = (int64_t)r.below(1000000); break;
      case T_WALK: case T_RWALK: s.a = (int64_t)r.below(100000); s.c = (int64_t)r.below(1000000); break;
      case T_ALIAS: s.a = nextkey(); s.b = (int64_t)r.below(15); s.c = (int64_t)r.below(1000000); break;
      case T_RANGE_CTOR: s.a = nextkey(); s.c = (int64_t)r.below(1000); s.u = (int64_t)r.below(7); break;
      default: s.a = nextkey();
    }
    // ---- faults
    bool insertion = (s.op >= T_INSERT && s.op <= T_INDEX_SET) || s.op == T_FILL;
    bool copying = s.op == T_COPY || s.op == T_COPY_ASSIGN || s.op == T_RANGE_CTOR || s.op == T_LIST_CTOR || s.op == T_NEW;
    bool moving = s.op == T_MOVE || s.op == T_MOVE_ASSIGN || s.op == T_SWAP || s.op == T_CLEAR;
    bool erasing = s.op == T_ERASE || s.op == T_ERASE_IT || s.op == T_ERASE_RANGE || s.op == T_DRAIN || s.op == T_ERASE_IF;
    if (prop == "C28") {
      if (!fk.empty() && s.op != T_NEW && s.op != T_DESTROY && s.op != T_ENV && s.op != T_DROP && r.chance(1, 2)) { s.fk = r.pick(fk); s.fn = r.chance(4, 5) ? 1 : 2; s.fp = true; }
      p.steps.push_back(s);
      continue;
    }
    if (erasing && !fk.empty() && (ti.kthrow) && r.below((uint64_t)frate) == 0) {
      std::vector<int> ek;
      for (int k : fk) if (k == F_CMP || k == F_KCOPY || (k == F_HEAP && ti.strs)) ek.push_back(k);
      if (!ek.empty()) {
        Step again = s;
        s.fk = r.pick(ek); s.fp = r.chance(1, 4);
        if (s.fk == F_CMP) s.fn = (int)r.range(1, s.op == T_ERASE_RANGE || s.op == T_ERASE_IF || s.op == T_DRAIN ? 300 : r.chance(1, 2) ? 5 : 30); else
        s.fn = (int)r.range(1, s.op == T_ERASE_RANGE || s.op == T_ERASE_IF || s.op == T_DRAIN ? (r.chance(1, 2) ? 30 : 5) : 3);
        p.steps.push_back(s);
        if (r.chance(1, 2)) p.steps.push_back(again);
        continue;
      }
    }
    bool want = (insertion && (must_fault ? prop != "C20" || r.chance(1, 4) : true)) || copying || moving;
    if (prop == "C26" && (s.op == T_LOOKUP || s.op == T_ALIAS)) want = true;
    Step clean = s;
    if (!fk.empty() && want && r.below((uint64_t)frate) == 0) {
      s.fk = r.pick(fk);
      s.fp = s.fk < F_VCOPY && r.chance(1, 3);
      int64_t span = insertion ? (s.fk == F_VDEF || s.fk == F_KDEF ? ti.L * 2 + 2 : 6) : copying ? (s.fk == F_ALLOC || s.fk == F_MMAP || s.fk == F_HUGE ? 24 : 160) : 3;
      if (r.chance(1, 2)) span = std::max<int64_t>(1, span / 4);
      if (s.fk == F_CMP) span = r.chance(1, 2) ? 40 : r.chance(1, 2) ? 8 : 400;
      s.fn = (int)r.range(1, span);
      p.steps.push_back(s);
      // bias: the same request right after the failure
      if (insertion && r.chance(2, 3)) {
        if (clean.op == T_FILL) { clean.a = clean.a + clean.c * (clean.b - 1); clean.op = T_INSERT; clean.b = 0; clean.c = 0; }
        p.steps.push_back(clean);
      } else if (copying && r.chance(1, 2)) p.steps.push_back(clean);
      continue;
    }
    p.steps.push_back(s);
    if (env_mode && r.chance(1, 10)) {
      Step e; e.op = T_ENV; e.a = r.chance(1, 3) ? -1 : (int64_t)r.below(12); e.b = r.chance(1, 2) ? -1 : (int64_t)r.below(3);
      p.steps.push_back(e);
    }
  }
}
}  // namespace sim
