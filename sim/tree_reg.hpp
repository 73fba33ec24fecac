#pragma once
#include "tree_world.hpp"
namespace sim { inline namespace SIM_NS {
template <class C> TreeInfo tree_info() {
  using S = TreeSet<C>;
  TreeInfo ti;
  ti.ak = C::Doms::kind; ti.vthrow = C::VP::throwing; ti.kthrow = C::KP::throwing; ti.vtracked = C::VP::tracked;
  ti.strs = std::is_same_v<typename C::KP::Key, std::string> || std::is_same_v<typename C::VP::Value, std::string>;
  ti.maxkeys = C::KP::max_keys(); ti.L = (int)S::L; ti.I = (int)S::I;
  ti.leaf_bytes = node_bytes<typename S::Tree>(true); ti.internal_bytes = node_bytes<typename S::Tree>(false);
  ti.stable_rank = C::KP::rank(0) != C::KP::rank(1);
  return ti;
}
template <class C> struct TreeReg {
  static void gen(const World&, Rng& r, const std::string& prop, bool faults, int size, Plan& p) { static const TreeInfo ti = tree_info<C>(); gen_tree(ti, r, prop, faults, size, p); }
  TreeReg(const char* name, int (*wf)(const std::string&)) { worlds().push_back(World{"tree", name, kTreeOps, &gen, &TreeWorld<C>::run, wf}); }
};
// static init order: kTreeOps lives in another TU, so registration is lazy
#define TREE_CONFIG(ID, NAME, WF, ...)                                                     \
  static void reg_##ID() { using C_ = __VA_ARGS__; static ::sim::TreeReg<C_> r_(NAME SIM_SUF, WF); } \
  static ::sim::LazyReg lazy_##ID(&reg_##ID);
template <class C1, class C2> struct MixReg {
  static void gen(const World&, Rng& r, const std::string& prop, bool faults, int size, Plan& p) {
    static const TreeInfo ti = [] { TreeInfo a = tree_info<C1>(), b = tree_info<C2>(); a.vthrow &= b.vthrow; a.kthrow &= b.kthrow; a.vtracked |= b.vtracked; a.strs |= b.strs; a.maxkeys = std::min(a.maxkeys, b.maxkeys); a.leaf_bytes = std::max(a.leaf_bytes, b.leaf_bytes); a.internal_bytes = std::max(a.internal_bytes, b.internal_bytes); return a; }();
    gen_tree(ti, r, prop, faults, size, p);
    int64_t ns = r.range(1, 2);
    p.set("slots", ns);
    for (Step& s : p.steps) { s.t = (int64_t)r.below((uint64_t)(2 * ns)); s.u = (int64_t)r.below((uint64_t)(2 * ns)); }
  }
  MixReg(const char* name, int (*wf)(const std::string&)) { worlds().push_back(World{"mix", name, kTreeOps, &gen, &MixWorld<C1, C2>::run, wf}); }
};
#define MIX_CONFIG(ID, NAME, WF, ...)                                                        \
  static void reg_##ID() { static ::sim::MixReg<__VA_ARGS__> r_(NAME SIM_SUF, WF); }                  \
  static ::sim::LazyReg lazy_##ID(&reg_##ID);
// ---- how often each family of configurations is used to decide a property
inline bool is(const std::string& p, const char* l) { return std::strstr(l, p.c_str()) != nullptr; }
inline int w_sim(const std::string& p) { return is(p, "C01,C06") ? 2 : is(p, "C02,C03,C04,C05,C19,C20,C24,C26,C27,C28,C29") ? 4 : 0; }      // instrumented keys, values, allocator
inline int w_simk(const std::string& p) { return is(p, "C01,C02,C03,C04,C06,C19,C20,C24,C26,C27,C28,C29") ? 2 : 0; }                        // as above, unusual equivalence
inline int w_noprop(const std::string& p) { return is(p, "C05") ? 3 : is(p, "C28,C29") ? 2 : is(p, "C04,C20") ? 1 : 0; }                     // allocators that stay with their tree
inline int w_prim(const std::string& p) { return is(p, "C01,C06,C21,C27") ? 2 : is(p, "C02,C19,C28") ? 1 : 0; }                    // primitive keys, vector search
inline int w_str(const std::string& p) { return is(p, "C01,C02,C03,C04,C06,C20,C24,C27,C29") ? 1 : 0; }                           // strings
inline int w_pool(const std::string& p) { return is(p, "C05,C13") ? 4 : is(p, "C28") ? 2 : is(p, "C01,C02,C04,C09,C10,C11,C12,C20,C27,C29") ? 1 : 0; }    // page pools behind the tree
inline int w_mix(const std::string& p) { return is(p, "C16") ? 6 : is(p, "C01,C04,C05,C13,C28") ? 1 : 0; }
inline int w_mixm(const std::string& p) { return is(p, "C01,C04,C05,C13,C28") ? 1 : 0; }
inline int w_pol(const std::string& p) { return is(p, "C16") ? 6 : w_pool(p); }
} }  // namespace sim
