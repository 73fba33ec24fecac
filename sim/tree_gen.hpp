// Plan generator for tree worlds (type independent).
#pragma once
#include "rt.hpp"
namespace sim {
enum { AK_STD, AK_SIM, AK_SIM_NOPROP, AK_HUGE, AK_POL, AK_MULTI };
enum TreeOp {
  T_NEW, T_DESTROY,
  T_INSERT, T_INSERT_PAIR, T_EMPLACE, T_EMPLACE_HINT, T_TRY_EMPLACE, T_TRY_EMPLACE2, T_ASSIGN, T_ASSIGN_RV, T_INDEX, T_INDEX_SET,
  T_FILL, T_ERASE, T_DRAIN, T_ERASE_IT, T_ERASE_RANGE, T_ERASE_IF, T_CLEAR, T_WALK, T_RWALK, T_SETVAL,
  T_COPY, T_COPY_ASSIGN, T_MOVE, T_MOVE_ASSIGN, T_SWAP, T_RANGE_CTOR, T_LIST_CTOR, T_LOOKUP, T_DROP, T_ENV, T_ALIAS, T_OPCOUNT
};
extern const std::vector<const char*> kTreeOps;
struct TreeInfo {
  int ak;            // allocator kind
  bool vthrow, kthrow, vtracked, strs;
  int64_t maxkeys;
  int L, I;
  int64_t leaf_bytes, internal_bytes;
  bool stable_rank;  // one key per equivalence class
};
void gen_tree(const TreeInfo&, Rng&, const std::string& prop, bool faults, int size, Plan&);
}  // namespace sim
