// FLAGS: -mavx2 -mfma -O2 -DNDEBUG
#include "../tree_reg.hpp"
using namespace sim;
// as users build it: optimised, assertions off
TREE_CONFIG(a, "prim_i64_desc_simd_O2_14_10", w_prim, TreeCfg<PrimKeys<int64_t, true>, I64Vals, 14, 10, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_u64_simd_O2_10_11", w_prim, TreeCfg<PrimKeys<uint64_t>, I64Vals, 10, 11, fc::SearchMode::SIMD, StdDoms>)
