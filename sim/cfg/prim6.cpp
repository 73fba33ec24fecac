// FLAGS: -DNDEBUG
#include "../tree_reg.hpp"
using namespace sim;
// vector search requested on a target without vector instructions, assertions off
TREE_CONFIG(a, "prim_i32_simd_noavx_10_13", w_prim, TreeCfg<PrimKeys<int32_t>, I64Vals, 10, 13, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_u64_desc_simd_noavx_13_9", w_prim, TreeCfg<PrimKeys<uint64_t, true>, I64Vals, 13, 9, fc::SearchMode::SIMD, StdDoms>)
