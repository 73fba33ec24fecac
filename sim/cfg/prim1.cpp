// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_i32_simd_8", w_prim, TreeCfg<PrimKeys<int32_t>, I64Vals, 8, 8, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_u64_desc_simd_9", w_prim, TreeCfg<PrimKeys<uint64_t, true>, I64Vals, 9, 17, fc::SearchMode::SIMD, SimDoms<true, true>>)
