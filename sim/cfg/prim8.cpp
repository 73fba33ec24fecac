// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_i32_desc_simd_19_15", w_prim, TreeCfg<PrimKeys<int32_t, true>, I64Vals, 19, 15, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_u32_desc_simd_11_25", w_prim, TreeCfg<PrimKeys<uint32_t, true>, I64Vals, 11, 25, fc::SearchMode::SIMD, StdDoms>)
