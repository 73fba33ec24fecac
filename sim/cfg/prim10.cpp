// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_i16_simd_18_22", w_prim, TreeCfg<PrimKeys<int16_t>, I64Vals, 18, 22, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_u16_desc_simd_40_20", w_prim, TreeCfg<PrimKeys<uint16_t, true>, I64Vals, 40, 20, fc::SearchMode::SIMD, StdDoms>)
