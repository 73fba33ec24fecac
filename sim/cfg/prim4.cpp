// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_u32_simd_24_linear", w_prim, TreeCfg<PrimKeys<uint32_t>, I64Vals, 24, 24, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_i16_desc_simd_32", w_prim, TreeCfg<PrimKeys<int16_t, true>, I64Vals, 32, 18, fc::SearchMode::SIMD, SimDoms<true, true>>)
