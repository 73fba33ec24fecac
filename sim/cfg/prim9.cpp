// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_i8_desc_simd_24_16", w_prim, TreeCfg<PrimKeys<int8_t, true>, I64Vals, 24, 16, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_u8_simd_12_12", w_prim, TreeCfg<PrimKeys<uint8_t>, I64Vals, 12, 12, fc::SearchMode::SIMD, StdDoms>)
