// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_i8_simd_32", w_prim, TreeCfg<PrimKeys<int8_t>, I64Vals, 32, 40, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_u8_desc_simd_70", w_prim, TreeCfg<PrimKeys<uint8_t, true>, I64Vals, 70, 33, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(c, "prim_u16_simd_20", w_prim, TreeCfg<PrimKeys<uint16_t>, I64Vals, 20, 16, fc::SearchMode::SIMD, StdDoms>)
