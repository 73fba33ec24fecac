// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_i32_simd_8_270", w_prim, TreeCfg<PrimKeys<int32_t>, I64Vals, 8, 270, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_u64_binary_300_12", w_prim, TreeCfg<PrimKeys<uint64_t>, I64Vals, 300, 12, fc::SearchMode::Binary, StdDoms>)
