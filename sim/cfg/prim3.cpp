// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_i64_simd_default", w_prim, TreeCfg<PrimKeys<int64_t>, I64Vals, 0, 0, fc::SearchMode::SIMD, StdDoms>)
TREE_CONFIG(b, "prim_i64_binary_default_big", w_prim, TreeCfg<PrimKeys<int64_t>, BigVals<256, 64>, 0, 0, fc::SearchMode::Binary, StdDoms>)
