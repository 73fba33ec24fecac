// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_f32_simd_20_21", w_prim, TreeCfg<PrimKeys<float>, I64Vals, 20, 21, fc::SearchMode::SIMD, SimDoms<true, true>>)
TREE_CONFIG(b, "prim_f64_desc_simd_15_14", w_prim, TreeCfg<PrimKeys<double, true>, I64Vals, 15, 14, fc::SearchMode::SIMD, StdDoms>)
