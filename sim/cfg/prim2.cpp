// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "prim_f32_desc_simd_12", w_prim, TreeCfg<PrimKeys<float, true>, I64Vals, 12, 10, fc::SearchMode::SIMD, StdDoms>)
TREE_CONFIG(b, "prim_f64_simd_16", w_prim, TreeCfg<PrimKeys<double>, TrackedVals, 16, 16, fc::SearchMode::SIMD, SimDoms<true, true>>)
