// FLAGS: -mavx2 -mfma -O2 -DNDEBUG
#include "../dense_world.hpp"
using namespace sim;
// optimised, assertions off
DENSE_CONFIG(a, "dense_f32_desc", w_dprim, DenseCfg<PrimKeys<float, true>, I64Vals, fc::SearchMode::SIMD, 12, 18, 28>)
DENSE_CONFIG(b, "dense_f64", w_dprim, DenseCfg<PrimKeys<double>, I64Vals, fc::SearchMode::SIMD, 7, 14, 23>)
