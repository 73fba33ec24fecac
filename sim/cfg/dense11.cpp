// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(a, "dense_i32_desc", w_dprim, DenseCfg<PrimKeys<int32_t, true>, I64Vals, fc::SearchMode::SIMD, 10, 17, 34>)
DENSE_CONFIG(b, "dense_u32", w_dprim, DenseCfg<PrimKeys<uint32_t>, I64Vals, fc::SearchMode::SIMD, 6, 14, 30>)
