// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(a, "dense_u32_desc", w_dprim, DenseCfg<PrimKeys<uint32_t, true>, I64Vals, fc::SearchMode::SIMD, 7, 13, 29>)
DENSE_CONFIG(b, "dense_i64", w_dprim, DenseCfg<PrimKeys<int64_t>, I64Vals, fc::SearchMode::SIMD, 5, 11, 24>)
