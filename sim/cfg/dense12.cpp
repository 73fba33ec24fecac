// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(a, "dense_i64_desc", w_dprim, DenseCfg<PrimKeys<int64_t, true>, I64Vals, fc::SearchMode::SIMD, 6, 12, 23>)
DENSE_CONFIG(b, "dense_u64", w_dprim, DenseCfg<PrimKeys<uint64_t>, I64Vals, fc::SearchMode::SIMD, 7, 9, 20>)
