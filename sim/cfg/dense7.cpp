// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(c, "dense_u64_desc", w_dprim, DenseCfg<PrimKeys<uint64_t, true>, TrackedVals, fc::SearchMode::SIMD, 4, 10, 19>)
DENSE_CONFIG(d, "dense_f32", w_dprim, DenseCfg<PrimKeys<float>, I64Vals, fc::SearchMode::SIMD, 11, 16, 27>)
