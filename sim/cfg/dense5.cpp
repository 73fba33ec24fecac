// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(e, "dense_i32", w_dprim, DenseCfg<PrimKeys<int32_t>, I64Vals, fc::SearchMode::SIMD, 9, 15, 32>)
