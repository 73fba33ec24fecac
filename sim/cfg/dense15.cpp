// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(a, "dense_i32_300", w_dprim, DenseCfg<PrimKeys<int32_t>, I64Vals, fc::SearchMode::SIMD, 200, 300, 600>)
DENSE_CONFIG(b, "dense_u16_desc_300", w_dprim, DenseCfg<PrimKeys<uint16_t, true>, I64Vals, fc::SearchMode::Binary, 150, 260, 520>)
