// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(a, "dense_i16_desc", w_dprim, DenseCfg<PrimKeys<int16_t, true>, I64Vals, fc::SearchMode::SIMD, 10, 25, 49>)
DENSE_CONFIG(b, "dense_u16", w_dprim, DenseCfg<PrimKeys<uint16_t>, I64Vals, fc::SearchMode::SIMD, 14, 30, 66>)
