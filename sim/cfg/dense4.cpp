// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(c, "dense_i16", w_dprim, DenseCfg<PrimKeys<int16_t>, TrackedVals, fc::SearchMode::SIMD, 17, 24, 50>)
DENSE_CONFIG(d, "dense_u16_desc", w_dprim, DenseCfg<PrimKeys<uint16_t, true>, I64Vals, fc::SearchMode::SIMD, 8, 31, 64>)
