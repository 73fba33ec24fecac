// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(a, "dense_i8", w_dprim, DenseCfg<PrimKeys<int8_t>, I64Vals, fc::SearchMode::SIMD, 9, 40, 100>)
DENSE_CONFIG(b, "dense_u8_desc", w_dprim, DenseCfg<PrimKeys<uint8_t, true>, I64Vals, fc::SearchMode::SIMD, 16, 33, 70>)
