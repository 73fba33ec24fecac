// FLAGS: -mavx2 -mfma
#include "../conc_world.hpp"
using namespace sim;
PRIVATE_CONFIG(a, "p_u8_simd_40", TreeCfg<PrimKeys<uint8_t>, I64Vals, 40, 33, fc::SearchMode::SIMD, StdDoms>)
PRIVATE_CONFIG(b, "p_i16_desc_simd_20", TreeCfg<PrimKeys<int16_t, true>, I64Vals, 20, 17, fc::SearchMode::SIMD, StdDoms>)
