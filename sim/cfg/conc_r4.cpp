// FLAGS: -mavx2 -mfma
#include "../conc_world.hpp"
using namespace sim;
READER_CONFIG(a, "r_i8_simd_70_40", TreeCfg<PrimKeys<int8_t>, I64Vals, 70, 40, fc::SearchMode::SIMD, StdDoms>)
READER_CONFIG(b, "r_u16_desc_simd_40_20", TreeCfg<PrimKeys<uint16_t, true>, I64Vals, 40, 20, fc::SearchMode::SIMD, PolDoms>)
