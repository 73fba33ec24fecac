// FLAGS: -mavx2 -mfma
#include "../conc_world.hpp"
using namespace sim;
READER_CONFIG(a, "r_i16_huge", TreeCfg<PrimKeys<int16_t>, I64Vals, 12, 8, fc::SearchMode::SIMD, HugeDoms>)
READER_CONFIG(b, "r_u8_multi", TreeCfg<PrimKeys<uint8_t>, I64Vals, 8, 8, fc::SearchMode::SIMD, MultiDoms>)
