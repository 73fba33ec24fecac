// FLAGS: -mavx2 -mfma
#include "../conc_world.hpp"
using namespace sim;
PRIVATE_CONFIG(a, "p_i32_huge", TreeCfg<PrimKeys<int32_t>, I64Vals, 8, 8, fc::SearchMode::SIMD, HugeDoms>)
PRIVATE_CONFIG(b, "p_u16_pol", TreeCfg<PrimKeys<uint16_t, true>, BigVals<64, 64>, 9, 8, fc::SearchMode::SIMD, PolDoms>)
