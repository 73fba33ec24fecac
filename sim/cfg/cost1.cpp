// FLAGS: -mavx2 -mfma
#include "../cost_world.hpp"
using namespace sim;
COST_CONFIG(a, "cost_i64_8_8", TreeCfg<PrimKeys<int64_t>, I64Vals, 8, 8, fc::SearchMode::Binary, StdDoms>)
COST_CONFIG(b, "cost_i32_simd_9_16", TreeCfg<PrimKeys<int32_t, true>, I64Vals, 9, 16, fc::SearchMode::SIMD, StdDoms>)
