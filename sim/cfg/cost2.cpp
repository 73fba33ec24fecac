// FLAGS: -mavx2 -mfma
#include "../cost_world.hpp"
using namespace sim;
COST_CONFIG(a, "cost_i64_linear_16_8", TreeCfg<PrimKeys<int64_t>, BigVals<64, 32>, 16, 8, fc::SearchMode::Linear, StdDoms>)
COST_CONFIG(b, "cost_i64_simd_default", TreeCfg<PrimKeys<int64_t>, I64Vals, 0, 0, fc::SearchMode::SIMD, StdDoms>)
