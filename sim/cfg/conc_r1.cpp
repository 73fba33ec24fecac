// FLAGS: -mavx2 -mfma
#include "../conc_world.hpp"
using namespace sim;
READER_CONFIG(a, "r_i64_simd_8", TreeCfg<PrimKeys<int64_t>, I64Vals, 8, 8, fc::SearchMode::SIMD, StdDoms>)
READER_CONFIG(b, "r_i32_binary_9", TreeCfg<PrimKeys<int32_t, true>, I64Vals, 9, 8, fc::SearchMode::Binary, StdDoms>)
