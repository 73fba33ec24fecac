// FLAGS: -mavx2 -mfma
#include "../conc_world.hpp"
using namespace sim;
PRIVATE_CONFIG(a, "p_i64_multi", TreeCfg<PrimKeys<int64_t>, I64Vals, 8, 9, fc::SearchMode::Binary, MultiDoms>)
PRIVATE_CONFIG(b, "p_i8_huge", TreeCfg<PrimKeys<int8_t>, I64Vals, 10, 8, fc::SearchMode::SIMD, HugeDoms>)
