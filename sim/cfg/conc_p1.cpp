// FLAGS: -mavx2 -mfma
#include "../conc_world.hpp"
using namespace sim;
PRIVATE_CONFIG(a, "p_i64_std", TreeCfg<PrimKeys<int64_t>, I64Vals, 8, 8, fc::SearchMode::SIMD, StdDoms>)
PRIVATE_CONFIG(b, "p_str_std", TreeCfg<StringKeys<>, StrVals, 9, 8, fc::SearchMode::Linear, StdDoms>)
