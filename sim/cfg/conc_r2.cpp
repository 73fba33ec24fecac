// FLAGS: -mavx2 -mfma
#include "../conc_world.hpp"
using namespace sim;
READER_CONFIG(a, "r_str_linear_8", TreeCfg<StringKeys<>, StrVals, 8, 9, fc::SearchMode::Linear, StdDoms>)
READER_CONFIG(b, "r_f64_default", TreeCfg<PrimKeys<double>, BigVals<64, 32>, 0, 0, fc::SearchMode::SIMD, StdDoms>)
