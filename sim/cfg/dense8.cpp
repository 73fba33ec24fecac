// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(e, "dense_f64_desc", w_dprim, DenseCfg<PrimKeys<double, true>, I64Vals, fc::SearchMode::SIMD, 6, 13, 22>)
