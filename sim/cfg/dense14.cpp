// FLAGS: -DNDEBUG
#include "../dense_world.hpp"
using namespace sim;
// vector search requested on a target without vector instructions
DENSE_CONFIG(a, "dense_i32_noavx", w_dprim, DenseCfg<PrimKeys<int32_t>, I64Vals, fc::SearchMode::SIMD, 8, 16, 33>)
DENSE_CONFIG(b, "dense_i64_linear", w_dprim, DenseCfg<PrimKeys<int64_t, true>, I64Vals, fc::SearchMode::Linear, 4, 8, 18>)
