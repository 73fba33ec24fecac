// FLAGS: -mavx2 -mfma
#include "../dense_world.hpp"
using namespace sim;
// the other search modes over primitive keys
DENSE_CONFIG(a, "dense_u8_linear", w_dprim, DenseCfg<PrimKeys<uint8_t>, I64Vals, fc::SearchMode::Linear, 9, 35, 80>)
DENSE_CONFIG(b, "dense_i32_desc_binary", w_dprim, DenseCfg<PrimKeys<int32_t, true>, I64Vals, fc::SearchMode::Binary, 9, 16, 33>)
DENSE_CONFIG(c, "dense_f64_linear", w_dprim, DenseCfg<PrimKeys<double>, I64Vals, fc::SearchMode::Linear, 7, 13, 22>)
DENSE_CONFIG(d, "dense_u64_binary", w_dprim, DenseCfg<PrimKeys<uint64_t>, I64Vals, fc::SearchMode::Binary, 5, 12, 25>)
