#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(c, "dense_str", w_dense, DenseCfg<StringKeys<>, StrVals, fc::SearchMode::Binary, 1, 9, 14>)
DENSE_CONFIG(d, "dense_rc", w_dense, DenseCfg<PrimKeys<int32_t>, RcVals, fc::SearchMode::Binary, 4, 9, 17>)
