#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(a, "dense_t", w_dense, DenseCfg<TrackedKeys<1>, TrackedVals, fc::SearchMode::Binary, 7, 12, 21>)
DENSE_CONFIG(b, "dense_div3", w_dense, DenseCfg<TrackedKeys<3, true>, TrackedVals, fc::SearchMode::Linear, 5, 8, 16>)
