// FLAGS: -O2 -DNDEBUG -Dkressler=kressler_nd -DSIM_NS=nd -DSIM_SUF="_nd"
#include "../dense_world.hpp"
using namespace sim;
DENSE_CONFIG(a, "dense_t", w_dense, DenseCfg<TrackedKeys<1>, TrackedVals, fc::SearchMode::Binary, 6, 11, 20>)
DENSE_CONFIG(b, "dense_div3", w_dense, DenseCfg<TrackedKeys<3, true>, TrackedVals, fc::SearchMode::Linear, 5, 9, 16>)
