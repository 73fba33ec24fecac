// FLAGS: -O2 -DNDEBUG -Dkressler=kressler_nd -DSIM_NS=nd -DSIM_SUF="_nd"
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "sim_t8_8", w_sim, TreeCfg<TrackedKeys<1>, TrackedVals, 8, 8, fc::SearchMode::Binary, SimDoms<true, true>>)
