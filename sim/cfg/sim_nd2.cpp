// FLAGS: -O2 -DNDEBUG -Dkressler=kressler_nd -DSIM_NS=nd -DSIM_SUF="_nd"
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "sim_div3_desc_9_11", w_simk, TreeCfg<TrackedKeys<3, true>, TrackedVals, 9, 11, fc::SearchMode::Linear, SimDoms<true, true>>)
