// FLAGS: -O2 -DNDEBUG -Dkressler=kressler_nd -DSIM_NS=nd -DSIM_SUF="_nd"
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "pol_t9_8", w_pol, TreeCfg<TrackedKeys<1>, TrackedVals, 9, 8, fc::SearchMode::Linear, PolDoms>)
