#include "../tree_reg.hpp"
using namespace sim;
// allocators that do not travel with the elements
TREE_CONFIG(a, "np_ff_8_8", w_noprop, TreeCfg<TrackedKeys<1>, TrackedVals, 8, 8, fc::SearchMode::Binary, SimDoms<false, false>>)
TREE_CONFIG(b, "np_tf_9_8", w_noprop, TreeCfg<TrackedKeys<1>, TrackedVals, 9, 8, fc::SearchMode::Binary, SimDoms<true, false>>)
