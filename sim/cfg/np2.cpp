#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "np_ft_8_9", w_noprop, TreeCfg<TrackedKeys<1>, TrackedVals, 8, 9, fc::SearchMode::Linear, SimDoms<false, true>>)
