#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "sim_t8_8", w_sim, TreeCfg<TrackedKeys<1>, TrackedVals, 8, 8, fc::SearchMode::Binary, SimDoms<true, true>>)
TREE_CONFIG(b, "sim_t8_9", w_sim, TreeCfg<TrackedKeys<1, true>, TrackedVals, 8, 9, fc::SearchMode::Linear, SimDoms<true, true>>)
