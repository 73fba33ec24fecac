#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "sim_div3_desc_8_8", w_simk, TreeCfg<TrackedKeys<3, true>, TrackedVals, 8, 8, fc::SearchMode::Linear, SimDoms<true, true>>)
TREE_CONFIG(b, "sim_t11_16", w_sim, TreeCfg<TrackedKeys<1>, TrackedVals, 11, 16, fc::SearchMode::Binary, SimDoms<true, true>>)
