#include "../tree_reg.hpp"
using namespace sim;
// several keys per equivalence class; default-sized and odd node sizes
TREE_CONFIG(a, "sim_div3_9_8", w_simk, TreeCfg<TrackedKeys<3>, TrackedVals, 9, 8, fc::SearchMode::Binary, SimDoms<true, true>>)
TREE_CONFIG(b, "sim_t16_8", w_sim, TreeCfg<TrackedKeys<1>, TrackedVals, 16, 8, fc::SearchMode::Linear, SimDoms<true, true>>)
