#include "../tree_reg.hpp"
using namespace sim;
using MA = TreeCfg<TrackedKeys<1>, TrackedVals, 8, 9, fc::SearchMode::Binary, PolDoms>;
using MB = TreeCfg<PrimKeys<int32_t>, BigVals<192, 64>, 10, 8, fc::SearchMode::Linear, PolDoms>;
MIX_CONFIG(a, "mix_pol", w_mix, MA, MB)
