#include "../tree_reg.hpp"
using namespace sim;
using MA = TreeCfg<TrackedKeys<1>, TrackedVals, 8, 9, fc::SearchMode::Binary, MultiDoms>;
using MB = TreeCfg<PrimKeys<int32_t>, I64Vals, 12, 8, fc::SearchMode::Linear, MultiDoms>;
MIX_CONFIG(a, "mix_multi", w_mixm, MA, MB)
