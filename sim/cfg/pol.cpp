#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "pol_t8_8", w_pol, TreeCfg<TrackedKeys<1>, TrackedVals, 8, 8, fc::SearchMode::Binary, PolDoms>)
TREE_CONFIG(b, "pol_big_9_11", w_pol, TreeCfg<PrimKeys<int64_t>, BigVals<256, 128>, 9, 11, fc::SearchMode::SIMD, PolDoms>)
