#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "multi_t8_8", w_pool, TreeCfg<TrackedKeys<1>, TrackedVals, 8, 8, fc::SearchMode::Binary, MultiDoms>)
TREE_CONFIG(b, "multi_big_9_8", w_pool, TreeCfg<PrimKeys<int64_t>, BigVals<256, 64>, 9, 8, fc::SearchMode::SIMD, MultiDoms>)
