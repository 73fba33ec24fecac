// FLAGS: -mavx2 -mfma
#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "huge_t8_8", w_pool, TreeCfg<TrackedKeys<1>, TrackedVals, 8, 8, fc::SearchMode::Binary, HugeDoms>)
TREE_CONFIG(b, "huge_big_9_8", w_pool, TreeCfg<PrimKeys<int64_t>, BigVals<256, 128>, 9, 8, fc::SearchMode::SIMD, HugeDoms>)
