// FLAGS: -O2 -DNDEBUG -Dkressler=kressler_nd -DSIM_NS=nd -DSIM_SUF="_nd"
#include "../conc_world.hpp"
using namespace sim;
PRIVATE_CONFIG(a, "p_f64_multi", TreeCfg<PrimKeys<double>, I64Vals, 8, 8, fc::SearchMode::SIMD, MultiDoms>)
PRIVATE_CONFIG(b, "p_u32_pol", TreeCfg<PrimKeys<uint32_t>, I64Vals, 9, 8, fc::SearchMode::SIMD, PolDoms>)
