#include "../tree_reg.hpp"
using namespace sim;
TREE_CONFIG(a, "str_8_8", w_str, TreeCfg<StringKeys<>, StrVals, 8, 8, fc::SearchMode::Binary, StdDoms>)
TREE_CONFIG(b, "str_ci_9_8", w_str, TreeCfg<CiKeys, StrVals, 9, 8, fc::SearchMode::Linear, StdDoms>)
