// FLAGS: -O2 -DNDEBUG -Dkressler=kressler_nd -DSIM_NS=nd -DSIM_SUF="_nd"
#include "pool.cpp"
