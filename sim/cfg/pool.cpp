#include "../pool_world.hpp"
using namespace sim;
static int wp(const std::string& p) {
  if (p == "C28") return 2;
  if (std::strstr("C09,C10,C12,C15,C25", p.c_str())) return 6;
  if (std::strstr("C11,C13,C17", p.c_str())) return 4;
  return 0;
}
static int wm(const std::string& p) {
  if (p == "C14") return 6;
  if (std::strstr("C09,C10,C11,C12,C13,C15,C17,C25,C28", p.c_str())) return 2;
  return 0;
}
static void reg() {
  worlds().push_back(World{"pool", "pool" SIM_SUF, pool_ops(), &PoolWorld::gen, &PoolWorld::run, &wp});
  worlds().push_back(World{"multi", "multi" SIM_SUF, multi_ops(), &MultiPoolWorld::gen, &MultiPoolWorld::run, &wm});
}
static LazyReg lazy(&reg);
