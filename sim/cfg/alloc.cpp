#include "../alloc_world.hpp"
using namespace sim;
static int wa(const std::string& p) {
  if (p == "C13") return 4;
  if (std::strstr("C09,C10,C11,C12,C15,C16,C17,C05,C25,C28", p.c_str())) return 2;
  return 0;
}
static void reg() { worlds().push_back(World{"alloc", "alloc" SIM_SUF, alloc_ops(), &AllocWorld::gen, &AllocWorld::run, &wa}); }
static LazyReg lazy(&reg);
