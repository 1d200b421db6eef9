// C16: program trees with the pool allocators the library uses by default.
#define NS c16pool
#include "c16.h"
using namespace c16pool;
UNIT(tree_structure, 300, 6000, "assign_self,assign_other,swap,swap_subtrees,pushed,to_leaf,audited,walked") { structureCase(r); }
UNIT(tree_text, 300, 5000, "read_back") { roundCase(r); }
UNIT(tree_init, 300, 5000, "initialised,full_tree,ramped") { initCase(r); }
UNIT(tree_ramped, 60, 800, "ramped_pop") { rampedPop(r); }
UNIT(tree_ops, 400, 8000, "xover_changed,branch,point,expansion,collapse,hoist") { opCase(r); }
UNIT(typed_ops, 400, 8000, "typed_init,typed_xover,typed_branch,typed_point,typed_hoist") { typedCase(r); }
UNIT(tree_reach, 2, 20, "reach") { reachCase(r); }
UNIT_T(tree_big, 2, 20, 240, "big") { bigCase(r); }
