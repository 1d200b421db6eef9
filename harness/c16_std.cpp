// C16: the same with the standard allocators, where the sanitizer sees every node.
#define _MT
#define NS c16std
#include "c16.h"
using namespace c16std;
UNIT(std_structure, 150, 3000, "assign_self,assign_other,swap,swap_subtrees,pushed,to_leaf") { structureCase(r); }
UNIT(std_text, 100, 2000, "read_back") { roundCase(r); }
UNIT(std_init, 100, 2000, "initialised,full_tree,ramped") { initCase(r); }
UNIT(std_ops, 150, 3000, "xover_changed,branch,point,expansion,collapse,hoist") { opCase(r); }
UNIT(std_typed, 150, 3000, "typed_xover,typed_branch,typed_point,typed_hoist") { typedCase(r); }
