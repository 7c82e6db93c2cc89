/* er7_utils allocates with new and delete: the harness has no class attributes for the memory manager */
#ifdef __cplusplus
#pragma push_macro("TRICK_VER")
#undef TRICK_VER
#include "er7_utils/interface/include/alloc.hh"
#pragma pop_macro("TRICK_VER")
#endif
