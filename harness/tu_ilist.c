#include <bfdev/config.h>
#undef BFDEV_DEBUG_ILIST
#undef BFDEV_DEBUG_LIST
#include "src/ilist.c"
