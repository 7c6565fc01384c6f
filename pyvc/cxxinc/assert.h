#include "cvdecl.h"
#define assert(x) ((void)0)
