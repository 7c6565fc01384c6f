#include "cvdecl.h"
