// C17, C++17 with the unrolled definitions
//@ std: c++17
//@ cd: pack
//@ defs: USE_UNROLLED
//@ entries: vfun17.h
//@ entries: vfunne.h
#include "vfun17.h"
#include "vfunne.h"
