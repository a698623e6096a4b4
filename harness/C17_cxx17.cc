// C17 with variadic templates (C++17)
//@ std: c++17
//@ cd: pack
//@ entries: vfun17.h
//@ entries: vfunx17.h
//@ entries: vfunne.h
#include "vfun17.h"
#include "vfunne.h"
#include "vfunx17.h"
