// C17: functions and methods called through the library get exactly the arguments given, in order, once
//@ std: c++98
//@ cd: pack
//@ bounds: every arity from 0 to 20; all argument values; every truncation of the argument stream
//@ entries: vfun17.h
#include "vfun17.h"
