// C17: as C17.cc, with the headers that functiondb.sh writes, where these differ from the ones in the tree
//@ std: c++98
//@ cd: pack
//@ need: functiondb
//@ entries: vfun17.h
#include "vfun17.h"
