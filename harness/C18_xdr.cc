// C18 with machine independent buffers (HETERO)
//@ std: c++11
//@ defs: XDR_PACK HAVE_LONGLONG HETERO
//@ ir: -I/usr/include/tirpc
//@ native: -I/usr/include/tirpc -ltirpc
//@ cd: pack
//@ entries: vmp.h
#include "sym.h"
#include <string.h>
#include <stdio.h>
#include "xdrmodel.h"
#include "vmp.h"
#include "xdr_pack.cc"
