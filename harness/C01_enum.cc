// C01, enums described by symbol as well
//@ std: c++98
//@ cd: pack typeName
//@ gen: venum.h -> venum.cd : -typeName -nodef -onbase -i $SRC pack unpack
//@ bounds: every 32 bit value
#include "sym.h"
#include "pack_base.h"
#include "pack_stl.h"
#include "venum.h"
#include "venum.cd"
#include "classdesc_epilogue.h"
using namespace classdesc; using namespace ve;
// enums keep their value in binary form, large and negative ones too
template <class E> static void packed() { E x = E(sym<int>("v")), y = E(0); std::vector<E> v(2, x), w; int t = 5, u = 0; pack_t p; ::pack(p, "", x); p << v << t; ::unpack(p, "", y); p >> w >> u; CHECK(int(x) == int(y) && w.size() == 2 && int(w[0]) == int(x) && int(w[1]) == int(x), "enum values keep all their bits in binary form"); CHECK(u == t && p.pos() == p.size(), "exact consumption"); }
ENTRY(binary) { switch (sym_pick("k", 0, 3)) { case 0: packed<Vals>(); break; case 1: packed<One>(); break; case 2: packed<Global>(); break; case 3: packed<Plain>(); break; } }
