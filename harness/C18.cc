// C18: messages between processes arrive whole, once and in order
//@ std: c++98
//@ cd: pack
//@ entries: vmp.h
//@ bounds: 1 to 3 (thorough: 4) processes; every choice of which process runs next and which of several messages arrives first (first 2 choices; thorough 4); sent data: arbitrary values, strings of up to 2 characters
//@ assume: processes are the library's own clients run to their next wait one inside another; MPI itself is a model (harness/mpi.h)
#include "vmp.h"
