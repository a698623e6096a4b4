#pragma once
#include "expr.h"
namespace sx {
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, unknown = 0, sat = 0, unsat = 0; double z3time = 0; double maxq = 0; };
extern SolverStats sstats;
extern unsigned solverTimeoutMs;
// Is (pc && extra) satisfiable?  On SAT, m is updated on the symbols of the relevant slice.
Res solve(const std::vector<E>& pc, E extra, Model& m);
bool dumpSmt(const std::vector<E>& pc, E extra, const std::string& file);
}
