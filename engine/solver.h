#pragma once
#include "expr.h"
#include <z3.h>
enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, resets = 0, fpdefs = 0; double time = 0, maxq = 0; };
extern SolverStats g_sstats;
extern unsigned long g_solverRlimit; extern unsigned g_solverTimeout;
// Is the conjunction of pc and extra satisfiable? If so fill in a model.
Res solverCheck(const std::vector<E>& pc, E extra, Model* m);
void solverInit();
