#pragma once
#include "expr.h"
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, cacheHits = 0, modelHits = 0, unknowns = 0, cvc5 = 0; double secs = 0; };
extern SolverStats g_sstats;
extern unsigned g_rlimit;
extern double (*g_timeLeft)(); // seconds until the time budget is spent
// is (pc && cond) satisfiable; on SAT fills *m with values for the variables of the slice
Res solverCheck(const std::vector<E> &pc, E cond, Model *m);
