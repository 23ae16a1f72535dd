#pragma once
#include "expr.h"
#include <z3.h>
#include <vector>
#include <string>

struct SolverStats { uint64_t queries = 0, cacheHits = 0, modelHits = 0, z3calls = 0, unknown = 0; double z3time = 0, maxq = 0; uint64_t sat = 0, unsat = 0; };
extern SolverStats g_ss;
extern unsigned g_z3_timeout_ms;
extern std::string g_dumpdir; extern int g_dumpevery; // when set, every z3 query is written there as SMT-LIB2 together with the verdict

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
typedef std::vector<std::pair<uint32_t, uint64_t>> Assign;

void solverInit();
// satisfiability of cons /\ q, slicing cons to the part connected to q; on SAT fills asg for the slice's variables
Res solve(const std::vector<E>& cons, E q, Assign& asg);
