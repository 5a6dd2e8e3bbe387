#pragma once
#include "expr.hpp"

#include <string>
#include <vector>

namespace sx
{
enum class Res { Sat, Unsat, Unknown };

struct SolverStats
{
    uint64_t queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0;
    double time = 0, maxTime = 0;
};
extern SolverStats g_stats;

class Solver
{
public:
    Solver();
    ~Solver();
    // Is (AND pc) AND extra satisfiable?  `base` is a model of pc; on Sat, out is a model of pc AND extra.
    Res check(const std::vector<E>& pc, E extra, const ModelP& base, ModelP* out);
    unsigned timeoutMs = 60000;
    std::string dumpDir;

private:
    struct Impl;
    Impl* p;
};
}
