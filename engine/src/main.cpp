#include "exec.hpp"

#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <sys/resource.h>

using namespace llvm;

int main(int argc, char** argv)
{
    std::string bc, entry, out;
    double budget = 600;
    bool verbose = false, merging = true;
    unsigned maxV = 1, timeoutMs = 60000, maxSamples = 20;
    uint64_t maxPath = 4000000;
    std::string dump;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx();
        else if (a == "--out") out = nx();
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--max-violations") maxV = atoi(nx().c_str());
        else if (a == "--solver-timeout") timeoutMs = atoi(nx().c_str());
        else if (a == "--max-path") maxPath = strtoull(nx().c_str(), nullptr, 10);
        else if (a == "--samples") maxSamples = atoi(nx().c_str());
        else if (a == "--dump-smt") dump = nx();
        else if (a == "--no-merge") merging = false;
        else if (a == "-v") verbose = true;
        else bc = a;
    }
    struct rlimit rl{64ull << 20, RLIM_INFINITY};
    setrlimit(RLIMIT_STACK, &rl);
    LLVMContext ctx;
    SMDiagnostic err;
    auto M = parseIRFile(bc, err, ctx);
    if (!M)
    {
        err.print("symex", errs());
        return 2;
    }
    sx::Executor ex(*M);
    ex.timeBudget = budget;
    ex.verbose = verbose;
    ex.merging = merging;
    ex.maxViolations = maxV;
    ex.maxSamples = maxSamples;
    ex.maxPathInstrs = maxPath;
    ex.solver.timeoutMs = timeoutMs;
    ex.solver.dumpDir = dump;
    ex.run(entry);

    auto inputs = [](const std::vector<std::tuple<std::string, unsigned, uint64_t>>& v)
    {
        json::Array a;
        for (auto& t : v) a.push_back(json::Array{std::get<0>(t), (int64_t) std::get<1>(t), std::to_string(std::get<2>(t))});
        return a;
    };
    json::Object o;
    o["entry"] = entry;
    o["complete"] = ex.complete;
    o["paths"] = (int64_t) ex.paths;
    o["infeasible"] = (int64_t) ex.infeasible;
    o["forks"] = (int64_t) ex.forks;
    o["instructions"] = (int64_t) ex.instrs;
    o["branch_decisions"] = (int64_t) ex.branches;
    o["memory_checks"] = (int64_t) ex.memChecks;
    o["symbolic_addresses"] = (int64_t) ex.symAddr;
    o["merges"] = (int64_t) ex.merges;
    o["merges_tried"] = (int64_t) ex.mergeTried;
    o["wall_s"] = ex.wall;
    auto& s = sx::g_stats;
    o["queries"] = (int64_t) s.queries;
    o["z3_queries"] = (int64_t) s.z3calls;
    o["z3_sat"] = (int64_t) s.sat;
    o["z3_unsat"] = (int64_t) s.unsat;
    o["z3_unknown"] = (int64_t) s.unknown;
    o["cache_hits"] = (int64_t) s.cacheHits;
    o["model_hits"] = (int64_t) s.modelHits;
    o["solver_s"] = s.time;
    o["solver_max_s"] = s.maxTime;
    json::Array er, vs, ss, fn, st;
    for (auto& e : ex.errors) er.push_back(json::fixUTF8(e));
    for (auto& v : ex.violations)
    {
        json::Array tr;
        for (auto& l : v.stack) tr.push_back(json::fixUTF8(l));
        vs.push_back(json::Object{{"kind", v.kind}, {"label", json::fixUTF8(v.label)}, {"where", json::fixUTF8(v.where)}, {"stack", std::move(tr)}, {"inputs", inputs(v.inputs)}});
    }
    for (auto& sm : ex.samples)
    {
        json::Array ob;
        for (auto x : sm.observed) ob.push_back(std::to_string(x));
        ss.push_back(json::Object{{"inputs", inputs(sm.inputs)}, {"observed", std::move(ob)}});
    }
    for (auto& f : ex.funcs) fn.push_back(json::fixUTF8(f.first));
    for (auto& f : ex.stubs) st.push_back(f);
    json::Object re, as;
    for (auto& r : ex.reach) re[r.first] = (int64_t) r.second;
    for (auto& r : ex.asserts) as[json::fixUTF8(r.first)] = json::Array{(int64_t) r.second.first, (int64_t) r.second.second};
    o["errors"] = std::move(er);
    o["violations"] = std::move(vs);
    o["samples"] = std::move(ss);
    o["functions"] = std::move(fn);
    o["stubs"] = std::move(st);
    o["reach"] = std::move(re);
    o["asserts"] = std::move(as);
    o["profile"] = json::fixUTF8(ex.profile());
    std::error_code ec;
    if (out.empty()) outs() << formatv("{0:2}\n", json::Value(std::move(o)));
    else
    {
        raw_fd_ostream f(out, ec);
        f << formatv("{0:1}\n", json::Value(std::move(o)));
    }
    fflush(stdout);
    _exit(0);
}
