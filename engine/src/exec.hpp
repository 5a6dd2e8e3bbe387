#pragma once
#include "expr.hpp"
#include "solver.hpp"

#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>

#include <array>
#include <chrono>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace sx
{
using u64 = uint64_t;

enum ObjKind : uint8_t { OGlobal, OFunc, OStack, ONew, ONewArr, OMalloc, OExn };

struct ObjData
{
    std::vector<uint8_t> conc;
    std::vector<E> sym;            // empty when everything is concrete; nullptr = concrete byte
    std::vector<bool> uninit;      // empty when everything is initialised
};

struct MemObj
{
    u64 base = 0, size = 0;
    ObjKind kind = OGlobal;
    bool alive = false, readonly = false, scopeDead = false;
    std::shared_ptr<ObjData> data;
    const std::string* where = nullptr;  // allocation site (interned) or global name
};

struct Memory
{
    static constexpr size_t CH = 64;
    struct Chunk { std::array<MemObj, CH> o; };
    std::vector<std::shared_ptr<Chunk>> chunks;
    size_t count = 0;
    u64 next = 0x10000;
    const MemObj& get(size_t i) const { return chunks[i / CH]->o[i % CH]; }
    MemObj& mut(size_t i)
    {
        auto& c = chunks[i / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        return c->o[i % CH];
    }
    ObjData& data(size_t i)
    {
        MemObj& m = mut(i);
        if (m.data.use_count() > 1) m.data = std::make_shared<ObjData>(*m.data);
        return *m.data;
    }
    size_t alloc(u64 size, ObjKind k, const std::string* where, bool uninit, u64 align = 16);
    long find(u64 addr) const;  // index of the object whose [base, base+size] (or red zone) covers addr, or -1
};

struct KInst
{
    const llvm::Instruction* I;
    int dest;               // register or -1
    std::vector<int> ops;   // >=0 register, <0 constant index -(i+1)
};
struct KFunc
{
    const llvm::Function* F;
    std::vector<KInst> code;
    std::unordered_map<const llvm::BasicBlock*, int> start;
    std::vector<int> blockOf;  // not used for dispatch
    unsigned nregs = 0;
    std::string name;
    bool sparrow = false;
};

struct Frame
{
    KFunc* f;
    int pc;
    const llvm::BasicBlock* prev = nullptr;
    std::vector<E> regs;
    std::vector<size_t> allocas;
    std::vector<E> varargs;
};

struct Input
{
    E e;
    std::string name;
};

// Facts already established on a path (expression id -> value): immutable shared layers below a private top.
struct Known
{
    typedef std::unordered_map<uint32_t, u128> Map;
    Map top;
    std::vector<std::shared_ptr<const Map>> layers;
    const u128* find(uint32_t id) const
    {
        auto it = top.find(id);
        if (it != top.end()) return &it->second;
        for (size_t i = layers.size(); i-- > 0;)
        {
            auto jt = layers[i]->find(id);
            if (jt != layers[i]->end()) return &jt->second;
        }
        return nullptr;
    }
    u128& operator[](uint32_t id) { return top[id]; }
    void freeze()
    {
        if (top.empty()) return;
        while (!layers.empty() && layers.back()->size() < 2 * top.size())
        {
            for (auto& kv : *layers.back()) top.insert(kv);
            layers.pop_back();
        }
        layers.push_back(std::make_shared<const Map>(std::move(top)));
        top.clear();
    }
};

struct State
{
    std::vector<Frame> stack;
    Memory mem;
    std::vector<E> pc;
    ModelP model;
    Known known;
    std::vector<Input> inputs;
    std::vector<E> observed;
    std::map<std::string, unsigned> counters;
    unsigned uninitCounter = 0;
    bool ignoreLeaks = false;
    u64 instrs = 0;
    unsigned forks = 0;
    std::set<std::string> reached;
    u64 pendExn = 0;
    int pendSel = 0;
};
typedef std::unique_ptr<State> StateP;

struct Violation
{
    std::string kind, label, where;
    std::vector<std::string> stack;
    std::vector<std::tuple<std::string, unsigned, u64>> inputs;
};
struct Sample
{
    std::vector<std::tuple<std::string, unsigned, u64>> inputs;
    std::vector<u64> observed;
};

struct MergeAbort {};   // the side of a branch being executed speculatively cannot be merged
// A two-way branch whose sides can be executed and joined again at `target` (its immediate post-dominator).
struct MergeSite
{
    const llvm::BasicBlock* target = nullptr;
    unsigned ok[2] = {0, 0}, failed[2] = {0, 0};
};
struct MergeRun
{
    size_t depth;                    // stack depth of the branching frame
    const llvm::BasicBlock* target;
    bool solver;                     // false: nothing may consult the solver or the model
    bool reached = false;
};
struct PathEnd {};      // current state is finished
struct Restart {};      // re-execute the current instruction

class Executor
{
public:
    Executor(llvm::Module& m);
    void run(const std::string& entry);

    // configuration
    double timeBudget = 600;
    u64 maxPathInstrs = 4000000;
    u64 maxTotalInstrs = 4000000000ull;
    unsigned maxViolations = 1;
    unsigned sampleEvery = 1;
    unsigned maxSamples = 40;
    bool verbose = false;
    bool scopeCheck = true;
    unsigned maxConcretise = 70000;
    bool merging = true;

    // results
    std::vector<Violation> violations;
    std::vector<Sample> samples;
    std::vector<std::string> errors;
    std::map<std::string, u64> reach;
    std::map<std::string, std::pair<u64, u64>> asserts;  // label -> (evaluated, decided by the solver / symbolic)
    std::set<std::string> stubs;
    u64 merges = 0, mergeTried = 0;
    u64 paths = 0, infeasible = 0, forks = 0, instrs = 0, branches = 0, memChecks = 0, symAddr = 0;
    std::map<std::string, u64> funcs;  // sparrow functions executed
    std::map<std::string, u64> forkSites;
    bool complete = false;
    double wall = 0;
    Solver solver;
    std::string profile() const;

private:
    llvm::Module& M;
    const llvm::DataLayout& DL;
    std::unordered_map<const llvm::Function*, std::unique_ptr<KFunc>> kfuncs;
    std::unordered_map<const llvm::Constant*, E> constCache;
    std::vector<E> constTab;
    std::unordered_map<const llvm::Constant*, int> constIdx;
    std::unordered_map<const llvm::GlobalValue*, u64> gaddr;
    std::unordered_map<u64, const llvm::Function*> faddr;
    std::unordered_map<u64, std::string> gname;
    std::vector<StateP> work;
    StateP cur;
    u64 startInstr = 0;
    std::unordered_map<std::string, std::string*> interned;
    u64 sampleCounter = 0;
    std::vector<std::string> throwTrace;
    std::map<u64, int> selectors;
    std::chrono::steady_clock::time_point t0;

    // set-up
    void initGlobals(State& s);
    void writeConst(State& s, size_t obj, u64 off, const llvm::Constant* c);
    E constVal(const llvm::Constant* c);
    E constExpr(const llvm::ConstantExpr* ce);
    KFunc* kfunc(const llvm::Function* f);
    unsigned widthOf(llvm::Type* t) const;
    E zeroOf(llvm::Type* t);

    // execution
    std::unordered_map<const llvm::Instruction*, MergeSite> mergeSites;
    std::vector<MergeRun> mruns;
    u64 specLimit = 0;
    std::unordered_map<const llvm::Function*, std::unordered_map<const llvm::BasicBlock*, const llvm::BasicBlock*>> normalPostDoms;
    MergeSite& mergeSite(const llvm::BranchInst* b);
    bool tryMerge(const llvm::BranchInst* b, E cond, bool useSolver, const ModelP& mt, const ModelP& mf);
    bool joinStates(State& x, State& y, E cond, const llvm::BasicBlock* target, const State& base);
    bool noFork() const { return !mruns.empty(); }
    bool noSolver() const { return !mruns.empty() && !mruns.back().solver; }
    void step();
    void exec(const KInst& k);
    void jump(const llvm::BasicBlock* from, const llvm::BasicBlock* to, State& s);
    void ret(E v);
    void call(const KInst& k);
    void doCall(const llvm::Function* f, std::vector<E> args, const llvm::CallBase* cb, int dest);
    bool builtin(const llvm::Function* f, const std::string& n, std::vector<E>& args, const llvm::CallBase* cb, E& result);
    bool intrinsic(const llvm::Function* f, std::vector<E>& args, const llvm::CallBase* cb, E& result);
    void finishCall(E result, const llvm::CallBase* cb, int dest);
    void unwind(u64 exn, u64 tinfo);
    bool landing(const llvm::LandingPadInst* lp, u64 tinfo, int& sel);
    bool isA(u64 ti, u64 base);
    int selectorOf(u64 ti);

    // values
    E val(const Frame& f, int op) { return op >= 0 ? f.regs[op] : constTab[-op - 1]; }
    E op(const KInst& k, unsigned i) { return val(cur->stack.back(), k.ops[i]); }
    void set(const KInst& k, E v) { cur->stack.back().regs[k.dest] = v; }
    E gep(const llvm::GEPOperator* g, const std::vector<E>& ops);
    E castOp(unsigned opc, E v, llvm::Type* from, llvm::Type* to);
    E binOp(unsigned opc, E a, E b);
    E cmpOp(llvm::CmpInst::Predicate p, E a, E b);

    // decisions
    void addConstraint(State& s, E c);
    int feasible(E cond, ModelP& mt, ModelP& mf);  // 1, 0 or 2 with models for both sides
    int decide(E cond, StateP* other);  // 1 true, 0 false, 2 both: cur takes true, *other is a clone with !cond
    u64 concretise(E e, const char* what);
    StateP cloneCur();

    // memory
    long resolve(E addr, u64 n, bool write, u64& off, bool fork);
    E load(E addr, llvm::Type* t);
    void store(E addr, E v, llvm::Type* t);
    E readInt(size_t obj, u64 off, unsigned bits);
    E readByte(size_t obj, u64 off);
    E loadAt(size_t obj, u64 off, llvm::Type* t);
    void writeInt(size_t obj, u64 off, E v);
    void storeAt(size_t obj, u64 off, E v, llvm::Type* t);
    void memcopy(E dst, E src, u64 n);
    void memset_(E dst, E v, u64 n);
    std::string cstr(u64 a);
    u64 readWord(u64 addr);
    void checkAccess(u64 addr, u64 n, bool write, long& obj);
    void freeObj(u64 p, ObjKind k);

    // reporting
    [[noreturn]] void violate(const std::string& kind, const std::string& label, bool end = true, ModelP m = nullptr);
    void report(const std::string& kind, const std::string& label, ModelP m);
    void pathDone();
    void leakCheck();
    const std::string* where();
    std::vector<std::string> stackTrace();
    [[noreturn]] void engineError(const std::string& msg);
    std::vector<std::tuple<std::string, unsigned, u64>> inputsOf(const ModelP& m);
    const std::string* intern(const std::string& s);
};

struct EngineError { std::string msg; };
}
