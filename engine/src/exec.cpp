#include "exec.hpp"

#include <llvm/IR/CFG.h>
#include <functional>

#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>

#include <algorithm>
#include <cstring>

using namespace llvm;

namespace sx
{
// ------------------------------------------------------------------ memory
size_t Memory::alloc(u64 size, ObjKind k, const std::string* where, bool uninit, u64 align)
{
    if (count % CH == 0 && count / CH == chunks.size()) chunks.push_back(std::make_shared<Chunk>());
    size_t i = count++;
    MemObj& o = mut(i);
    if (align < 16) align = 16;
    next = (next + align - 1) / align * align;
    o = MemObj();
    o.base = next;
    o.size = size;
    o.kind = k;
    o.alive = true;
    o.where = where;
    o.data = std::make_shared<ObjData>();
    o.data->conc.assign(size, 0);
    if (uninit) o.data->uninit.assign(size, true);
    next += size + 32;
    return i;
}

long Memory::find(u64 addr) const
{
    if (!count) return -1;
    // last object with base <= addr
    size_t lo = 0, hi = count;  // invariant: base(lo) <= addr
    if (get(0).base > addr) return -1;
    while (hi - lo > 1)
    {
        size_t m = (lo + hi) / 2;
        if (get(m).base <= addr) lo = m;
        else hi = m;
    }
    return (long) lo;
}

// ------------------------------------------------------------------ set-up
Executor::Executor(Module& m) : M(m), DL(m.getDataLayout()) {}

const std::string* Executor::intern(const std::string& s)
{
    auto& p = interned[s];
    if (!p) p = new std::string(s);
    return p;
}

unsigned Executor::widthOf(Type* t) const
{
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (t->isHalfTy()) return 16;
    if (t->isX86_FP80Ty()) return 80;
    return 0;
}

E Executor::zeroOf(Type* t)
{
    if (auto* st = dyn_cast<StructType>(t))
    {
        std::vector<E> v;
        for (auto* e : st->elements()) v.push_back(zeroOf(e));
        return mkAgg(std::move(v));
    }
    if (auto* at = dyn_cast<ArrayType>(t))
        return mkAgg(std::vector<E>(at->getNumElements(), zeroOf(at->getElementType())));
    if (auto* vt = dyn_cast<FixedVectorType>(t))
        return mkAgg(std::vector<E>(vt->getNumElements(), zeroOf(vt->getElementType())));
    return mkConst(0, widthOf(t));
}

static u128 apToU(const APInt& a)
{
    u128 v = a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth()), 0);
    if (a.getBitWidth() > 64) v |= (u128) a.extractBitsAsZExtValue(std::min(64u, a.getBitWidth() - 64), 64) << 64;
    return v;
}

E Executor::constVal(const Constant* c)
{
    auto it = constCache.find(c);
    if (it != constCache.end()) return it->second;
    E r = nullptr;
    if (auto* ci = dyn_cast<ConstantInt>(c)) r = mkConst(apToU(ci->getValue()), ci->getBitWidth());
    else if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        APInt b = cf->getValueAPF().bitcastToAPInt();
        r = mkConst(apToU(b), b.getBitWidth());
    }
    else if (isa<ConstantPointerNull>(c)) r = mkConst(0, 64);
    else if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantTokenNone>(c)) r = zeroOf(c->getType());
    else if (auto* al = dyn_cast<GlobalAlias>(c)) r = constVal(al->getAliasee());
    else if (auto* gv = dyn_cast<GlobalValue>(c))
    {
        auto g = gaddr.find(gv);
        if (g == gaddr.end()) throw EngineError{"no address for global " + gv->getName().str()};
        r = mkConst(g->second, 64);
    }
    else if (auto* ca = dyn_cast<ConstantAggregate>(c))
    {
        std::vector<E> v;
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) v.push_back(constVal(ca->getOperand(i)));
        r = mkAgg(std::move(v));
    }
    else if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        std::vector<E> v;
        for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(constVal(cd->getElementAsConstant(i)));
        r = mkAgg(std::move(v));
    }
    else if (auto* ce = dyn_cast<ConstantExpr>(c)) r = constExpr(ce);
    else throw EngineError{"unsupported constant"};
    constCache[c] = r;
    return r;
}

E Executor::constExpr(const ConstantExpr* ce)
{
    if (auto* g = dyn_cast<GEPOperator>(ce))
    {
        std::vector<E> ops;
        for (unsigned i = 0; i < ce->getNumOperands(); ++i) ops.push_back(constVal(ce->getOperand(i)));
        return gep(g, ops);
    }
    std::vector<E> o;
    for (unsigned i = 0; i < ce->getNumOperands(); ++i) o.push_back(constVal(ce->getOperand(i)));
    if (ce->isCast()) return castOp(ce->getOpcode(), o[0], ce->getOperand(0)->getType(), ce->getType());
    if (ce->isCompare()) return cmpOp((CmpInst::Predicate) ce->getPredicate(), o[0], o[1]);
    return binOp(ce->getOpcode(), o[0], o[1]);
}

KFunc* Executor::kfunc(const Function* f)
{
    auto& p = kfuncs[f];
    if (p) return p.get();
    p = std::make_unique<KFunc>();
    KFunc* k = p.get();
    k->F = f;
    k->name = demangle(f->getName().str());
    k->sparrow = k->name.find("sparrow::") != std::string::npos;
    std::unordered_map<const Value*, int> idx;
    for (auto& a : f->args()) idx[&a] = k->nregs++;
    for (auto& bb : *f)
        for (auto& i : bb)
            if (!i.getType()->isVoidTy()) idx[&i] = k->nregs++;
    for (auto& bb : *f)
    {
        k->start[&bb] = (int) k->code.size();
        for (auto& i : bb)
        {
            if (isa<DbgInfoIntrinsic>(i)) continue;
            KInst ki;
            ki.I = &i;
            ki.dest = i.getType()->isVoidTy() ? -1 : idx[&i];
            for (auto& u : i.operands())
            {
                Value* v = u.get();
                if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v))
                {
                    ki.ops.push_back(0);
                    continue;
                }
                if (auto* c = dyn_cast<Constant>(v))
                {
                    auto it = constIdx.find(c);
                    if (it == constIdx.end())
                    {
                        constTab.push_back(constVal(c));
                        it = constIdx.emplace(c, (int) constTab.size() - 1).first;
                    }
                    ki.ops.push_back(-1 - it->second);
                }
                else ki.ops.push_back(idx.at(v));
            }
            k->code.push_back(std::move(ki));
        }
    }
    return k;
}

void Executor::writeConst(State& s, size_t obj, u64 off, const Constant* c)
{
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
    if (auto* cs = dyn_cast<ConstantStruct>(c))
    {
        auto* sl = DL.getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); ++i) writeConst(s, obj, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c))
    {
        u64 sz = DL.getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) writeConst(s, obj, off + i * sz, ca->getOperand(i));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c))
    {
        u64 sz = DL.getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); ++i) writeConst(s, obj, off + i * sz, cd->getElementAsConstant(i));
        return;
    }
    E v = constVal(c);
    unsigned nb = DL.getTypeStoreSize(c->getType());
    auto& d = s.mem.data(obj);
    for (unsigned i = 0; i < nb; ++i) d.conc[off + i] = (uint8_t) (v->val >> (8 * i));
}

void Executor::initGlobals(State& s)
{
    for (auto& f : M)
    {
        size_t o = s.mem.alloc(16, OFunc, intern(f.getName().str()), false);
        s.mem.mut(o).readonly = true;
        gaddr[&f] = s.mem.get(o).base;
        faddr[s.mem.get(o).base] = &f;
    }
    std::vector<std::pair<const GlobalVariable*, size_t>> gs;
    for (auto& g : M.globals())
    {
        u64 sz = g.getValueType()->isSized() ? (u64) DL.getTypeAllocSize(g.getValueType()) : 64;
        if (g.isDeclaration() && sz < 64) sz = 64;
        size_t o = s.mem.alloc(sz, OGlobal, intern(g.getName().str()), false, g.getAlign() ? g.getAlign()->value() : 16);
        gaddr[&g] = s.mem.get(o).base;
        gname[s.mem.get(o).base] = g.getName().str();
        gs.push_back({&g, o});
    }
    for (auto& p : gs)
    {
        if (p.first->hasInitializer()) writeConst(s, p.second, 0, p.first->getInitializer());
        if (p.first->isConstant()) s.mem.mut(p.second).readonly = true;
    }
}

// ------------------------------------------------------------------ reporting
const std::string* Executor::where()
{
    // innermost frame that is not the runtime; include two callers
    std::string r;
    int n = 0;
    for (auto it = cur->stack.rbegin(); it != cur->stack.rend() && n < 4; ++it)
    {
        const std::string& nm = it->f->name;
        if (nm.rfind("operator new", 0) == 0 || nm.rfind("malloc", 0) == 0 || nm.rfind("__", 0) == 0) continue;
        if (nm.find("sparrow::") == std::string::npos && nm.find("std::") == 0 && n == 0) continue;
        std::string sn = nm.substr(0, nm.find('('));
        if (sn.size() > 160) sn = sn.substr(0, 160);
        r += (n ? " < " : "") + sn;
        ++n;
    }
    return intern(r);
}

std::vector<std::string> Executor::stackTrace()
{
    std::vector<std::string> r;
    for (auto it = cur->stack.rbegin(); it != cur->stack.rend(); ++it)
    {
        const Instruction* I = it->f->code[it->pc].I;
        std::string loc;
        if (const DebugLoc& d = I->getDebugLoc())
        {
            DILocation* dl = d.get();
            for (; dl; dl = dl->getInlinedAt())
            {
                std::string fn = dl->getFilename().str();
                if (fn.find("/c++/") != std::string::npos && dl->getInlinedAt()) continue;
                auto q = fn.find("sparrow/");
                if (q == std::string::npos) q = fn.rfind("harness/");
                if (q == std::string::npos) q = fn.find("src/");
                if (q != std::string::npos) fn = fn.substr(q);
                if (dl->getLine()) loc += " " + fn + ":" + std::to_string(dl->getLine());
            }
        }
        r.push_back(it->f->name.substr(0, 200) + " @" + loc);
        if (r.size() > 25) break;
    }
    return r;
}

std::vector<std::tuple<std::string, unsigned, u64>> Executor::inputsOf(const ModelP& m)
{
    std::vector<std::tuple<std::string, unsigned, u64>> r;
    for (auto& i : cur->inputs) r.emplace_back(i.name, i.e->width, (u64) m->eval(i.e));
    return r;
}

void Executor::report(const std::string& kind, const std::string& label, ModelP m)
{
    if (noFork()) throw MergeAbort{};
    if (!m) m = cur->model;
    Violation v;
    v.kind = kind;
    v.label = label;
    v.stack = throwTrace.empty() || kind != "uncaught-exception" ? stackTrace() : throwTrace;
    for (auto& o : violations)
        if (o.kind == kind && o.stack == v.stack && (kind == "assertion" ? o.label == label : true)) return;
    v.where = v.stack.empty() ? "" : v.stack[0];
    v.inputs = inputsOf(m);
    violations.push_back(v);
    if (verbose)
    {
        errs() << "VIOLATION " << kind << ": " << label << "\n";
        for (auto& l : v.stack) errs() << "    " << l << "\n";
    }
}

void Executor::violate(const std::string& kind, const std::string& label, bool, ModelP m)
{
    report(kind, label, m);
    throw PathEnd{};
}

void Executor::engineError(const std::string& msg)
{
    std::string st;
    if (cur && !cur->stack.empty())
    {
        auto t = stackTrace();
        for (size_t i = 0; i < t.size() && i < 6; ++i) st += "\n    " + t[i];
    }
    throw EngineError{msg + st};
}

// ------------------------------------------------------------------ decisions
StateP Executor::cloneCur()
{
    if (noFork()) throw MergeAbort{};
    forks++;
    cur->known.freeze();
    return std::make_unique<State>(*cur);
}

void Executor::addConstraint(State& s, E c)
{
    if (isTrue(c)) return;
    if (c->kind == KAnd)
    {
        addConstraint(s, c->a);
        addConstraint(s, c->b);
        return;
    }
    s.pc.push_back(c);
    s.known[c->id] = 1;
    s.known[mkNot(c)->id] = 0;
    if (c->kind == KEq && c->b->isConst()) s.known[c->a->id] = c->b->val;
}

int Executor::feasible(E cond, ModelP& mt, ModelP& mf)
{
    if (cond->isConst()) return cond->val ? 1 : 0;
    branches++;
    if (auto* k = cur->known.find(cond->id)) return *k ? 1 : 0;
    if (noSolver()) throw MergeAbort{};
    bool v = cur->model->eval(cond);
    ModelP m2;
    Res r = solver.check(cur->pc, v ? mkNot(cond) : cond, cur->model, &m2);
    if (r == Res::Unknown) engineError("solver gave no answer (timeout) on a branch condition");
    if (r == Res::Unsat)
    {
        cur->known[cond->id] = v;
        return v ? 1 : 0;
    }
    mt = v ? cur->model : m2;
    mf = v ? m2 : cur->model;
    return 2;
}

int Executor::decide(E cond, StateP* other)
{
    ModelP mt, mf;
    int d = feasible(cond, mt, mf);
    if (d != 2) return d;
    *other = cloneCur();
    cur->forks++;
    cur->model = mt;
    (*other)->model = mf;
    addConstraint(*cur, cond);
    addConstraint(**other, mkNot(cond));
    auto& f = cur->stack.back();
    const Instruction* I = f.f->code[f.pc].I;
    std::string loc = f.f->name.substr(0, 80);
    if (I->getDebugLoc()) loc += ":" + std::to_string(I->getDebugLoc().getLine());
    forkSites[loc]++;
    return 2;
}

u64 Executor::concretise(E e, const char* what)
{
    if (e->isConst()) return (u64) e->val;
    auto* k = cur->known.find(e->id);
    if (k) return (u64) *k;
    if (noSolver()) throw MergeAbort{};
    u128 v = cur->model->eval(e);
    E eq = mkCmp(KEq, e, mkConst(v, e->width));
    ModelP m2;
    Res r = solver.check(cur->pc, mkNot(eq), cur->model, &m2);
    if (r == Res::Unknown) engineError(std::string("solver gave no answer while enumerating ") + what);
    if (r == Res::Sat)
    {
        StateP o = cloneCur();
        o->model = m2;
        addConstraint(*o, mkNot(eq));
        work.push_back(std::move(o));  // re-executes the current instruction
        forkSites[std::string("concretise ") + what + " " + *where()]++;
        addConstraint(*cur, eq);
        if (++cur->counters["$conc"] > maxConcretise) engineError("too many concretisations");
    }
    cur->known[e->id] = v;
    return (u64) v;
}

// ------------------------------------------------------------------ memory access
static std::string objDesc(const MemObj& o)
{
    static const char* n[] = {"global", "function", "stack", "heap(new)", "heap(new[])", "heap(malloc)", "exception"};
    return std::string(n[o.kind]) + " object of " + std::to_string(o.size) + " bytes [" + (o.where ? *o.where : "") + "]";
}

void Executor::checkAccess(u64 addr, u64 n, bool write, long& obj)
{
    memChecks++;
    obj = cur->mem.find(addr);
    const char* rw = write ? "write" : "read";
    if (addr < 0x1000 || obj < 0) violate("null-dereference", std::string(rw) + " of " + std::to_string(n) + " bytes through a null or tiny pointer");
    const MemObj& o = cur->mem.get(obj);
    if (addr + n > o.base + o.size || addr + n < addr)
        violate("out-of-bounds", std::string(rw) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((long) (addr - o.base)) + " of " + objDesc(o));
    if (!o.alive) violate("use-after-free", std::string(rw) + " in dead " + objDesc(o));
    if (o.scopeDead && scopeCheck) violate("use-after-scope", std::string(rw) + " in " + objDesc(o));
    if (write && o.readonly) violate("write-to-constant", "write to read-only " + objDesc(o));
    if (o.kind == OFunc) violate("bad-pointer", "data access to a function");
}

// Resolves an address to (object, concrete offset); forks over the feasible offsets.
long Executor::resolve(E addr, u64 n, bool write, u64& off, bool)
{
    if (!addr->isConst()) symAddr++;
    u64 a = concretise(addr, "address");
    long obj;
    checkAccess(a, n, write, obj);
    off = a - cur->mem.get(obj).base;
    return obj;
}

E Executor::readByte(size_t obj, u64 off)
{
    const MemObj& o = cur->mem.get(obj);
    if (!o.data->uninit.empty() && o.data->uninit[off])
    {
        E sy = mkSym("uninit", cur->uninitCounter++, 8);
        ObjData& d = cur->mem.data(obj);
        if (d.sym.empty()) d.sym.assign(o.size, nullptr);
        d.sym[off] = sy;
        d.uninit[off] = false;
        return sy;
    }
    if (!o.data->sym.empty() && o.data->sym[off]) return o.data->sym[off];
    return mkConst(o.data->conc[off], 8);
}

E Executor::readInt(size_t obj, u64 off, unsigned bits)
{
    unsigned nb = (bits + 7) / 8;
    const MemObj& o = cur->mem.get(obj);
    const ObjData& d = *o.data;
    bool conc = true;
    if (!d.uninit.empty())
        for (unsigned i = 0; i < nb; ++i)
            if (d.uninit[off + i]) conc = false;
    if (conc && !d.sym.empty())
        for (unsigned i = 0; i < nb; ++i)
            if (d.sym[off + i]) conc = false;
    if (conc)
    {
        u128 v = 0;
        for (unsigned i = 0; i < nb; ++i) v |= (u128) d.conc[off + i] << (8 * i);
        return mkConst(v, bits);
    }
    E r = readByte(obj, off);
    for (unsigned i = 1; i < nb; ++i) r = mkConcat(readByte(obj, off + i), r);
    if (r->kind == KExtract) r = mkExtract(r->a, r->aux, r->width);
    if (bits != 8 * nb) r = mkExtract(r, 0, bits);
    return r;
}

E Executor::loadAt(size_t obj, u64 off, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t))
    {
        auto* sl = DL.getStructLayout(st);
        std::vector<E> v;
        for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(loadAt(obj, off + sl->getElementOffset(i), st->getElementType(i)));
        return mkAgg(std::move(v));
    }
    if (t->isArrayTy() || isa<FixedVectorType>(t))
    {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        u64 sz = DL.getTypeAllocSize(et);
        std::vector<E> v;
        for (u64 i = 0; i < n; ++i) v.push_back(loadAt(obj, off + i * sz, et));
        return mkAgg(std::move(v));
    }
    return readInt(obj, off, widthOf(t));
}

static E tableSelect(const std::vector<E>& tab, E idx, unsigned bit, size_t lo)
{
    // idx bits [bit-1 .. 0] select within [lo, lo + 2^bit)
    if (lo >= tab.size()) return tab.back();
    if (bit == 0) return tab[lo];
    E l = tableSelect(tab, idx, bit - 1, lo);
    E h = tableSelect(tab, idx, bit - 1, lo + ((size_t) 1 << (bit - 1)));
    if (l == h) return l;
    return mkIte(mkExtract(idx, bit - 1, 1), h, l);
}

E Executor::load(E addr, Type* t)
{
    u64 n = DL.getTypeStoreSize(t);
    if (!addr->isConst() && !t->isAggregateType() && !t->isVectorTy() && !t->isPointerTy() && n <= 8)
    {
        if (!cur->known.find(addr->id))
        {
            symAddr++;
            if (noSolver()) throw MergeAbort{};
            u64 a = (u64) cur->model->eval(addr);
            long obj;
            checkAccess(a, n, false, obj);
            const MemObj& o = cur->mem.get(obj);
            u64 base = o.base, size = o.size;
            E inb = mkCmp(KUle, mkBin(KSub, addr, mkConst(base, 64)), mkConst(size - n, 64));
            StateP other;
            int d = decide(inb, &other);
            if (d == 2) work.push_back(std::move(other));  // re-executes, its model lies elsewhere
            // enumerate offsets
            E offE = mkBin(KSub, addr, mkConst(base, 64));
            std::vector<u64> offs;
            ModelP m = cur->model;
            E excl = mkBool(true);
            bool many = false;
            while (true)
            {
                u64 v = (u64) m->eval(offE);
                offs.push_back(v);
                if (offs.size() > 12) { many = true; break; }
                excl = mkAnd1(excl, mkNot(mkCmp(KEq, offE, mkConst(v, 64))));
                ModelP m2;
                Res r = solver.check(cur->pc, excl, cur->model, &m2);
                if (r == Res::Unknown) engineError("solver gave no answer while enumerating load offsets");
                if (r == Res::Unsat) break;
                m = m2;
            }
            unsigned bits = widthOf(t);
            if (!many)
            {
                std::sort(offs.begin(), offs.end());
                E r = readInt(obj, offs[0], bits);
                for (size_t i = 1; i < offs.size(); ++i)
                    r = mkIte(mkCmp(KEq, offE, mkConst(offs[i], 64)), readInt(obj, offs[i], bits), r);
                return r;
            }
            unsigned sh = n == 1 ? 0 : n == 2 ? 1 : n == 4 ? 2 : n == 8 ? 3 : 99;
            if (sh != 99 && size / n <= 70000)
            {
                bool aligned = true;
                if (sh)
                {
                    E mis = mkNot(mkCmp(KEq, mkExtract(offE, 0, sh), mkConst(0, sh)));
                    Res r = solver.check(cur->pc, mis, cur->model, nullptr);
                    aligned = r == Res::Unsat;
                }
                if (aligned)
                {
                    std::vector<E> tab;
                    for (u64 i = 0; i + 1 <= size / n; ++i) tab.push_back(readInt(obj, i * n, bits));
                    unsigned nb = 0;
                    while (((size_t) 1 << nb) < tab.size()) ++nb;
                    E idx = mkExtract(offE, sh, std::max(1u, nb));
                    return tableSelect(tab, idx, nb, 0);
                }
            }
        }
    }
    u64 off;
    long obj = resolve(addr, n, false, off, true);
    return loadAt(obj, off, t);
}

void Executor::writeInt(size_t obj, u64 off, E v)
{
    unsigned nb = (v->width + 7) / 8;
    ObjData& d = cur->mem.data(obj);
    if (!d.uninit.empty())
        for (unsigned i = 0; i < nb; ++i) d.uninit[off + i] = false;
    if (v->isConst())
    {
        for (unsigned i = 0; i < nb; ++i) d.conc[off + i] = (uint8_t) (v->val >> (8 * i));
        if (!d.sym.empty())
            for (unsigned i = 0; i < nb; ++i) d.sym[off + i] = nullptr;
        return;
    }
    if (d.sym.empty()) d.sym.assign(d.conc.size(), nullptr);
    if (v->width != nb * 8) v = mkZExt(v, nb * 8);
    for (unsigned i = 0; i < nb; ++i)
    {
        E b = mkByte(v, i);
        if (b->isConst())
        {
            d.conc[off + i] = (uint8_t) b->val;
            d.sym[off + i] = nullptr;
        }
        else d.sym[off + i] = b;
    }
}

void Executor::storeAt(size_t obj, u64 off, E v, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t))
    {
        auto* sl = DL.getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) storeAt(obj, off + sl->getElementOffset(i), (*v->agg)[i], st->getElementType(i));
        return;
    }
    if (t->isArrayTy() || isa<FixedVectorType>(t))
    {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 sz = DL.getTypeAllocSize(et);
        for (size_t i = 0; i < v->agg->size(); ++i) storeAt(obj, off + i * sz, (*v->agg)[i], et);
        return;
    }
    writeInt(obj, off, v);
}

void Executor::store(E addr, E v, Type* t)
{
    u64 n = DL.getTypeStoreSize(t);
    if (!addr->isConst() && !t->isAggregateType() && !t->isVectorTy() && !t->isPointerTy() && n <= 8 && !cur->known.find(addr->id))
    {
        symAddr++;
        if (noSolver()) throw MergeAbort{};
        u64 a = (u64) cur->model->eval(addr);
        long obj;
        checkAccess(a, n, true, obj);
        const MemObj& o = cur->mem.get(obj);
        u64 base = o.base, size = o.size;
        E offE = mkBin(KSub, addr, mkConst(base, 64));
        StateP other;
        int d = decide(mkCmp(KUle, offE, mkConst(size - n, 64)), &other);
        if (d == 2) work.push_back(std::move(other));
        std::vector<u64> offs;
        ModelP m = cur->model;
        E excl = mkBool(true);
        bool many = false;
        while (true)
        {
            u64 x = (u64) m->eval(offE);
            offs.push_back(x);
            if (offs.size() > 16) { many = true; break; }
            excl = mkAnd1(excl, mkNot(mkCmp(KEq, offE, mkConst(x, 64))));
            ModelP m2;
            Res r = solver.check(cur->pc, excl, cur->model, &m2);
            if (r == Res::Unknown) engineError("solver gave no answer while enumerating store offsets");
            if (r == Res::Unsat) break;
            m = m2;
        }
        bool uninit = false;
        {
            const ObjData& dt = *cur->mem.get(obj).data;
            if (!dt.uninit.empty())
                for (u64 x : offs)
                    for (u64 i = 0; i < n; ++i) uninit |= dt.uninit[x + i];
        }
        if (!many && (!uninit || offs.size() == 1))
        {
            unsigned bits = widthOf(t);
            for (u64 x : offs)
                writeInt(obj, x, offs.size() == 1 ? v : mkIte(mkCmp(KEq, offE, mkConst(x, 64)), v, readInt(obj, x, bits)));
            return;
        }
    }
    u64 off;
    long obj = resolve(addr, n, true, off, true);
    storeAt(obj, off, v, t);
}

void Executor::memcopy(E dst, E src, u64 n)
{
    if (n == 0) return;
    u64 d = concretise(dst, "memcpy destination"), s = concretise(src, "memcpy source");
    long od, os;
    checkAccess(s, n, false, os);
    checkAccess(d, n, true, od);
    u64 so = s - cur->mem.get(os).base, doff = d - cur->mem.get(od).base;
    ObjData tmp;
    {
        const ObjData& sd = *cur->mem.get(os).data;
        tmp.conc.assign(sd.conc.begin() + so, sd.conc.begin() + so + n);
        if (!sd.sym.empty()) tmp.sym.assign(sd.sym.begin() + so, sd.sym.begin() + so + n);
        if (!sd.uninit.empty()) tmp.uninit.assign(sd.uninit.begin() + so, sd.uninit.begin() + so + n);
    }
    // uninitialised bytes: make them symbols in the source so that both copies agree
    if (!tmp.uninit.empty())
        for (u64 i = 0; i < n; ++i)
            if (tmp.uninit[i])
            {
                E b = readByte(os, so + i);
                if (tmp.sym.empty()) tmp.sym.assign(n, nullptr);
                tmp.sym[i] = b;
            }
    ObjData& dd = cur->mem.data(od);
    std::copy(tmp.conc.begin(), tmp.conc.end(), dd.conc.begin() + doff);
    if (!tmp.sym.empty())
    {
        if (dd.sym.empty()) dd.sym.assign(dd.conc.size(), nullptr);
        std::copy(tmp.sym.begin(), tmp.sym.end(), dd.sym.begin() + doff);
    }
    else if (!dd.sym.empty()) std::fill(dd.sym.begin() + doff, dd.sym.begin() + doff + n, nullptr);
    if (!dd.uninit.empty())
        for (u64 i = 0; i < n; ++i) dd.uninit[doff + i] = false;
}

void Executor::memset_(E dst, E v, u64 n)
{
    if (n == 0) return;
    u64 d = concretise(dst, "memset destination");
    long od;
    checkAccess(d, n, true, od);
    u64 doff = d - cur->mem.get(od).base;
    E b = mkExtract(v, 0, 8);
    for (u64 i = 0; i < n; ++i) writeInt(od, doff + i, b);
}

std::string Executor::cstr(u64 a)
{
    std::string r;
    for (;; ++a)
    {
        long o;
        checkAccess(a, 1, false, o);
        E b = readByte(o, a - cur->mem.get(o).base);
        if (!b->isConst() || b->val == 0) break;
        r.push_back((char) b->val);
        if (r.size() > 4000) break;
    }
    return r;
}

u64 Executor::readWord(u64 addr)
{
    long o;
    checkAccess(addr, 8, false, o);
    E e = readInt(o, addr - cur->mem.get(o).base, 64);
    return concretise(e, "runtime word");
}

void Executor::freeObj(u64 p, ObjKind k)
{
    if (!p) return;
    long o = cur->mem.find(p);
    if (o < 0) violate("bad-free", "free of a wild pointer");
    const MemObj& m = cur->mem.get(o);
    if (p != m.base || m.kind < ONew) violate("bad-free", "free of a pointer not obtained from the allocator: " + objDesc(m));
    if (!m.alive) violate("double-free", "second release of " + objDesc(m));
    if (m.kind != k) violate("alloc-dealloc-mismatch", objDesc(m));
    MemObj& mm = cur->mem.mut(o);
    mm.alive = false;
    mm.data = std::make_shared<ObjData>();
}

void Executor::leakCheck()
{
    if (cur->ignoreLeaks) return;
    size_t n = cur->mem.count;
    bool any = false;
    for (size_t i = 0; i < n; ++i)
    {
        const MemObj& o = cur->mem.get(i);
        if (o.alive && o.kind >= ONew) { any = true; break; }
    }
    if (!any) return;
    std::vector<char> mark(n, 0);
    std::vector<size_t> q;
    for (size_t i = 0; i < n; ++i)
    {
        const MemObj& o = cur->mem.get(i);
        if (o.kind == OGlobal && !o.readonly && o.alive) { mark[i] = 1; q.push_back(i); }
    }
    while (!q.empty())
    {
        size_t i = q.back();
        q.pop_back();
        const MemObj& o = cur->mem.get(i);
        for (u64 off = 0; off + 8 <= o.size; off += 8)
        {
            bool sym = false;
            if (!o.data->sym.empty())
                for (int b = 0; b < 8; ++b) sym |= o.data->sym[off + b] != nullptr;
            if (sym) continue;
            u64 v = 0;
            memcpy(&v, &o.data->conc[off], 8);
            if (v < 0x10000) continue;
            long t = cur->mem.find(v);
            if (t < 0 || mark[t]) continue;
            const MemObj& to = cur->mem.get(t);
            if (!to.alive || v > to.base + to.size) continue;
            mark[t] = 1;
            q.push_back(t);
        }
    }
    for (size_t i = 0; i < n; ++i)
    {
        const MemObj& o = cur->mem.get(i);
        if (o.alive && o.kind >= ONew && !mark[i])
        {
            report("leak", "never released: " + objDesc(o), nullptr);
            return;
        }
    }
}

void Executor::pathDone()
{
    leakCheck();
    paths++;
    for (auto& r : cur->reached) reach[r]++;
    if (sampleCounter++ % sampleEvery == 0)
    {
        Sample s;
        s.inputs = inputsOf(cur->model);
        for (E o : cur->observed) s.observed.push_back((u64) cur->model->eval(o));
        samples.push_back(std::move(s));
        if (samples.size() >= 2 * maxSamples)
        {
            std::vector<Sample> h;
            for (size_t i = 0; i < samples.size(); i += 2) h.push_back(std::move(samples[i]));
            samples.swap(h);
            sampleEvery *= 2;
        }
    }
}

// ------------------------------------------------------------------ operations
E Executor::gep(const GEPOperator* g, const std::vector<E>& ops)
{
    E r = ops[0];
    if (r->kind == KAgg) throw EngineError{"vector gep"};
    unsigned i = 1;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i)
    {
        E idx = ops[i];
        if (StructType* st = it.getStructTypeOrNull())
        {
            u64 off = DL.getStructLayout(st)->getElementOffset((unsigned) idx->val);
            r = mkBin(KAdd, r, mkConst(off, 64));
        }
        else
        {
            u64 sz = DL.getTypeAllocSize(it.getIndexedType());
            if (idx->width < 64) idx = mkSExt(idx, 64);
            r = mkBin(KAdd, r, mkBin(KMul, idx, mkConst(sz, 64)));
        }
    }
    return r;
}

E Executor::castOp(unsigned opc, E v, Type* from, Type* to)
{
    if (v->kind == KAgg && opc != Instruction::BitCast)
    {
        std::vector<E> r;
        for (E x : *v->agg) r.push_back(castOp(opc, x, from->getScalarType(), to->getScalarType()));
        return mkAgg(std::move(r));
    }
    unsigned w = widthOf(to);
    switch (opc)
    {
        case Instruction::Trunc: return mkExtract(v, 0, w);
        case Instruction::ZExt: return mkZExt(v, w);
        case Instruction::SExt: return mkSExt(v, w);
        case Instruction::PtrToInt:
        case Instruction::IntToPtr: return mkZExt(v, w);
        case Instruction::AddrSpaceCast: return v;
        case Instruction::BitCast:
        {
            bool av = v->kind == KAgg, tv = to->isVectorTy();
            if (!av && !tv) return v;
            E flat = v;
            if (av)
            {
                flat = (*v->agg)[0];
                for (size_t i = 1; i < v->agg->size(); ++i) flat = mkConcat((*v->agg)[i], flat);
            }
            if (!tv) return flat;
            auto* vt = cast<FixedVectorType>(to);
            unsigned ew = widthOf(vt->getElementType());
            std::vector<E> r;
            for (unsigned i = 0; i < vt->getNumElements(); ++i) r.push_back(mkExtract(flat, i * ew, ew));
            return mkAgg(std::move(r));
        }
        case Instruction::FPTrunc:
        case Instruction::FPExt: return mkFConv(KFToFP, v, w);
        case Instruction::UIToFP: return mkFConv(KUIToFP, v, w);
        case Instruction::SIToFP: return mkFConv(KSIToFP, v, w);
        case Instruction::FPToUI: return mkFConv(KFPToUI, v, w);
        case Instruction::FPToSI: return mkFConv(KFPToSI, v, w);
        default: throw EngineError{"unsupported cast"};
    }
}

E Executor::binOp(unsigned opc, E a, E b)
{
    if (a->kind == KAgg)
    {
        std::vector<E> r;
        for (size_t i = 0; i < a->agg->size(); ++i) r.push_back(binOp(opc, (*a->agg)[i], (*b->agg)[i]));
        return mkAgg(std::move(r));
    }
    switch (opc)
    {
        case Instruction::Add: return mkBin(KAdd, a, b);
        case Instruction::Sub: return mkBin(KSub, a, b);
        case Instruction::Mul: return mkBin(KMul, a, b);
        case Instruction::UDiv: return mkBin(KUDiv, a, b);
        case Instruction::SDiv: return mkBin(KSDiv, a, b);
        case Instruction::URem: return mkBin(KURem, a, b);
        case Instruction::SRem: return mkBin(KSRem, a, b);
        case Instruction::And: return mkBin(KAnd, a, b);
        case Instruction::Or: return mkBin(KOr, a, b);
        case Instruction::Xor: return mkBin(KXor, a, b);
        case Instruction::Shl: return mkBin(KShl, a, b);
        case Instruction::LShr: return mkBin(KLShr, a, b);
        case Instruction::AShr: return mkBin(KAShr, a, b);
        case Instruction::FAdd: return mkFBin(KFAdd, a, b);
        case Instruction::FSub: return mkFBin(KFSub, a, b);
        case Instruction::FMul: return mkFBin(KFMul, a, b);
        case Instruction::FDiv: return mkFBin(KFDiv, a, b);
        case Instruction::FRem: return mkFBin(KFRem, a, b);
        default: throw EngineError{"unsupported binary operator"};
    }
}

E Executor::cmpOp(CmpInst::Predicate p, E a, E b)
{
    if (a->kind == KAgg)
    {
        std::vector<E> r;
        for (size_t i = 0; i < a->agg->size(); ++i) r.push_back(cmpOp(p, (*a->agg)[i], (*b->agg)[i]));
        return mkAgg(std::move(r));
    }
    switch (p)
    {
        case CmpInst::ICMP_EQ: return mkCmp(KEq, a, b);
        case CmpInst::ICMP_NE: return mkNot(mkCmp(KEq, a, b));
        case CmpInst::ICMP_UGT: return mkCmp(KUlt, b, a);
        case CmpInst::ICMP_UGE: return mkCmp(KUle, b, a);
        case CmpInst::ICMP_ULT: return mkCmp(KUlt, a, b);
        case CmpInst::ICMP_ULE: return mkCmp(KUle, a, b);
        case CmpInst::ICMP_SGT: return mkCmp(KSlt, b, a);
        case CmpInst::ICMP_SGE: return mkCmp(KSle, b, a);
        case CmpInst::ICMP_SLT: return mkCmp(KSlt, a, b);
        case CmpInst::ICMP_SLE: return mkCmp(KSle, a, b);
        case CmpInst::FCMP_FALSE: return mkBool(false);
        case CmpInst::FCMP_TRUE: return mkBool(true);
        case CmpInst::FCMP_OEQ: return mkFCmp(KFEq, a, b);
        case CmpInst::FCMP_OGT: return mkFCmp(KFLt, b, a);
        case CmpInst::FCMP_OGE: return mkFCmp(KFLe, b, a);
        case CmpInst::FCMP_OLT: return mkFCmp(KFLt, a, b);
        case CmpInst::FCMP_OLE: return mkFCmp(KFLe, a, b);
        case CmpInst::FCMP_ONE: return mkAnd1(mkNot(mkFCmp(KFUno, a, b)), mkNot(mkFCmp(KFEq, a, b)));
        case CmpInst::FCMP_ORD: return mkNot(mkFCmp(KFUno, a, b));
        case CmpInst::FCMP_UNO: return mkFCmp(KFUno, a, b);
        case CmpInst::FCMP_UEQ: return mkOr1(mkFCmp(KFUno, a, b), mkFCmp(KFEq, a, b));
        case CmpInst::FCMP_UGT: return mkNot(mkFCmp(KFLe, a, b));
        case CmpInst::FCMP_UGE: return mkNot(mkFCmp(KFLt, a, b));
        case CmpInst::FCMP_ULT: return mkNot(mkFCmp(KFLe, b, a));
        case CmpInst::FCMP_ULE: return mkNot(mkFCmp(KFLt, b, a));
        case CmpInst::FCMP_UNE: return mkNot(mkFCmp(KFEq, a, b));
        default: throw EngineError{"unsupported comparison"};
    }
}

// ------------------------------------------------------------------ control
void Executor::jump(const BasicBlock* from, const BasicBlock* to, State& s)
{
    Frame& f = s.stack.back();
    int p = f.f->start.at(to);
    std::vector<std::pair<int, E>> upd;
    while (true)
    {
        const KInst& k = f.f->code[p];
        auto* phi = dyn_cast<PHINode>(k.I);
        if (!phi) break;
        int i = phi->getBasicBlockIndex(from);
        upd.emplace_back(k.dest, val(f, k.ops[i]));
        ++p;
    }
    for (auto& u : upd) f.regs[u.first] = u.second;
    f.prev = from;
    f.pc = p;
    if (!mruns.empty() && s.stack.size() == mruns.back().depth && to == mruns.back().target) mruns.back().reached = true;
}

// ------------------------------------------------------------------ joining the two sides of a branch
static std::vector<const BasicBlock*> normalSuccessors(const BasicBlock* b)
{
    std::vector<const BasicBlock*> r;
    auto* t = b->getTerminator();
    if (auto* inv = dyn_cast<InvokeInst>(t)) r.push_back(inv->getNormalDest());
    else if (isa<BranchInst>(t) || isa<SwitchInst>(t))
        for (auto* y : successors(b)) r.push_back(y);
    return r;
}

// block -> immediate post-dominator (null: the exit); only blocks that can return are in the map
static std::unordered_map<const BasicBlock*, const BasicBlock*> normalPostDominators(const Function* F)
{
    std::unordered_map<const BasicBlock*, std::vector<const BasicBlock*>> preds;
    std::vector<const BasicBlock*> rets;
    for (auto& x : *F)
    {
        if (isa<ReturnInst>(x.getTerminator())) rets.push_back(&x);
        for (auto* y : normalSuccessors(&x)) preds[y].push_back(&x);
    }
    // post-order from the exit over reversed edges
    std::unordered_map<const BasicBlock*, int> num;
    std::vector<const BasicBlock*> post;
    std::unordered_set<const BasicBlock*> seen;
    std::function<void(const BasicBlock*)> dfs = [&](const BasicBlock* x)
    {
        if (!seen.insert(x).second) return;
        for (auto* y : preds[x]) dfs(y);
        num[x] = static_cast<int>(post.size());
        post.push_back(x);
    };
    for (auto* r : rets) dfs(r);
    const int EXIT = static_cast<int>(post.size());
    std::vector<int> idom(post.size() + 1, -1);
    idom[EXIT] = EXIT;
    auto meet = [&](int a, int c)
    {
        while (a != c)
        {
            while (a < c) a = idom[a];
            while (c < a) c = idom[c];
        }
        return a;
    };
    for (bool changed = true; changed;)
    {
        changed = false;
        for (int i = EXIT - 1; i >= 0; --i)
        {
            int n = -1;
            if (isa<ReturnInst>(post[i]->getTerminator())) n = EXIT;
            for (auto* y : normalSuccessors(post[i]))
            {
                auto it = num.find(y);
                if (it == num.end() || idom[it->second] < 0) continue;
                n = n < 0 ? it->second : meet(n, it->second);
            }
            if (n >= 0 && idom[i] != n) { idom[i] = n; changed = true; }
        }
    }
    std::unordered_map<const BasicBlock*, const BasicBlock*> r;
    for (int i = 0; i < EXIT; ++i) r[post[i]] = idom[i] < 0 || idom[i] == EXIT ? nullptr : post[idom[i]];
    return r;
}

MergeSite& Executor::mergeSite(const BranchInst* b)
{
    auto it = mergeSites.find(b);
    if (it != mergeSites.end()) return it->second;
    MergeSite& s = mergeSites[b];
    // immediate post-dominator over the normal edges (no unwinding, no blocks that cannot return): a side
    // that leaves through another edge never arrives at it, and the two sides are then explored separately
    const Function* F = b->getFunction();
    auto pd = normalPostDoms.find(F);
    if (pd == normalPostDoms.end()) pd = normalPostDoms.emplace(F, normalPostDominators(F)).first;
    auto ip = pd->second.find(b->getParent());
    if (ip == pd->second.end() || !ip->second) return s;
    const BasicBlock* target = ip->second;
    const auto& live = pd->second;
    // the region must be small and acyclic
    std::vector<const BasicBlock*> order;
    std::unordered_map<const BasicBlock*, int> colour;
    bool bad = false;
    std::function<void(const BasicBlock*)> dfs = [&](const BasicBlock* x)
    {
        if (bad || x == target) return;
        int& c = colour[x];
        if (c == 1 || x == b->getParent()) { bad = true; return; }
        if (c == 2) return;
        c = 1;
        order.push_back(x);
        if (order.size() > 24) { bad = true; return; }
        for (auto* y : normalSuccessors(x)) if (live.count(y)) dfs(y);
        colour[x] = 2;
    };
    for (auto* y : normalSuccessors(b->getParent())) if (live.count(y)) dfs(y);
    if (!bad && target != b->getParent()) s.target = target;
    return s;
}

static E joinInt(E cond, E x, E y) { return x == y ? x : mkIte(cond, x, y); }

// x was reached under cond, y under !cond; on success x holds the join
bool Executor::joinStates(State& x, State& y, E cond, const BasicBlock* target, const State& base)
{
    if (x.stack.size() != y.stack.size() || x.inputs.size() != y.inputs.size() || x.observed.size() != y.observed.size()) return false;
    if (x.uninitCounter != y.uninitCounter || x.counters != y.counters) return false;
    if (x.pc.size() != base.pc.size() || y.pc.size() != base.pc.size()) return false;
    Frame& fx = x.stack.back();
    Frame& fy = y.stack.back();
    if (fx.pc != fy.pc || fx.allocas.size() != fy.allocas.size()) return false;
    size_t bc = base.mem.count;
    u64 lim = base.mem.next;
    for (auto* s : {&x, &y})
        for (size_t i = bc; i < s->mem.count; ++i)
            if (s->mem.get(i).alive || s->mem.get(i).kind != OStack) return false;
    auto isPtr = [&](E e) { return e->isConst() && e->width == 64 && e->val >= 0x10000 && e->val < lim + 0x100000; };
    auto clash = [&](E a, E b) { return a != b && (isPtr(a) || isPtr(b)); };
    // phi nodes of the join block
    std::vector<std::pair<int, E>> upd;
    for (int p = fx.f->start.at(target); isa<PHINode>(fx.f->code[p].I); ++p)
    {
        const KInst& k = fx.f->code[p];
        E a = fx.regs[k.dest], b = fy.regs[k.dest];
        if (a == b) continue;
        if (k.I->getType()->isPointerTy() || clash(a, b) || a->kind == KAgg || b->kind == KAgg) return false;
        upd.emplace_back(k.dest, joinInt(cond, a, b));
    }
    // memory
    struct Patch { size_t obj; u64 off; E v; };
    std::vector<Patch> patches;
    for (size_t c = 0; c * Memory::CH < bc; ++c)
    {
        if (x.mem.chunks[c] == y.mem.chunks[c]) continue;
        for (size_t i = c * Memory::CH; i < std::min(bc, (c + 1) * Memory::CH); ++i)
        {
            const MemObj& mx = x.mem.get(i);
            const MemObj& my = y.mem.get(i);
            if (mx.alive != my.alive) return false;
            if (mx.scopeDead != my.scopeDead)
            {
                if (mx.kind != OStack) return false;
                const MemObj& mb = base.mem.get(i);
                if (!mb.scopeDead) return false;
            }
            if (mx.data == my.data || !mx.alive || mx.scopeDead || my.scopeDead) continue;
            const ObjData& dx = *mx.data;
            const ObjData& dy = *my.data;
            u64 sz = mx.size;
            auto un = [](const ObjData& d, u64 o) { return !d.uninit.empty() && d.uninit[o]; };
            auto sy = [](const ObjData& d, u64 o) -> E { return d.sym.empty() ? nullptr : d.sym[o]; };
            auto diff = [&](u64 o)
            {
                if (un(dx, o) != un(dy, o)) return true;
                if (un(dx, o)) return false;
                E a = sy(dx, o), b = sy(dy, o);
                return a != b || (!a && dx.conc[o] != dy.conc[o]);
            };
            for (u64 o = 0; o < sz; ++o)
            {
                if (!diff(o)) continue;
                u64 e = o + 1;
                while (e < sz && e < (o | 7) + 1 && diff(e)) ++e;
                // widen to an aligned power-of-two cell inside the object
                u64 w = 1, lo = o;
                while (lo + w < e) { w *= 2; lo = o & ~(w - 1); }
                // a differing pointer shows in its low bytes only: look at the whole word
                u64 q = o & ~7ull;
                bool uninitCell = false;
                for (u64 j = lo; j < lo + w && j < sz; ++j) uninitCell |= un(dx, j) || un(dy, j);
                if (uninitCell || lo + w > sz)
                {
                    if (mx.kind != OStack) return false;
                    return false;
                }
                State* ss[2] = {&x, &y};
                E val2[2], word[2];
                for (int j = 0; j < 2; ++j)
                {
                    StateP hold(ss[j]);
                    std::swap(cur, hold);
                    val2[j] = readInt(i, lo, 8 * w);
                    bool whole = q + 8 <= sz;
                    if (whole)
                        for (u64 z = q; z < q + 8; ++z) whole = whole && !un(j ? dy : dx, z);
                    word[j] = whole ? readInt(i, q, 64) : nullptr;
                    std::swap(cur, hold);
                    hold.release();
                }
                if (word[0] && word[1] && clash(word[0], word[1])) return false;
                patches.push_back({i, lo, joinInt(cond, val2[0], val2[1])});
                o = lo + w - 1;
            }
        }
    }
    // commit
    for (auto& u : upd) fx.regs[u.first] = u.second;
    {
        StateP hold(&x);
        std::swap(cur, hold);
        for (auto& p : patches) writeInt(p.obj, p.off, p.v);
        for (size_t c = 0; c * Memory::CH < bc; ++c)
            if (x.mem.chunks[c] != y.mem.chunks[c])
                for (size_t i = c * Memory::CH; i < std::min(bc, (c + 1) * Memory::CH); ++i)
                    if (y.mem.get(i).scopeDead && !x.mem.get(i).scopeDead) x.mem.mut(i).scopeDead = true;
        // keep addresses unique: continue after the longer of the two
        while (x.mem.count < y.mem.count)
        {
            const MemObj& o = y.mem.get(x.mem.count);
            size_t i = x.mem.alloc(o.size, OStack, o.where, false);
            x.mem.mut(i).alive = false;
        }
        std::swap(cur, hold);
        hold.release();
    }
    for (auto& r : y.reached) x.reached.insert(r);
    x.known = base.known;
    x.model = base.model;
    x.instrs = std::max(x.instrs, y.instrs);
    return true;
}

bool Executor::tryMerge(const BranchInst* b, E cond, bool useSolver, const ModelP& mt, const ModelP& mf)
{
    MergeSite& site = mergeSite(b);
    if (!site.target || mruns.size() >= 6) return false;
    if (useSolver && noSolver()) return false;
    if (site.failed[useSolver] >= 4 && site.ok[useSolver] * 4 < site.failed[useSolver]) return false;
    mergeTried++;
    cur->known.freeze();
    auto base = std::make_unique<State>(*cur);
    size_t depth = cur->stack.size();
    bool outer = mruns.empty();
    if (outer) specLimit = instrs + 3000;
    size_t nruns = mruns.size();
    StateP done[2];
    bool ok = true;
    for (int side = 0; side < 2 && ok; ++side)
    {
        cur = std::make_unique<State>(*base);
        cur->known[cond->id] = side == 0;
        cur->known[mkNot(cond)->id] = side != 0;
        if (useSolver)
        {
            cur->model = side == 0 ? mt : mf;
            cur->pc.push_back(side == 0 ? cond : mkNot(cond));
        }
        mruns.push_back({depth, site.target, useSolver});
        try
        {
            jump(b->getParent(), b->getSuccessor(side), *cur);
            while (!mruns.back().reached)
            {
                if (instrs > specLimit || cur->stack.size() < depth) throw MergeAbort{};
                Frame& t = cur->stack.back();
                cur->instrs++;
                instrs++;
                exec(t.f->code[t.pc]);
            }
        }
        catch (MergeAbort&) { ok = false; }
        catch (PathEnd&) { ok = false; }
        mruns.resize(nruns);
        if (useSolver && ok) ok = cur->pc.size() == base->pc.size() + 1;
        if (useSolver && ok) cur->pc.pop_back();
        done[side] = std::move(cur);
    }
    if (ok && joinStates(*done[0], *done[1], cond, site.target, *base))
    {
        cur = std::move(done[0]);
        // when the join block is also the target of an enclosing run, that run has arrived as well
        if (!mruns.empty() && cur->stack.size() == mruns.back().depth && site.target == mruns.back().target) mruns.back().reached = true;
        merges++;
        site.ok[useSolver]++;
        return true;
    }
    site.failed[useSolver]++;
    cur = std::move(base);
    return false;
}

void Executor::ret(E v)
{
    for (size_t a : cur->stack.back().allocas)
    {
        MemObj& o = cur->mem.mut(a);
        o.alive = false;
        static auto empty = std::make_shared<ObjData>();
        o.data = empty;
    }
    cur->stack.pop_back();
    if (cur->stack.empty()) return;
    Frame& f = cur->stack.back();
    const KInst& k = f.f->code[f.pc];
    if (k.dest >= 0 && v) f.regs[k.dest] = v;
    if (auto* inv = dyn_cast<InvokeInst>(k.I)) jump(inv->getParent(), inv->getNormalDest(), *cur);
    else f.pc++;
}

void Executor::finishCall(E result, const CallBase*, int dest)
{
    Frame& f = cur->stack.back();
    const KInst& k = f.f->code[f.pc];
    if (dest >= 0)
    {
        if (!result) result = zeroOf(k.I->getType());
        f.regs[dest] = result;
    }
    if (auto* inv = dyn_cast<InvokeInst>(k.I)) jump(inv->getParent(), inv->getNormalDest(), *cur);
    else f.pc++;
}

bool Executor::isA(u64 ti, u64 base)
{
    if (ti == base) return true;
    if (!ti) return false;
    u64 vt = readWord(ti);
    long o = cur->mem.find(vt);
    std::string n = o >= 0 ? *cur->mem.get(o).where : "";
    if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") return isA(readWord(ti + 16), base);
    if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE")
    {
        u64 cnt = readWord(ti + 16) >> 32;
        for (u64 i = 0; i < cnt; ++i)
            if (isA(readWord(ti + 24 + 16 * i), base)) return true;
    }
    return false;
}

int Executor::selectorOf(u64 ti)
{
    auto it = selectors.find(ti);
    if (it != selectors.end()) return it->second;
    int n = (int) selectors.size() + 1;
    return selectors[ti] = n;
}

bool Executor::landing(const LandingPadInst* lp, u64 tinfo, int& sel)
{
    for (unsigned i = 0; i < lp->getNumClauses(); ++i)
    {
        Constant* c = lp->getClause(i);
        if (lp->isCatch(i))
        {
            u64 t = (u64) constVal(c)->val;
            if (t == 0 || isA(tinfo, t))
            {
                sel = selectorOf(t);
                return true;
            }
        }
        else
        {
            // filter: the exception must match one of the listed types, else the pad is entered
            bool allowed = false;
            E a = constVal(c);
            if (a->kind == KAgg)
                for (E x : *a->agg)
                    if (isA(tinfo, (u64) x->val)) allowed = true;
            if (!allowed)
            {
                sel = -1;
                return true;
            }
        }
    }
    if (lp->isCleanup())
    {
        sel = 0;
        return true;
    }
    return false;
}

void Executor::unwind(u64 exn, u64 tinfo)
{
    throwTrace = stackTrace();
    while (true)
    {
        Frame& f = cur->stack.back();
        const KInst& k = f.f->code[f.pc];
        if (auto* inv = dyn_cast<InvokeInst>(k.I))
        {
            const LandingPadInst* lp = inv->getLandingPadInst();
            int sel;
            if (landing(lp, tinfo, sel))
            {
                cur->pendExn = exn;
                cur->pendSel = sel;
                jump(inv->getParent(), inv->getUnwindDest(), *cur);
                return;
            }
        }
        for (size_t a : f.allocas)
        {
            MemObj& o = cur->mem.mut(a);
            o.alive = false;
            o.data = std::make_shared<ObjData>();
        }
        if (cur->stack.size() == 1)
        {
            std::string tn = "?";
            auto g = gname.find(tinfo);
            if (g != gname.end()) tn = demangle(g->second);
            violate("uncaught-exception", tn);
        }
        cur->stack.pop_back();
    }
}

void Executor::call(const KInst& k)
{
    auto* cb = cast<CallBase>(k.I);
    if (cb->isInlineAsm())
    {
        // compiler barriers only
        finishCall(nullptr, cb, k.dest);
        return;
    }
    const Function* f = cb->getCalledFunction();
    unsigned na = cb->arg_size();
    std::vector<E> args;
    args.reserve(na);
    for (unsigned i = 0; i < na; ++i) args.push_back(op(k, i));
    if (!f)
    {
        E callee = op(k, k.ops.size() - 1);
        u64 a = concretise(callee, "function pointer");
        auto it = faddr.find(a);
        if (it == faddr.end()) violate("bad-call", a < 0x1000 ? "call through a null function pointer" : "call through a pointer that is not a function");
        f = it->second;
    }
    doCall(f, std::move(args), cb, k.dest);
}

void Executor::doCall(const Function* f, std::vector<E> args, const CallBase* cb, int dest)
{
    E result = nullptr;
    if (f->isIntrinsic())
    {
        if (!intrinsic(f, args, cb, result)) engineError("unsupported intrinsic " + f->getName().str());
        finishCall(result, cb, dest);
        return;
    }
    if (f->isDeclaration())
    {
        std::string n = f->getName().str();
        size_t depth = cur->stack.size();
        int pcBefore = cur->stack.back().pc;
        (void) pcBefore;
        if (n == "__sx_unwind")
        {
            unwind(concretise(args[0], "exception"), concretise(args[1], "typeinfo"));
            return;
        }
        if (!builtin(f, n, args, cb, result)) engineError("call of an unmodelled external function " + demangle(n));
        if (cur->stack.size() == depth) finishCall(result, cb, dest);
        return;
    }
    if (cur->stack.size() > 600) violate("stack-overflow", "recursion deeper than 600 frames");
    KFunc* kf = kfunc(f);
    if (kf->sparrow) funcs[kf->name]++;
    Frame fr;
    fr.f = kf;
    fr.pc = 0;
    fr.regs.assign(kf->nregs, nullptr);
    unsigned i = 0;
    for (auto& a : f->args())
    {
        E v = i < args.size() ? args[i] : zeroOf(a.getType());
        if (a.hasByValAttr())
        {
            Type* t = a.getParamByValType();
            u64 sz = DL.getTypeAllocSize(t);
            size_t o = cur->mem.alloc(sz, OStack, intern("byval argument"), true);
            fr.allocas.push_back(o);
            memcopy(mkConst(cur->mem.get(o).base, 64), v, sz);
            v = mkConst(cur->mem.get(o).base, 64);
        }
        fr.regs[a.getArgNo()] = v;
        ++i;
    }
    cur->stack.push_back(std::move(fr));
}

bool Executor::intrinsic(const Function* f, std::vector<E>& a, const CallBase* cb, E& result)
{
    Intrinsic::ID id = f->getIntrinsicID();
    Type* rt = cb->getType();
    if (rt->isVectorTy() || (a.size() && a[0]->kind == KAgg))
    {
        if (id != Intrinsic::umin && id != Intrinsic::umax && id != Intrinsic::smin && id != Intrinsic::smax) return false;
    }
    unsigned w = rt->isVoidTy() ? 0 : widthOf(rt);
    auto ovf = [&](E r, E o) { result = mkAgg({r, o}); };
    switch (id)
    {
        case Intrinsic::lifetime_start:
        case Intrinsic::lifetime_end:
        {
            if (!a[1]->isConst()) return true;
            long o = cur->mem.find((u64) a[1]->val);
            if (o < 0) return true;
            const MemObj& m = cur->mem.get(o);
            if (m.kind != OStack || m.base != (u64) a[1]->val) return true;
            MemObj& mm = cur->mem.mut(o);
            mm.scopeDead = id == Intrinsic::lifetime_end;
            if (id == Intrinsic::lifetime_start)
            {
                auto d = std::make_shared<ObjData>();
                d->conc.assign(mm.size, 0);
                d->uninit.assign(mm.size, true);
                mm.data = d;
            }
            return true;
        }
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
        case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
            return true;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: result = mkConst(0, 64); return true;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect:
        case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: case Intrinsic::annotation: case Intrinsic::ptr_annotation:
            result = a[0];
            return true;
        case Intrinsic::threadlocal_address: result = a[0]; return true;
        case Intrinsic::is_constant: result = mkBool(a[0]->isConst()); return true;
        case Intrinsic::objectsize: result = mkConst(a[1]->val ? 0 : maskOf(w), w); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
            memcopy(a[0], a[1], concretise(a[2], "memcpy length"));
            return true;
        case Intrinsic::memset: case Intrinsic::memset_inline:
            memset_(a[0], a[1], concretise(a[2], "memset length"));
            return true;
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
        {
            auto one = [&](E x, E y)
            {
                bool sg = id == Intrinsic::smin || id == Intrinsic::smax;
                E lt = mkCmp(sg ? KSlt : KUlt, x, y);
                return (id == Intrinsic::umin || id == Intrinsic::smin) ? mkIte(lt, x, y) : mkIte(lt, y, x);
            };
            if (a[0]->kind == KAgg)
            {
                std::vector<E> r;
                for (size_t i = 0; i < a[0]->agg->size(); ++i) r.push_back(one((*a[0]->agg)[i], (*a[1]->agg)[i]));
                result = mkAgg(std::move(r));
            }
            else result = one(a[0], a[1]);
            return true;
        }
        case Intrinsic::abs: result = mkIte(mkCmp(KSlt, a[0], mkConst(0, w)), mkBin(KSub, mkConst(0, w), a[0]), a[0]); return true;
        case Intrinsic::ctpop:
        {
            E r = mkConst(0, w);
            // tree sum
            std::vector<E> t;
            for (unsigned i = 0; i < w; ++i) t.push_back(mkZExt(mkExtract(a[0], i, 1), w));
            while (t.size() > 1)
            {
                std::vector<E> n;
                for (size_t i = 0; i + 1 < t.size(); i += 2) n.push_back(mkBin(KAdd, t[i], t[i + 1]));
                if (t.size() % 2) n.push_back(t.back());
                t.swap(n);
            }
            result = t.empty() ? r : t[0];
            return true;
        }
        case Intrinsic::ctlz:
        {
            E r = mkConst(w, w);
            for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(a[0], i, 1), mkConst(w - 1 - i, w), r);
            result = r;
            return true;
        }
        case Intrinsic::cttz:
        {
            E r = mkConst(w, w);
            for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(a[0], i, 1), mkConst(i, w), r);
            result = r;
            return true;
        }
        case Intrinsic::bswap:
        {
            E r = mkExtract(a[0], 0, 8);
            for (unsigned i = 1; i < w / 8; ++i) r = mkConcat(r, mkExtract(a[0], 8 * i, 8));
            result = r;
            return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr:
        {
            E sh = mkBin(KURem, a[2], mkConst(w, w));
            E cat = mkConcat(a[0], a[1]);
            E s2 = mkZExt(sh, 2 * w);
            if (2 * w > 128) return false;
            if (id == Intrinsic::fshl) result = mkExtract(mkBin(KShl, cat, s2), w, w);
            else result = mkExtract(mkBin(KLShr, cat, s2), 0, w);
            return true;
        }
        case Intrinsic::uadd_with_overflow:
        {
            E r = mkBin(KAdd, a[0], a[1]);
            ovf(r, mkCmp(KUlt, r, a[0]));
            return true;
        }
        case Intrinsic::usub_with_overflow: ovf(mkBin(KSub, a[0], a[1]), mkCmp(KUlt, a[0], a[1])); return true;
        case Intrinsic::umul_with_overflow:
        {
            unsigned ww = a[0]->width;
            E r = mkBin(KMul, a[0], a[1]);
            E o;
            E c = a[1]->isConst() ? a[1] : a[0]->isConst() ? a[0] : nullptr;
            E x = c == a[1] ? a[0] : a[1];
            if (c) o = c->val ? mkCmp(KUlt, mkConst(maskOf(ww) / c->val, ww), x) : mkBool(false);
            else
            {
                E p = mkBin(KMul, mkZExt(a[0], 2 * ww), mkZExt(a[1], 2 * ww));
                o = mkNot(mkCmp(KEq, mkExtract(p, ww, ww), mkConst(0, ww)));
            }
            ovf(r, o);
            return true;
        }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow:
        {
            unsigned ww = a[0]->width, W = id == Intrinsic::smul_with_overflow ? 2 * ww : ww + 1;
            Kind kd = id == Intrinsic::sadd_with_overflow ? KAdd : id == Intrinsic::ssub_with_overflow ? KSub : KMul;
            E x = mkBin(kd, mkSExt(a[0], W), mkSExt(a[1], W));
            E r = mkBin(kd, a[0], a[1]);
            ovf(r, mkNot(mkCmp(KEq, mkSExt(r, W), x)));
            return true;
        }
        case Intrinsic::uadd_sat:
        {
            E r = mkBin(KAdd, a[0], a[1]);
            result = mkIte(mkCmp(KUlt, r, a[0]), mkConst(maskOf(w), w), r);
            return true;
        }
        case Intrinsic::usub_sat: result = mkIte(mkCmp(KUlt, a[0], a[1]), mkConst(0, w), mkBin(KSub, a[0], a[1])); return true;
        case Intrinsic::eh_typeid_for: result = mkConst((u64) selectorOf((u64) a[0]->val), 32); return true;
        case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violate("trap", "llvm.trap reached");
        case Intrinsic::trunc: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven:
        {
            if (!a[0]->isConst() || (w != 64 && w != 32)) return false;
            double x;
            if (w == 64) { uint64_t u = (uint64_t) a[0]->val; memcpy(&x, &u, 8); }
            else { uint32_t u = (uint32_t) a[0]->val; float f; memcpy(&f, &u, 4); x = f; }
            x = id == Intrinsic::trunc ? __builtin_trunc(x) : id == Intrinsic::floor ? __builtin_floor(x) : id == Intrinsic::ceil ? __builtin_ceil(x)
                : id == Intrinsic::round ? __builtin_round(x) : __builtin_rint(x);
            if (w == 64) { uint64_t u; memcpy(&u, &x, 8); result = mkConst(u, 64); }
            else { float f = (float) x; uint32_t u; memcpy(&u, &f, 4); result = mkConst(u, 32); }
            return true;
        }
        case Intrinsic::fabs: result = mkBin(KAnd, a[0], mkConst(maskOf(w - 1), w)); return true;
        case Intrinsic::ptrmask: result = mkBin(KAnd, a[0], mkZExt(a[1], 64)); return true;
        case Intrinsic::is_fpclass:
        {
            unsigned fw = a[0]->width, eb = fw == 32 ? 8 : fw == 64 ? 11 : 5, mb = fw - 1 - eb;
            u128 mask = a[1]->val;
            E sg = mkExtract(a[0], fw - 1, 1), ex = mkExtract(a[0], mb, eb), mn = mkExtract(a[0], 0, mb);
            E eAll = mkCmp(KEq, ex, mkConst(maskOf(eb), eb)), e0 = mkCmp(KEq, ex, mkConst(0, eb)), m0 = mkCmp(KEq, mn, mkConst(0, mb));
            E q = mkExtract(a[0], mb - 1, 1);
            E r = mkBool(false);
            auto add = [&](unsigned bit, E c) { if ((mask >> bit) & 1) r = mkOr1(r, c); };
            E nan = mkAnd1(eAll, mkNot(m0)), inf = mkAnd1(eAll, m0), sub = mkAnd1(e0, mkNot(m0)), zero = mkAnd1(e0, m0);
            E norm = mkAnd1(mkNot(eAll), mkNot(e0));
            add(0, mkAnd1(nan, mkNot(q))); add(1, mkAnd1(nan, q)); add(2, mkAnd1(sg, inf)); add(3, mkAnd1(sg, norm));
            add(4, mkAnd1(sg, sub)); add(5, mkAnd1(sg, zero)); add(6, mkAnd1(mkNot(sg), zero)); add(7, mkAnd1(mkNot(sg), sub));
            add(8, mkAnd1(mkNot(sg), norm)); add(9, mkAnd1(mkNot(sg), inf));
            result = r;
            return true;
        }
        default: return false;
    }
}

bool Executor::builtin(const Function*, const std::string& n, std::vector<E>& a, const CallBase* cb, E& result)
{
    auto cs = [&](unsigned i) { return cstr(concretise(a[i], "string")); };
    if (n == "memcpy" || n == "memmove")
    {
        memcopy(a[0], a[1], concretise(a[2], "memcpy length"));
        result = a[0];
        return true;
    }
    if (n == "memset")
    {
        memset_(a[0], a[1], concretise(a[2], "memset length"));
        result = a[0];
        return true;
    }
    if (n == "bcmp" || n == "memcmp")
    {
        u64 len = concretise(a[2], "memcmp length");
        if (len == 0)
        {
            result = mkConst(0, 32);
            return true;
        }
        u64 p = concretise(a[0], "memcmp"), q = concretise(a[1], "memcmp");
        long o1, o2;
        checkAccess(p, len, false, o1);
        checkAccess(q, len, false, o2);
        u64 f1 = p - cur->mem.get(o1).base, f2 = q - cur->mem.get(o2).base;
        if (n == "bcmp")
        {
            E eq = mkBool(true);
            for (u64 i = 0; i < len; ++i) eq = mkAnd1(eq, mkCmp(KEq, readByte(o1, f1 + i), readByte(o2, f2 + i)));
            result = mkIte(eq, mkConst(0, 32), mkConst(1, 32));
        }
        else
        {
            E r = mkConst(0, 32);
            for (u64 i = len; i-- > 0;)
            {
                E x = readByte(o1, f1 + i), y = readByte(o2, f2 + i);
                r = mkIte(mkCmp(KEq, x, y), r, mkIte(mkCmp(KUlt, x, y), mkConst(-1, 32), mkConst(1, 32)));
            }
            result = r;
        }
        return true;
    }
    if (n == "memchr")
    {
        u64 len = concretise(a[2], "memchr length"), p = concretise(a[0], "memchr");
        E c = mkExtract(a[1], 0, 8);
        E r = mkConst(0, 64);
        for (u64 i = len; i-- > 0;)
        {
            long o;
            checkAccess(p + i, 1, false, o);
            r = mkIte(mkCmp(KEq, readByte(o, p + i - cur->mem.get(o).base), c), mkConst(p + i, 64), r);
        }
        result = r;
        return true;
    }
    if (n == "__cxa_atexit" || n == "atexit")
    {
        result = mkConst(0, 32);
        return true;
    }
    if (n == "abort" || n == "_Exit" || n == "exit" || n == "_exit") violate("abort", n + " called");
    if (n == "raise" || n == "fprintf" || n == "fputs" || n == "puts" || n == "printf")
    {
        stubs.insert(n);
        result = nullptr;
        return true;
    }
    if (n.rfind("__sx_", 0) != 0) return false;
    if (noFork() && n != "__sx_is_a" && n != "__sx_size" && n != "__sx_symbolic" && n != "__sx_reach")
    {
        bool trivial = n == "__sx_assert" && isTrue(mkExtract(a[0], 0, 1));
        if (!trivial) throw MergeAbort{};
    }
    if (n == "__sx_sym")
    {
        std::string nm = cs(0);
        unsigned w = (unsigned) a[1]->val;
        unsigned nth = cur->counters["in:" + nm]++;
        E s = mkSym("in:" + nm, nth, w);
        cur->inputs.push_back({s, nm});
        result = mkZExt(s, 64);
        return true;
    }
    if (n == "__sx_choose")
    {
        // value in [lo, hi], one state per value
        std::string nm = cs(0);
        u64 lo = concretise(a[1], "choose"), hi = concretise(a[2], "choose");
        if (lo > hi) throw PathEnd{};
        for (u64 v = hi; v > lo; --v)
        {
            StateP o = cloneCur();
            o->inputs.push_back({mkConst(v, 64), nm});
            Frame& f = o->stack.back();
            const KInst& k = f.f->code[f.pc];
            f.regs[k.dest] = mkConst(v, 64);
            std::swap(cur, o);
            if (auto* inv = dyn_cast<InvokeInst>(k.I)) jump(inv->getParent(), inv->getNormalDest(), *cur);
            else cur->stack.back().pc++;
            std::swap(cur, o);
            work.push_back(std::move(o));
        }
        cur->inputs.push_back({mkConst(lo, 64), nm});
        result = mkConst(lo, 64);
        return true;
    }
    if (n == "__sx_concretize")
    {
        result = mkConst(concretise(a[0], "requested"), 64);
        return true;
    }
    if (n == "__sx_is_const")
    {
        result = mkConst(a[0]->isConst() ? 1 : 0, 32);
        return true;
    }
    if (n == "__sx_assume")
    {
        E c = mkExtract(a[0], 0, 1);
        if (isTrue(c)) return true;
        if (isFalse(c)) { infeasible++; throw PathEnd{}; }
        ModelP m2;
        Res r = solver.check(cur->pc, c, cur->model, &m2);
        if (r == Res::Unknown) engineError("solver gave no answer on an assumption");
        if (r == Res::Unsat) { infeasible++; throw PathEnd{}; }
        cur->model = m2;
        addConstraint(*cur, c);
        return true;
    }
    if (n == "__sx_assert")
    {
        E c = mkExtract(a[0], 0, 1);
        std::string label = cs(1);
        auto& st = asserts[label];
        st.first++;
        if (isTrue(c)) return true;
        if (isFalse(c)) violate("assertion", label);
        st.second++;
        ModelP m2;
        Res r = solver.check(cur->pc, mkNot(c), cur->model, &m2);
        if (r == Res::Unknown) engineError("solver gave no answer on assertion " + label);
        if (r == Res::Sat)
        {
            report("assertion", label, m2);
            ModelP m3;
            if (solver.check(cur->pc, c, cur->model, &m3) != Res::Sat) throw PathEnd{};
            cur->model = m3;
            addConstraint(*cur, c);
        }
        else cur->known[c->id] = 1;
        return true;
    }
    if (n == "__sx_reach")
    {
        cur->reached.insert(cs(0));
        return true;
    }
    if (n == "__sx_observe")
    {
        cur->observed.push_back(a[0]);
        return true;
    }
    if (n == "__sx_contract")
    {
        violate("contract", cs(2) + " (" + [&] { std::string p = cs(0); auto q = p.find("sparrow/"); return q == std::string::npos ? p : p.substr(q); }() + ")");
    }
    if (n == "__sx_fail") violate(cs(0), cs(1));
    if (n == "__sx_symbolic")
    {
        result = mkConst(1, 32);
        return true;
    }
    if (n == "__sx_ignore_leaks")
    {
        cur->ignoreLeaks = true;
        return true;
    }
    if (n == "__sx_live")
    {
        u64 c = 0;
        for (size_t i = 0; i < cur->mem.count; ++i)
        {
            const MemObj& o = cur->mem.get(i);
            if (o.alive && o.kind >= ONew && o.kind != OExn) ++c;
        }
        result = mkConst(c, 64);
        return true;
    }
    if (n == "__sx_alloc")
    {
        u64 sz = concretise(a[0], "allocation size");
        ObjKind k = (ObjKind) (ONew + (int) a[1]->val);
        if (sz > (1ull << 28)) engineError("allocation larger than 256 MB");
        size_t o = cur->mem.alloc(sz, k, where(), true);
        result = mkConst(cur->mem.get(o).base, 64);
        return true;
    }
    if (n == "__sx_free")
    {
        freeObj(concretise(a[0], "pointer to free"), (ObjKind) (ONew + (int) a[1]->val));
        return true;
    }
    if (n == "__sx_is_a")
    {
        result = mkConst(isA(concretise(a[0], "typeinfo"), concretise(a[1], "typeinfo")), 32);
        return true;
    }
    if (n == "__sx_size")
    {
        u64 p = concretise(a[0], "pointer");
        long o = cur->mem.find(p);
        result = mkConst(o < 0 ? 0 : cur->mem.get(o).size, 64);
        return true;
    }
    return false;
}

void Executor::exec(const KInst& k)
{
    const Instruction* I = k.I;
    switch (I->getOpcode())
    {
        case Instruction::Ret:
        {
            E v = k.ops.empty() ? nullptr : op(k, 0);
            if (cur->stack.size() == 1)
            {
                ret(v);
                return;
            }
            ret(v);
            return;
        }
        case Instruction::Br:
        {
            auto* b = cast<BranchInst>(I);
            if (b->isUnconditional())
            {
                jump(b->getParent(), b->getSuccessor(0), *cur);
                return;
            }
            E c = op(k, 0);
            StateP other;
            int d;
            if (merging && !c->isConst() && !cur->known.find(c->id))
            {
                if (tryMerge(b, c, false, nullptr, nullptr)) return;
                ModelP mt, mf;
                d = feasible(c, mt, mf);
                if (d == 2 && tryMerge(b, c, true, mt, mf)) return;
                d = decide(c, &other);
            }
            else d = decide(c, &other);
            if (d == 2)
            {
                std::swap(cur, other);
                jump(b->getParent(), b->getSuccessor(1), *cur);
                std::swap(cur, other);
                work.push_back(std::move(other));
            }
            jump(b->getParent(), b->getSuccessor(d ? 0 : 1), *cur);
            return;
        }
        case Instruction::Switch:
        {
            auto* sw = cast<SwitchInst>(I);
            E c = op(k, 0);
            if (!c->isConst())
            {
                auto* kn = cur->known.find(c->id);
                if (kn) c = mkConst(*kn, c->width);
            }
            if (c->isConst())
            {
                const BasicBlock* to = sw->getDefaultDest();
                for (auto& cs : sw->cases())
                    if (apToU(cs.getCaseValue()->getValue()) == c->val) { to = cs.getCaseSuccessor(); break; }
                jump(sw->getParent(), to, *cur);
                return;
            }
            // group by destination, fork by re-execution on the destination of the current model
            std::map<const BasicBlock*, E> conds;
            std::vector<const BasicBlock*> order;
            E none = mkBool(true);
            for (auto& cs : sw->cases())
            {
                E eq = mkCmp(KEq, c, mkConst(apToU(cs.getCaseValue()->getValue()), c->width));
                none = mkAnd1(none, mkNot(eq));
                auto it = conds.find(cs.getCaseSuccessor());
                if (it == conds.end()) { conds[cs.getCaseSuccessor()] = eq; order.push_back(cs.getCaseSuccessor()); }
                else it->second = mkOr1(it->second, eq);
            }
            {
                auto it = conds.find(sw->getDefaultDest());
                if (it == conds.end()) { conds[sw->getDefaultDest()] = none; order.push_back(sw->getDefaultDest()); }
                else it->second = mkOr1(it->second, none);
            }
            const BasicBlock* mine = nullptr;
            for (auto* bb : order)
                if (cur->model->eval(conds[bb])) { mine = bb; break; }
            StateP other;
            int d = decide(conds[mine], &other);
            if (d == 2) work.push_back(std::move(other));
            jump(sw->getParent(), mine, *cur);
            return;
        }
        case Instruction::Unreachable: violate("unreachable", "unreachable code executed (undefined behaviour)");
        case Instruction::Invoke:
        case Instruction::Call: call(k); return;
        case Instruction::Resume:
        {
            E a = op(k, 0);
            u64 exn = (u64) (*a->agg)[0]->val;
            // the type is kept in the header in front of the object (see runtime.cpp)
            u64 ti = readWord(exn - 32);
            unwind(exn, ti);
            return;
        }
        case Instruction::LandingPad:
            set(k, mkAgg({mkConst(cur->pendExn, 64), mkConst((u128) (int64_t) cur->pendSel, 32)}));
            break;
        case Instruction::Alloca:
        {
            auto* al = cast<AllocaInst>(I);
            u64 n = concretise(op(k, 0), "alloca count");
            u64 sz = n * (u64) DL.getTypeAllocSize(al->getAllocatedType());
            std::string nm = cur->stack.back().f->name;
            size_t o = cur->mem.alloc(sz, OStack, intern("local of " + nm.substr(0, 120)), true, al->getAlign().value());
            cur->stack.back().allocas.push_back(o);
            set(k, mkConst(cur->mem.get(o).base, 64));
            break;
        }
        case Instruction::Load: set(k, load(op(k, 0), I->getType())); break;
        case Instruction::Store: store(op(k, 1), op(k, 0), I->getOperand(0)->getType()); break;
        case Instruction::GetElementPtr:
        {
            std::vector<E> o;
            for (unsigned i = 0; i < k.ops.size(); ++i) o.push_back(op(k, i));
            set(k, gep(cast<GEPOperator>(I), o));
            break;
        }
        case Instruction::ICmp:
        case Instruction::FCmp: set(k, cmpOp(cast<CmpInst>(I)->getPredicate(), op(k, 0), op(k, 1))); break;
        case Instruction::Select:
        {
            E c = op(k, 0), x = op(k, 1), y = op(k, 2);
            if (c->kind == KAgg)
            {
                std::vector<E> r;
                for (size_t i = 0; i < c->agg->size(); ++i) r.push_back(mkIte((*c->agg)[i], (*x->agg)[i], (*y->agg)[i]));
                set(k, mkAgg(std::move(r)));
            }
            else
            {
                if (!c->isConst())
                {
                    auto* kn = cur->known.find(c->id);
                    if (kn) c = mkBool(*kn);
                }
                set(k, mkIte(c, x, y));
            }
            break;
        }
        case Instruction::ExtractValue:
        {
            E a = op(k, 0);
            for (unsigned i : cast<ExtractValueInst>(I)->indices()) a = (*a->agg)[i];
            set(k, a);
            break;
        }
        case Instruction::InsertValue:
        {
            auto idx = cast<InsertValueInst>(I)->getIndices();
            std::function<E(E, unsigned)> ins = [&](E a, unsigned d) -> E
            {
                if (d == idx.size()) return op(k, 1);
                std::vector<E> v = *a->agg;
                v[idx[d]] = ins(v[idx[d]], d + 1);
                return mkAgg(std::move(v));
            };
            set(k, ins(op(k, 0), 0));
            break;
        }
        case Instruction::ExtractElement: set(k, (*op(k, 0)->agg)[concretise(op(k, 1), "vector index")]); break;
        case Instruction::InsertElement:
        {
            std::vector<E> v = *op(k, 0)->agg;
            v[concretise(op(k, 2), "vector index")] = op(k, 1);
            set(k, mkAgg(std::move(v)));
            break;
        }
        case Instruction::ShuffleVector:
        {
            auto* sv = cast<ShuffleVectorInst>(I);
            E a = op(k, 0), b = op(k, 1);
            size_t n = a->agg->size();
            std::vector<E> v;
            for (int m : sv->getShuffleMask())
                v.push_back(m < 0 ? (*a->agg)[0] : (size_t) m < n ? (*a->agg)[m] : (*b->agg)[m - n]);
            set(k, mkAgg(std::move(v)));
            break;
        }
        case Instruction::Freeze: set(k, op(k, 0)); break;
        case Instruction::FNeg:
        {
            E a = op(k, 0);
            set(k, mkBin(KXor, a, mkConst((u128) 1 << (a->width - 1), a->width)));
            break;
        }
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        {
            E a = op(k, 0), b = op(k, 1);
            if (b->kind != KAgg)
            {
                StateP other;
                E z = mkCmp(KEq, b, mkConst(0, b->width));
                if (isTrue(z)) violate("division-by-zero", "integer division by zero");
                int d = decide(mkNot(z), &other);
                if (d == 0) violate("division-by-zero", "integer division by zero");
                if (d == 2)
                {
                    std::swap(cur, other);
                    report("division-by-zero", "integer division by zero", nullptr);
                    std::swap(cur, other);
                }
            }
            set(k, binOp(I->getOpcode(), a, b));
            break;
        }
        case Instruction::AtomicRMW:
        {
            auto* rmw = cast<AtomicRMWInst>(I);
            E p = op(k, 0), v = op(k, 1);
            Type* t = I->getType();
            E old = load(p, t);
            E nw;
            switch (rmw->getOperation())
            {
                case AtomicRMWInst::Xchg: nw = v; break;
                case AtomicRMWInst::Add: nw = mkBin(KAdd, old, v); break;
                case AtomicRMWInst::Sub: nw = mkBin(KSub, old, v); break;
                case AtomicRMWInst::And: nw = mkBin(KAnd, old, v); break;
                case AtomicRMWInst::Or: nw = mkBin(KOr, old, v); break;
                case AtomicRMWInst::Xor: nw = mkBin(KXor, old, v); break;
                default: engineError("unsupported atomicrmw");
            }
            store(p, nw, t);
            set(k, old);
            break;
        }
        case Instruction::AtomicCmpXchg:
        {
            E p = op(k, 0), c = op(k, 1), nw = op(k, 2);
            Type* t = I->getOperand(1)->getType();
            E old = load(p, t);
            E eq = mkCmp(KEq, old, c);
            store(p, mkIte(eq, nw, old), t);
            set(k, mkAgg({old, eq}));
            break;
        }
        case Instruction::Fence: break;
        default:
            if (I->isBinaryOp()) set(k, binOp(I->getOpcode(), op(k, 0), op(k, 1)));
            else if (I->isCast()) set(k, castOp(I->getOpcode(), op(k, 0), I->getOperand(0)->getType(), I->getType()));
            else engineError(std::string("unsupported instruction ") + I->getOpcodeName());
    }
    cur->stack.back().pc++;
}

void Executor::run(const std::string& entry)
{
    t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    Function* F = M.getFunction(entry);
    if (!F || F->isDeclaration())
    {
        errors.push_back("entry not found: " + entry);
        return;
    }
    cur = std::make_unique<State>();
    cur->model = std::make_shared<Model>();
    bool inInit = true;
    try
    {
        initGlobals(*cur);
        // constructors
        std::vector<std::pair<u64, Function*>> ctors;
        if (auto* gc = M.getGlobalVariable("llvm.global_ctors"))
            if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (auto& o : ca->operands())
                {
                    auto* cs = cast<ConstantStruct>(o);
                    if (auto* cf = dyn_cast<Function>(cs->getOperand(1)))
                        ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cf});
                }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
        auto runOne = [&](Function* f)
        {
            Frame fr;
            fr.f = kfunc(f);
            fr.pc = 0;
            fr.regs.assign(fr.f->nregs, nullptr);
            cur->stack.push_back(std::move(fr));
            while (!cur->stack.empty())
            {
                Frame& t = cur->stack.back();
                exec(t.f->code[t.pc]);
                instrs++;
            }
        };
        for (auto& c : ctors) runOne(c.second);
        inInit = false;
        Frame fr;
        fr.f = kfunc(F);
        fr.pc = 0;
        fr.regs.assign(fr.f->nregs, nullptr);
        cur->stack.push_back(std::move(fr));
        cur->instrs = 0;
        work.push_back(std::move(cur));
        while (!work.empty())
        {
            cur = std::move(work.back());
            work.pop_back();
            try
            {
                while (!cur->stack.empty())
                {
                    Frame& t = cur->stack.back();
                    cur->instrs++;
                    instrs++;
                    exec(t.f->code[t.pc]);
                    if ((instrs & 1023) == 0)
                    {
                        if (elapsed() > timeBudget)
                        {
                            errors.push_back("time budget exhausted with " + std::to_string(work.size() + 1) + " states pending; " + profile());
                            wall = elapsed();
                            return;
                        }
                        if (cur->instrs > maxPathInstrs) violate("non-termination", "more than " + std::to_string(maxPathInstrs) + " instructions on one path");
                    }
                }
                pathDone();
            }
            catch (PathEnd&)
            {
            }
            if (violations.size() >= maxViolations) break;
        }
        complete = work.empty();
    }
    catch (EngineError& e)
    {
        errors.push_back((inInit ? "during static initialisation: " : "") + e.msg);
    }
    catch (PathEnd&)
    {
        errors.push_back("violation during static initialisation");
    }
    wall = elapsed();
}

std::string Executor::profile() const
{
    std::vector<std::pair<u64, std::string>> v;
    for (auto& f : forkSites) v.emplace_back(f.second, f.first);
    std::sort(v.rbegin(), v.rend());
    std::string r;
    for (size_t i = 0; i < v.size() && i < 12; ++i) r += "[" + std::to_string(v[i].first) + "x " + v[i].second + "] ";
    return r;
}
}
