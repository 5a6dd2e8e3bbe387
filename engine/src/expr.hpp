// Hash-consed bit-vector expressions with local simplification.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace sx
{
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t
{
    KConst, KSym,
    KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
    KEq, KUlt, KUle, KSlt, KSle,
    KConcat,   // a = high, b = low
    KExtract,  // aux = low bit
    KZExt, KSExt, KIte,
    // floating point on bit patterns (width 16/32/64 operands)
    KFAdd, KFSub, KFMul, KFDiv, KFRem, KFEq, KFLt, KFLe, KFUno,
    KFToFP,    // fp -> fp, width = target
    KUIToFP, KSIToFP, KFPToUI, KFPToSI,
    KAgg       // first-class aggregate, never hash-consed
};

struct Expr
{
    Kind kind;
    uint16_t width;
    uint32_t id;
    uint32_t aux;   // extract offset, symbol id
    u128 val;       // constant
    const Expr* a;
    const Expr* b;
    const Expr* c;
    std::vector<const Expr*>* agg;
    // lazily computed
    mutable const std::vector<uint32_t>* syms;
    mutable void* z3;  // cached ast
    bool isConst() const { return kind == KConst; }
};
typedef const Expr* E;

struct SymInfo
{
    std::string name;
    unsigned width;
};
extern std::vector<SymInfo> g_syms;
extern std::vector<E> g_symExpr;

inline u128 maskOf(unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
inline i128 sext128(u128 v, unsigned w)
{
    if (w >= 128) return (i128) v;
    u128 m = (u128) 1 << (w - 1);
    v &= maskOf(w);
    return (i128) ((v ^ m) - m);
}

E mkConst(u128 v, unsigned w);
E mkSym(const std::string& name, unsigned nth, unsigned w);
E mkBin(Kind k, E a, E b);
E mkCmp(Kind k, E a, E b);
E mkNot(E a);
E mkIte(E c, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkByte(E a, unsigned i);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkFBin(Kind k, E a, E b);
E mkFCmp(Kind k, E a, E b);
E mkFConv(Kind k, E a, unsigned w);
E mkAgg(std::vector<E> v);
inline E mkBool(bool b) { return mkConst(b, 1); }
inline E mkAnd1(E a, E b) { return mkBin(KAnd, a, b); }
inline E mkOr1(E a, E b) { return mkBin(KOr, a, b); }
inline bool isTrue(E e) { return e->isConst() && e->val; }
inline bool isFalse(E e) { return e->isConst() && !e->val; }
const std::vector<uint32_t>& symsOf(E e);
std::string exprStr(E e, int depth = 6);
u128 umaxOf(E e, int depth = 6);
size_t exprCount();

// assignment of symbols
struct Model
{
    std::unordered_map<uint32_t, u128> v;
    mutable std::unordered_map<uint32_t, u128> memo;
    u128 eval(E e) const;
    u128 get(uint32_t s) const
    {
        auto it = v.find(s);
        return it == v.end() ? 0 : it->second;
    }
};
typedef std::shared_ptr<const Model> ModelP;

u128 foldBin(Kind k, u128 a, u128 b, unsigned w, bool& ok);
u128 foldFBin(Kind k, u128 a, u128 b, unsigned w);
u128 foldFConv(Kind k, u128 a, unsigned wa, unsigned w);
}
