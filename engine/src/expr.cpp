#include "expr.hpp"

#include <cmath>
#include <cstring>
#include <map>
#include <deque>
#include <sstream>
#include <algorithm>

namespace sx
{
std::vector<SymInfo> g_syms;
std::vector<E> g_symExpr;
static std::deque<Expr> g_arena;
static uint32_t g_nextId = 1;

struct Key
{
    Kind k;
    uint16_t w;
    uint32_t aux;
    u128 val;
    E a, b, c;
    bool operator==(const Key& o) const
    {
        return k == o.k && w == o.w && aux == o.aux && val == o.val && a == o.a && b == o.b && c == o.c;
    }
};
struct KeyHash
{
    size_t operator()(const Key& k) const
    {
        uint64_t h = 1469598103934665603ull;
        auto mix = [&](uint64_t x)
        {
            h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
            h *= 0xff51afd7ed558ccdull;
            h ^= h >> 32;
        };
        mix(((uint64_t) k.k << 48) ^ ((uint64_t) k.w << 32) ^ k.aux);
        mix((uint64_t) k.val);
        mix((uint64_t) (k.val >> 64));
        mix(k.a ? k.a->id : 0);
        mix(k.b ? k.b->id : 0);
        mix(k.c ? k.c->id : 0);
        return h;
    }
};
static std::unordered_map<Key, E, KeyHash> g_table;
size_t exprCount() { return g_table.size(); }

static E intern(Kind k, unsigned w, uint32_t aux, u128 val, E a = nullptr, E b = nullptr, E c = nullptr)
{
    Key key{k, (uint16_t) w, aux, val, a, b, c};
    auto it = g_table.find(key);
    if (it != g_table.end()) return it->second;
    g_arena.push_back(Expr{k, (uint16_t) w, g_nextId++, aux, val, a, b, c, nullptr, nullptr, nullptr});
    E e = &g_arena.back();
    g_table.emplace(key, e);
    return e;
}

E mkConst(u128 v, unsigned w)
{
    static E small[129][260];
    v &= maskOf(w);
    if (v < 256)
    {
        E& s = small[w][(unsigned) v];
        if (!s) s = intern(KConst, w, 0, v);
        return s;
    }
    return intern(KConst, w, 0, v);
}

E mkSym(const std::string& name, unsigned nth, unsigned w)
{
    static std::map<std::tuple<std::string, unsigned, unsigned>, E> m;
    auto key = std::make_tuple(name, nth, w);
    auto it = m.find(key);
    if (it != m.end()) return it->second;
    uint32_t id = g_syms.size();
    g_syms.push_back({name + "#" + std::to_string(nth), w});
    E e = intern(KSym, w, id, 0);
    g_symExpr.push_back(e);
    m[key] = e;
    return e;
}

E mkAgg(std::vector<E> v)
{
    g_arena.push_back(Expr{KAgg, 0, g_nextId++, 0, 0, nullptr, nullptr, nullptr, new std::vector<E>(std::move(v)), nullptr, nullptr});
    return &g_arena.back();
}

u128 foldBin(Kind k, u128 a, u128 b, unsigned w, bool& ok)
{
    ok = true;
    u128 m = maskOf(w);
    switch (k)
    {
        case KAdd: return (a + b) & m;
        case KSub: return (a - b) & m;
        case KMul: return (a * b) & m;
        case KUDiv: return b ? a / b : m;
        case KURem: return b ? a % b : a;
        case KSDiv:
        {
            i128 x = sext128(a, w), y = sext128(b, w);
            if (y == 0) return x >= 0 ? m : 1;
            if (y == -1) return (u128) (-(u128) x) & m;
            return (u128) (x / y) & m;
        }
        case KSRem:
        {
            i128 x = sext128(a, w), y = sext128(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (u128) (x % y) & m;
        }
        case KAnd: return a & b;
        case KOr: return a | b;
        case KXor: return a ^ b;
        case KShl: return b >= w ? 0 : (a << (unsigned) b) & m;
        case KLShr: return b >= w ? 0 : a >> (unsigned) b;
        case KAShr:
        {
            i128 x = sext128(a, w);
            return (u128) (x >> (b >= w ? w - 1 : (unsigned) b)) & m;
        }
        default: ok = false; return 0;
    }
}

u128 umaxOf(E e, int d)
{
    u128 m = maskOf(e->width);
    if (e->isConst()) return e->val;
    if (d == 0) return m;
    switch (e->kind)
    {
        case KZExt: return umaxOf(e->a, d - 1);
        case KIte: return std::max(umaxOf(e->b, d - 1), umaxOf(e->c, d - 1));
        case KAnd: return std::min(umaxOf(e->a, d - 1), umaxOf(e->b, d - 1));
        case KURem:
            if (e->b->isConst() && e->b->val) return std::min(umaxOf(e->a, d - 1), e->b->val - 1);
            return umaxOf(e->a, d - 1);
        case KUDiv:
            if (e->b->isConst() && e->b->val) return umaxOf(e->a, d - 1) / e->b->val;
            return m;
        case KLShr: return umaxOf(e->a, d - 1);
        case KConcat:
            return (umaxOf(e->a, d - 1) << e->b->width) | umaxOf(e->b, d - 1);
        case KAdd:
        {
            if (e->width > 120) return m;
            u128 x = umaxOf(e->a, d - 1), y = umaxOf(e->b, d - 1);
            if (x + y <= m) return x + y;
            return m;
        }
        case KMul:
        {
            if (e->width > 64) return m;
            u128 x = umaxOf(e->a, d - 1), y = umaxOf(e->b, d - 1);
            if (x < ((u128) 1 << 62) && y < ((u128) 1 << 62) && x * y <= m) return x * y;
            return m;
        }
        default: return m;
    }
}

E mkNot(E a)
{
    return mkBin(KXor, a, mkConst(1, 1));
}

static bool isPow2(u128 v, unsigned& sh)
{
    if (!v || (v & (v - 1))) return false;
    sh = 0;
    while (!((v >> sh) & 1)) ++sh;
    return true;
}

static bool commutative(Kind k)
{
    return k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor;
}

E mkBin(Kind k, E a, E b)
{
    unsigned w = a->width;
    if (a->isConst() && b->isConst())
    {
        bool ok;
        u128 v = foldBin(k, a->val, b->val, w, ok);
        if (ok) return mkConst(v, w);
    }
    if (commutative(k))
    {
        if (a->isConst()) std::swap(a, b);           // constant on the right
        else if (!b->isConst() && a->id > b->id) std::swap(a, b);
    }
    u128 m = maskOf(w);
    unsigned sh;
    switch (k)
    {
        case KAdd:
            if (b->isConst())
            {
                if (b->val == 0) return a;
                if (w == 1) return mkBin(KXor, a, b);
                if (a->kind == KAdd && a->b->isConst()) return mkBin(KAdd, a->a, mkConst(a->b->val + b->val, w));
            }
            else
            {
                if (a->kind == KAdd && a->b->isConst()) return mkBin(KAdd, mkBin(KAdd, a->a, b), a->b);
                if (b->kind == KAdd && b->b->isConst()) return mkBin(KAdd, mkBin(KAdd, a, b->a), b->b);
                // x + (y - x) = y
                if (b->kind == KSub && b->b == a) return b->a;
                if (a->kind == KSub && a->b == b) return a->a;
            }
            if (w == 1) return mkBin(KXor, a, b);
            break;
        case KSub:
            if (a == b) return mkConst(0, w);
            if (b->isConst()) return mkBin(KAdd, a, mkConst(-b->val, w));
            if (a->kind == KAdd && a->b->isConst() && !b->isConst())
            {
                if (b->kind == KAdd && b->b->isConst())
                    return mkBin(KAdd, mkBin(KSub, a->a, b->a), mkConst(a->b->val - b->b->val, w));
                return mkBin(KAdd, mkBin(KSub, a->a, b), a->b);
            }
            if (b->kind == KAdd && b->b->isConst() && !a->isConst())
                return mkBin(KAdd, mkBin(KSub, a, b->a), mkConst(-b->b->val, w));
            if (a->kind == KAdd && a->a == b) return a->b;
            if (a->kind == KAdd && a->b == b) return a->a;
            break;
        case KMul:
            if (b->isConst())
            {
                if (b->val == 0) return b;
                if (b->val == 1) return a;
                if (isPow2(b->val, sh)) return mkBin(KShl, a, mkConst(sh, w));
                if (a->kind == KMul && a->b->isConst()) return mkBin(KMul, a->a, mkConst(a->b->val * b->val, w));
            }
            break;
        case KUDiv:
            if (b->isConst())
            {
                if (b->val == 1) return a;
                if (isPow2(b->val, sh)) return mkBin(KLShr, a, mkConst(sh, w));
                if (umaxOf(a) < b->val) return mkConst(0, w);
            }
            break;
        case KURem:
            if (b->isConst())
            {
                if (b->val == 1) return mkConst(0, w);
                if (isPow2(b->val, sh)) return mkBin(KAnd, a, mkConst(b->val - 1, w));
                if (b->val && umaxOf(a) < b->val) return a;
            }
            break;
        case KSDiv:
            if (b->isConst() && b->val == 1) return a;
            if (b->isConst() && umaxOf(a) < ((u128) 1 << (w - 1)) && b->val < ((u128) 1 << (w - 1))) return mkBin(KUDiv, a, b);
            break;
        case KSRem:
            if (b->isConst() && b->val && umaxOf(a) < ((u128) 1 << (w - 1)) && b->val < ((u128) 1 << (w - 1))) return mkBin(KURem, a, b);
            break;
        case KAnd:
            if (a == b) return a;
            if (b->isConst())
            {
                if (b->val == 0) return b;
                if (b->val == m) return a;
                if (a->kind == KAnd && a->b->isConst()) return mkBin(KAnd, a->a, mkConst(a->b->val & b->val, w));
                unsigned s2;
                if (isPow2(b->val + 1, s2) && s2 < w) return mkZExt(mkExtract(a, 0, s2), w);
                if (isPow2(b->val, s2))
                {
                    // single bit: keep it where it is
                    E bit = mkExtract(a, s2, 1);
                    E r = s2 ? mkConcat(bit, mkConst(0, s2)) : bit;
                    return mkZExt(r, w);
                }
                // high mask (all ones above sh): concat(extract hi, 0)
                u128 inv = (~b->val) & m;
                if (isPow2(inv + 1, s2) && s2 > 0 && s2 < w) return mkConcat(mkExtract(a, s2, w - s2), mkConst(0, s2));
                if (a->kind == KConcat)
                {
                    unsigned lw = a->b->width;
                    return mkConcat(
                        mkBin(KAnd, a->a, mkConst(b->val >> lw, w - lw)),
                        mkBin(KAnd, a->b, mkConst(b->val, lw))
                    );
                }
                if (a->kind == KZExt && a->a->width < w) return mkZExt(mkBin(KAnd, a->a, mkConst(b->val, a->a->width)), w);
            }
            if (w == 1)
            {
                if (a->kind == KXor && a->b->isConst() && a->a == b) return mkConst(0, 1);
                if (b->kind == KXor && b->b->isConst() && b->a == a) return mkConst(0, 1);
            }
            if (a->kind == KZExt && b->kind == KZExt && a->a->width == b->a->width)
                return mkZExt(mkBin(KAnd, a->a, b->a), w);
            break;
        case KOr:
            if (a == b) return a;
            if (b->isConst())
            {
                if (b->val == 0) return a;
                if (b->val == m) return b;
                if (a->kind == KOr && a->b->isConst()) return mkBin(KOr, a->a, mkConst(a->b->val | b->val, w));
                if (a->kind == KConcat)
                {
                    unsigned lw = a->b->width;
                    return mkConcat(
                        mkBin(KOr, a->a, mkConst(b->val >> lw, w - lw)),
                        mkBin(KOr, a->b, mkConst(b->val, lw))
                    );
                }
                if (a->kind == KZExt && a->a->width < w)
                {
                    unsigned lw = a->a->width;
                    return mkConcat(mkConst(b->val >> lw, w - lw), mkBin(KOr, a->a, mkConst(b->val, lw)));
                }
            }
            if (w == 1)
            {
                if (a->kind == KXor && a->b->isConst() && a->a == b) return mkConst(1, 1);
                if (b->kind == KXor && b->b->isConst() && b->a == a) return mkConst(1, 1);
            }
            {
                // (zext lo) | (hi << n)  ->  concat
                auto tryConcat = [&](E x, E y) -> E
                {
                    if (x->kind == KZExt && y->kind == KConcat && y->b->isConst() && y->b->val == 0 && x->a->width <= y->b->width)
                        return mkConcat(y->a, mkZExt(x->a, y->b->width));
                    if (x->kind == KZExt && y->kind == KZExt && y->a->kind == KConcat && y->a->b->isConst()
                        && y->a->b->val == 0 && x->a->width <= y->a->b->width)
                        return mkZExt(mkConcat(y->a->a, mkZExt(x->a, y->a->b->width)), w);
                    return nullptr;
                };
                if (E r = tryConcat(a, b)) return r;
                if (E r = tryConcat(b, a)) return r;
                if (a->kind == KZExt && b->kind == KZExt && a->a->width == b->a->width)
                    return mkZExt(mkBin(KOr, a->a, b->a), w);
            }
            break;
        case KXor:
            if (a == b) return mkConst(0, w);
            if (b->isConst())
            {
                if (b->val == 0) return a;
                if (a->kind == KXor && a->b->isConst()) return mkBin(KXor, a->a, mkConst(a->b->val ^ b->val, w));
                if (w == 1)
                {
                    // not(ult) -> ule swapped, etc.
                    switch (a->kind)
                    {
                        case KUlt: return mkCmp(KUle, a->b, a->a);
                        case KUle: return mkCmp(KUlt, a->b, a->a);
                        case KSlt: return mkCmp(KSle, a->b, a->a);
                        case KSle: return mkCmp(KSlt, a->b, a->a);
                        default: break;
                    }
                }
                if (a->kind == KIte && a->b->isConst() && a->c->isConst())
                    return mkIte(a->a, mkConst(a->b->val ^ b->val, w), mkConst(a->c->val ^ b->val, w));
            }
            break;
        case KShl:
            if (b->isConst())
            {
                if (b->val == 0) return a;
                if (b->val >= w) return mkConst(0, w);
                unsigned s = (unsigned) b->val;
                return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
            }
            if (a->isConst() && a->val == 0) return a;
            break;
        case KLShr:
            if (b->isConst())
            {
                if (b->val == 0) return a;
                if (b->val >= w) return mkConst(0, w);
                unsigned s = (unsigned) b->val;
                return mkZExt(mkExtract(a, s, w - s), w);
            }
            if (a->isConst() && a->val == 0) return a;
            break;
        case KAShr:
            if (b->isConst())
            {
                if (b->val == 0) return a;
                unsigned s = b->val >= w ? w - 1 : (unsigned) b->val;
                return mkSExt(mkExtract(a, s, w - s), w);
            }
            if (a->isConst() && a->val == 0) return a;
            break;
        default: break;
    }
    // distribute over ite of constants when the other operand is constant
    if (b->isConst() && a->kind == KIte && a->b->isConst() && a->c->isConst())
        return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (a->isConst() && b->kind == KIte && b->b->isConst() && b->c->isConst())
        return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    return intern(k, w, 0, 0, a, b);
}

E mkCmp(Kind k, E a, E b)
{
    unsigned w = a->width;
    if (a->isConst() && b->isConst())
    {
        bool r = false;
        switch (k)
        {
            case KEq: r = a->val == b->val; break;
            case KUlt: r = a->val < b->val; break;
            case KUle: r = a->val <= b->val; break;
            case KSlt: r = sext128(a->val, w) < sext128(b->val, w); break;
            case KSle: r = sext128(a->val, w) <= sext128(b->val, w); break;
            default: break;
        }
        return mkBool(r);
    }
    if (a == b) return mkBool(k == KEq || k == KUle || k == KSle);
    u128 m = maskOf(w);
    if (k == KEq)
    {
        if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b);
        if (w == 1)
        {
            if (b->isConst()) return b->val ? a : mkNot(a);
            return mkNot(mkBin(KXor, a, b));
        }
        if (b->isConst())
        {
            if (a->kind == KIte && (a->b->isConst() || a->c->isConst()))
            {
                E x = mkCmp(KEq, a->b, b), y = mkCmp(KEq, a->c, b);
                if (x->isConst() || y->isConst())
                    return mkIte(a->a, x, y);
            }
            if (a->kind == KZExt)
            {
                if (b->val > maskOf(a->a->width)) return mkBool(false);
                return mkCmp(KEq, a->a, mkConst(b->val, a->a->width));
            }
            if (a->kind == KSExt)
            {
                unsigned n = a->a->width;
                u128 lo = b->val & maskOf(n);
                if (((u128) sext128(lo, n) & m) != b->val) return mkBool(false);
                return mkCmp(KEq, a->a, mkConst(lo, n));
            }
            if (a->kind == KConcat)
            {
                unsigned lw = a->b->width;
                return mkAnd1(mkCmp(KEq, a->a, mkConst(b->val >> lw, a->a->width)), mkCmp(KEq, a->b, mkConst(b->val, lw)));
            }
            if (a->kind == KAdd && a->b->isConst()) return mkCmp(KEq, a->a, mkConst(b->val - a->b->val, w));
            if (a->kind == KXor && a->b->isConst()) return mkCmp(KEq, a->a, mkConst(b->val ^ a->b->val, w));
            if (a->kind == KSub && b->val == 0) return mkCmp(KEq, a->a, a->b);
            if (a->kind == KSub && a->a->isConst()) return mkCmp(KEq, a->b, mkConst(a->a->val - b->val, w));
            if (umaxOf(a) < b->val) return mkBool(false);
        }
        else
        {
            if (a->kind == KZExt && b->kind == KZExt && a->a->width == b->a->width) return mkCmp(KEq, a->a, b->a);
            if (a->kind == KSExt && b->kind == KSExt && a->a->width == b->a->width) return mkCmp(KEq, a->a, b->a);
            if (a->kind == KAdd && b->kind == KAdd && a->b == b->b) return mkCmp(KEq, a->a, b->a);
            if (a->kind == KConcat && b->kind == KConcat && a->b->width == b->b->width)
                return mkAnd1(mkCmp(KEq, a->a, b->a), mkCmp(KEq, a->b, b->b));
        }
        return intern(KEq, 1, 0, 0, a, b);
    }
    // all comparisons: ite with constants
    if (b->isConst() && a->kind == KIte && (a->b->isConst() || a->c->isConst()))
    {
        E x = mkCmp(k, a->b, b), y = mkCmp(k, a->c, b);
        if (x->isConst() || y->isConst()) return mkIte(a->a, x, y);
    }
    if (a->isConst() && b->kind == KIte && (b->b->isConst() || b->c->isConst()))
    {
        E x = mkCmp(k, a, b->b), y = mkCmp(k, a, b->c);
        if (x->isConst() || y->isConst()) return mkIte(b->a, x, y);
    }
    if (k == KUlt)
    {
        if (b->isConst() && b->val == 0) return mkBool(false);
        if (b->isConst() && b->val == 1) return mkCmp(KEq, a, mkConst(0, w));
        if (a->isConst() && a->val == m) return mkBool(false);
        if (a->isConst() && a->val == 0) return mkNot(mkCmp(KEq, b, mkConst(0, w)));
        if (b->isConst() && umaxOf(a) < b->val) return mkBool(true);
        if (a->isConst() && umaxOf(b) <= a->val) return mkBool(false);
        if (b->isConst() && a->kind == KZExt)
        {
            // b->val <= max here
            return mkCmp(KUlt, a->a, mkConst(b->val, a->a->width));
        }
        if (a->isConst() && b->kind == KZExt) return mkCmp(KUlt, mkConst(a->val, b->a->width), b->a);
        if (a->kind == KZExt && b->kind == KZExt && a->a->width == b->a->width) return mkCmp(KUlt, a->a, b->a);
    }
    if (k == KUle)
    {
        if (a->isConst() && a->val == 0) return mkBool(true);
        if (b->isConst() && b->val == m) return mkBool(true);
        if (b->isConst() && b->val == 0) return mkCmp(KEq, a, b);
        if (b->isConst()) return mkCmp(KUlt, a, mkConst(b->val + 1, w));
        if (a->isConst()) return mkCmp(KUlt, mkConst(a->val - 1, w), b);
        if (a->kind == KZExt && b->kind == KZExt && a->a->width == b->a->width) return mkCmp(KUle, a->a, b->a);
    }
    if (k == KSlt || k == KSle)
    {
        u128 half = (u128) 1 << (w - 1);
        u128 ua = umaxOf(a), ub = umaxOf(b);
        if (ua < half && ub < half) return mkCmp(k == KSlt ? KUlt : KUle, a, b);
        if (k == KSlt && b->isConst() && b->val == 0 && ua < half) return mkBool(false);
        if (k == KSle && a->isConst() && a->val == 0 && ub < half) return mkBool(true);
        // sign bit tests
        if (k == KSlt && b->isConst() && b->val == 0) return mkExtract(a, w - 1, 1);
        if (k == KSle && a->isConst() && a->val == 0) return mkNot(mkExtract(b, w - 1, 1));
        if (k == KSlt && a->isConst() && a->val == m) return mkNot(mkExtract(b, w - 1, 1));   // -1 < b
        if (k == KSle && b->isConst() && b->val == m) return mkExtract(a, w - 1, 1);
        if (a->kind == KSExt && b->kind == KSExt && a->a->width == b->a->width) return mkCmp(k, a->a, b->a);
        // a constant negative vs known non-negative
        if (a->isConst() && a->val >= half && ub < half) return mkBool(true);
        if (b->isConst() && b->val >= half && ua < half) return mkBool(false);
    }
    return intern(k, 1, 0, 0, a, b);
}

E mkIte(E c, E a, E b)
{
    if (c->isConst()) return c->val ? a : b;
    if (a == b) return a;
    if (a->kind == KAgg)
    {
        std::vector<E> v;
        for (size_t i = 0; i < a->agg->size(); ++i) v.push_back(mkIte(c, (*a->agg)[i], (*b->agg)[i]));
        return mkAgg(std::move(v));
    }
    if (c->kind == KXor && c->b->isConst()) return mkIte(c->a, b, a);
    unsigned w = a->width;
    if (w == 1)
    {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isTrue(a)) return mkOr1(c, b);
        if (isFalse(a)) return mkAnd1(mkNot(c), b);
        if (isTrue(b)) return mkOr1(mkNot(c), a);
        if (isFalse(b)) return mkAnd1(c, a);
    }
    if (a->kind == KIte && a->a == c) a = a->b;
    if (b->kind == KIte && b->a == c) b = b->c;
    if (a == b) return a;
    if (a->kind == KZExt && b->kind == KZExt && a->a->width == b->a->width) return mkZExt(mkIte(c, a->a, b->a), w);
    return intern(KIte, w, 0, 0, c, a, b);
}

E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->width) return a;
    switch (a->kind)
    {
        case KConst: return mkConst(a->val >> lo, w);
        case KExtract: return mkExtract(a->a, a->aux + lo, w);
        case KConcat:
        {
            unsigned lw = a->b->width;
            if (lo >= lw) return mkExtract(a->a, lo - lw, w);
            if (lo + w <= lw) return mkExtract(a->b, lo, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
        }
        case KZExt:
        {
            unsigned n = a->a->width;
            if (lo >= n) return mkConst(0, w);
            if (lo + w <= n) return mkExtract(a->a, lo, w);
            return mkZExt(mkExtract(a->a, lo, n - lo), w);
        }
        case KSExt:
        {
            unsigned n = a->a->width;
            if (lo + w <= n) return mkExtract(a->a, lo, w);
            if (lo < n) return mkSExt(mkExtract(a->a, lo, n - lo), w);
            return mkSExt(mkExtract(a->a, n - 1, 1), w);
        }
        case KIte:
            if (a->b->isConst() || a->c->isConst() || w == 8 || w == 1)
                return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
            break;
        case KAnd:
        case KOr:
        case KXor: return mkBin(a->kind, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
        case KAdd:
        case KSub:
        case KMul:
            if (lo == 0) return mkBin(a->kind, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
            break;
        default: break;
    }
    return intern(KExtract, w, lo, 0, a);
}

// i-th byte of an expression for memory: kept as a plain extract so that bytes re-assemble on load
E mkByte(E a, unsigned i)
{
    if (a->width == 8 && i == 0) return a;
    if (a->width < 8) return mkZExt(a, 8);
    unsigned lo = 8 * i;
    switch (a->kind)
    {
        case KConst: return mkConst(a->val >> lo, 8);
        case KExtract: return intern(KExtract, 8, a->aux + lo, 0, a->a);
        case KConcat:
            if (lo >= a->b->width && a->b->width % 8 == 0) return mkByte(a->a, (lo - a->b->width) / 8);
            if (lo + 8 <= a->b->width) return mkByte(a->b, i);
            return mkExtract(a, lo, 8);
        case KZExt:
            if (lo >= a->a->width) return mkConst(0, 8);
            if (lo + 8 <= a->a->width) return mkByte(a->a, i);
            return mkExtract(a, lo, 8);
        default: break;
    }
    if (lo + 8 > a->width) return mkExtract(mkZExt(a, lo + 8), lo, 8);
    return intern(KExtract, 8, lo, 0, a);
}

E mkConcat(E hi, E lo)
{
    unsigned w = hi->width + lo->width;
    if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->width) | lo->val, w);
    if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
    if (hi->kind == KExtract && lo->kind == KExtract && hi->a == lo->a && hi->aux == lo->aux + lo->width)
        return mkExtract(hi->a, lo->aux, w);
    // extract(x, n..) : x  where lo is the whole low part held as an expression of smaller width
    if (hi->kind == KExtract && lo->kind == KConcat && lo->a->kind == KExtract && lo->a->a == hi->a
        && hi->aux == lo->a->aux + lo->a->width)
        return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
    if (hi->kind == KConcat && hi->b->kind == KExtract && lo->kind == KExtract && hi->b->a == lo->a
        && hi->b->aux == lo->aux + lo->width)
        return mkConcat(hi->a, mkExtract(lo->a, lo->aux, hi->b->width + lo->width));
    // sign/zero extension bytes re-assembled
    if (hi->kind == KIte && lo->kind == KIte && hi->a == lo->a)
        return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
    if (hi->isConst() && lo->kind == KConcat && lo->a->isConst())
        return mkConcat(mkConcat(hi, lo->a), lo->b);
    if (hi->kind == KZExt) return mkZExt(mkConcat(hi->a, lo), w);
    if (lo->isConst() && hi->kind == KConcat && hi->b->isConst()) return mkConcat(hi->a, mkConcat(hi->b, lo));
    if (hi->isConst() && lo->kind == KIte && lo->b->isConst() && lo->c->isConst())
        return mkIte(lo->a, mkConcat(hi, lo->b), mkConcat(hi, lo->c));
    if (lo->isConst() && hi->kind == KIte && hi->b->isConst() && hi->c->isConst())
        return mkIte(hi->a, mkConcat(hi->b, lo), mkConcat(hi->c, lo));
    return intern(KConcat, w, 0, 0, hi, lo);
}

E mkZExt(E a, unsigned w)
{
    if (w == a->width) return a;
    if (w < a->width) return mkExtract(a, 0, w);
    if (a->isConst()) return mkConst(a->val, w);
    if (a->kind == KZExt) return mkZExt(a->a, w);
    if (a->kind == KIte && a->b->isConst() && a->c->isConst()) return mkIte(a->a, mkConst(a->b->val, w), mkConst(a->c->val, w));
    return intern(KZExt, w, 0, 0, a);
}

E mkSExt(E a, unsigned w)
{
    if (w == a->width) return a;
    if (w < a->width) return mkExtract(a, 0, w);
    if (a->isConst()) return mkConst((u128) sext128(a->val, a->width), w);
    if (a->kind == KSExt) return mkSExt(a->a, w);
    if (a->kind == KZExt) return mkZExt(a->a, w);
    if (umaxOf(a) < ((u128) 1 << (a->width - 1))) return mkZExt(a, w);
    if (a->kind == KIte && a->b->isConst() && a->c->isConst())
        return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
    return intern(KSExt, w, 0, 0, a);
}

// ---- floating point (concrete folding uses the host FPU) ----
static double toD(u128 v, unsigned w)
{
    if (w == 32)
    {
        uint32_t x = (uint32_t) v;
        float f;
        memcpy(&f, &x, 4);
        return f;
    }
    uint64_t x = (uint64_t) v;
    double d;
    memcpy(&d, &x, 8);
    return d;
}
static float toF(u128 v)
{
    uint32_t x = (uint32_t) v;
    float f;
    memcpy(&f, &x, 4);
    return f;
}
static u128 fromF(float f)
{
    uint32_t x;
    memcpy(&x, &f, 4);
    return x;
}
static u128 fromD(double f)
{
    uint64_t x;
    memcpy(&x, &f, 8);
    return x;
}

u128 foldFBin(Kind k, u128 a, u128 b, unsigned w)
{
    if (w == 32)
    {
        float x = toF(a), y = toF(b);
        switch (k)
        {
            case KFAdd: return fromF(x + y);
            case KFSub: return fromF(x - y);
            case KFMul: return fromF(x * y);
            case KFDiv: return fromF(x / y);
            case KFRem: return fromF(fmodf(x, y));
            case KFEq: return x == y;
            case KFLt: return x < y;
            case KFLe: return x <= y;
            case KFUno: return x != x || y != y;
            default: return 0;
        }
    }
    double x = toD(a, w), y = toD(b, w);
    switch (k)
    {
        case KFAdd: return fromD(x + y);
        case KFSub: return fromD(x - y);
        case KFMul: return fromD(x * y);
        case KFDiv: return fromD(x / y);
        case KFRem: return fromD(fmod(x, y));
        case KFEq: return x == y;
        case KFLt: return x < y;
        case KFLe: return x <= y;
        case KFUno: return x != x || y != y;
        default: return 0;
    }
}
u128 foldFConv(Kind k, u128 a, unsigned wa, unsigned w)
{
    switch (k)
    {
        case KFToFP: return w == 32 ? fromF((float) toD(a, wa)) : fromD(toD(a, wa));
        case KUIToFP: return w == 32 ? fromF((float) a) : fromD((double) a);
        case KSIToFP: return w == 32 ? fromF((float) sext128(a, wa)) : fromD((double) sext128(a, wa));
        case KFPToUI: return (u128) toD(a, wa) & maskOf(w);
        case KFPToSI: return (u128) (i128) toD(a, wa) & maskOf(w);
        default: return 0;
    }
}
E mkFBin(Kind k, E a, E b)
{
    if (a->isConst() && b->isConst()) return mkConst(foldFBin(k, a->val, b->val, a->width), a->width);
    return intern(k, a->width, 0, 0, a, b);
}
E mkFCmp(Kind k, E a, E b)
{
    if (a->isConst() && b->isConst()) return mkConst(foldFBin(k, a->val, b->val, a->width), 1);
    return intern(k, 1, 0, 0, a, b);
}
E mkFConv(Kind k, E a, unsigned w)
{
    if (k == KFToFP && a->width == w) return a;
    if (a->isConst()) return mkConst(foldFConv(k, a->val, a->width, w), w);
    return intern(k, w, 0, 0, a);
}

static std::vector<uint32_t> g_noSyms;
static std::map<std::vector<uint32_t>, const std::vector<uint32_t>*> g_symSets;
const std::vector<uint32_t>& symsOf(E e)
{
    if (e->syms) return *e->syms;
    if (e->kind == KConst) return *(e->syms = &g_noSyms);
    std::vector<uint32_t> r;
    if (e->kind == KSym) r.push_back(e->aux);
    for (E x : {e->a, e->b, e->c})
    {
        if (!x) continue;
        auto& s = symsOf(x);
        if (r.empty()) { r = s; continue; }
        std::vector<uint32_t> t;
        std::set_union(r.begin(), r.end(), s.begin(), s.end(), std::back_inserter(t));
        r.swap(t);
    }
    auto it = g_symSets.find(r);
    if (it == g_symSets.end()) it = g_symSets.emplace(r, new std::vector<uint32_t>(r)).first;
    e->syms = it->second;
    return *e->syms;
}

u128 Model::eval(E e) const
{
    if (e->kind == KConst) return e->val;
    if (e->kind == KSym) return get(e->aux) & maskOf(e->width);
    auto it = memo.find(e->id);
    if (it != memo.end()) return it->second;
    u128 r = 0;
    unsigned w = e->width;
    switch (e->kind)
    {
        case KIte: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
        case KConcat: r = (eval(e->a) << e->b->width) | eval(e->b); break;
        case KExtract: r = (eval(e->a) >> e->aux) & maskOf(w); break;
        case KZExt: r = eval(e->a); break;
        case KSExt: r = (u128) sext128(eval(e->a), e->a->width) & maskOf(w); break;
        case KEq: r = eval(e->a) == eval(e->b); break;
        case KUlt: r = eval(e->a) < eval(e->b); break;
        case KUle: r = eval(e->a) <= eval(e->b); break;
        case KSlt: r = sext128(eval(e->a), e->a->width) < sext128(eval(e->b), e->a->width); break;
        case KSle: r = sext128(eval(e->a), e->a->width) <= sext128(eval(e->b), e->a->width); break;
        case KFAdd: case KFSub: case KFMul: case KFDiv: case KFRem:
        case KFEq: case KFLt: case KFLe: case KFUno:
            r = foldFBin(e->kind, eval(e->a), eval(e->b), e->a->width); break;
        case KFToFP: case KUIToFP: case KSIToFP: case KFPToUI: case KFPToSI:
            r = foldFConv(e->kind, eval(e->a), e->a->width, w); break;
        default:
        {
            bool ok;
            r = foldBin(e->kind, eval(e->a), eval(e->b), w, ok);
        }
    }
    memo[e->id] = r;
    return r;
}

static const char* kname(Kind k)
{
    static const char* n[] = {"c", "s", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl",
                              "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "concat", "extract", "zext", "sext", "ite",
                              "fadd", "fsub", "fmul", "fdiv", "frem", "feq", "flt", "fle", "funo", "ftofp", "uitofp", "sitofp",
                              "fptoui", "fptosi", "agg"};
    return n[k];
}
std::string exprStr(E e, int d)
{
    std::ostringstream o;
    if (e->kind == KConst)
    {
        o << (uint64_t) e->val << ":" << e->width;
        return o.str();
    }
    if (e->kind == KSym) return g_syms[e->aux].name;
    if (d == 0) return "...";
    o << "(" << kname(e->kind);
    if (e->kind == KExtract) o << "[" << e->aux << "+" << e->width << "]";
    for (E x : {e->a, e->b, e->c})
        if (x) o << " " << exprStr(x, d - 1);
    o << ")";
    return o.str();
}
}
