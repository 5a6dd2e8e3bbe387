#include "solver.hpp"

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <unordered_set>
#include <z3.h>

namespace sx
{
SolverStats g_stats;

struct Solver::Impl
{
    Z3_context ctx;
    Z3_solver bv = nullptr, fp = nullptr;
    std::unordered_map<std::string, std::pair<Res, ModelP>> cache;
    std::vector<ModelP> recent;  // small ring of recent models
    size_t ringPos = 0;
    Z3_sort boolS;
    std::unordered_map<uint32_t, Z3_ast> boolCache, bvCache;
    bool sawFp = false;
    std::unordered_map<uint32_t, bool> fpMemo;

    Z3_ast keep(Z3_ast a)
    {
        Z3_inc_ref(ctx, a);
        return a;
    }
    bool hasFp(E e)
    {
        auto it = fpMemo.find(e->id);
        if (it != fpMemo.end()) return it->second;
        bool r = e->kind >= KFAdd && e->kind <= KFPToSI;
        for (E x : {e->a, e->b, e->c})
            if (x && !r) r = hasFp(x);
        fpMemo[e->id] = r;
        return r;
    }
    Z3_ast num(u128 v, unsigned w)
    {
        Z3_sort s = Z3_mk_bv_sort(ctx, w);
        if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t) v, s);
        Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t) (v >> 64), Z3_mk_bv_sort(ctx, w - 64));
        Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t) v, Z3_mk_bv_sort(ctx, 64));
        return Z3_mk_concat(ctx, hi, lo);
    }
    Z3_sort fpSort(unsigned w)
    {
        return w == 32 ? Z3_mk_fpa_sort_32(ctx) : w == 16 ? Z3_mk_fpa_sort_16(ctx) : Z3_mk_fpa_sort_64(ctx);
    }
    Z3_ast fpOf(E e) { return Z3_mk_fpa_to_fp_bv(ctx, toBV(e), fpSort(e->width)); }
    Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
    Z3_ast rtz() { return Z3_mk_fpa_rtz(ctx); }

    Z3_ast toBool(E e)
    {
        auto it = boolCache.find(e->id);
        if (it != boolCache.end()) return it->second;
        Z3_ast r = nullptr;
        switch (e->kind)
        {
            case KConst: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
            case KAnd:
            {
                Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
                r = Z3_mk_and(ctx, 2, x);
                break;
            }
            case KOr:
            {
                Z3_ast x[2] = {toBool(e->a), toBool(e->b)};
                r = Z3_mk_or(ctx, 2, x);
                break;
            }
            case KXor:
                if (isTrue(e->b)) r = Z3_mk_not(ctx, toBool(e->a));
                else r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b));
                break;
            case KEq: r = Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
            case KUlt: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
            case KUle: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
            case KSlt: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
            case KSle: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
            case KIte: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c)); break;
            case KFEq: r = Z3_mk_fpa_eq(ctx, fpOf(e->a), fpOf(e->b)); break;
            case KFLt: r = Z3_mk_fpa_lt(ctx, fpOf(e->a), fpOf(e->b)); break;
            case KFLe: r = Z3_mk_fpa_leq(ctx, fpOf(e->a), fpOf(e->b)); break;
            case KFUno:
            {
                Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, fpOf(e->a)), Z3_mk_fpa_is_nan(ctx, fpOf(e->b))};
                r = Z3_mk_or(ctx, 2, x);
                break;
            }
            default:
                r = Z3_mk_eq(ctx, toBVraw(e), num(1, 1));
                break;
        }
        return boolCache[e->id] = keep(r);
    }
    Z3_ast toBV(E e)
    {
        auto it = bvCache.find(e->id);
        if (it != bvCache.end()) return it->second;
        Z3_ast r;
        bool boolish = e->width == 1
                       && (e->kind == KAnd || e->kind == KOr || e->kind == KXor || (e->kind >= KEq && e->kind <= KSle)
                           || e->kind == KIte || (e->kind >= KFEq && e->kind <= KFUno));
        if (boolish) r = Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1));
        else r = toBVraw(e);
        return bvCache[e->id] = keep(r);
    }
    Z3_ast toBVraw(E e)
    {
        unsigned w = e->width;
        switch (e->kind)
        {
            case KConst: return num(e->val, w);
            case KSym:
            {
                std::string n = "s" + std::to_string(e->aux);
                return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, w));
            }
            case KAdd: return Z3_mk_bvadd(ctx, toBV(e->a), toBV(e->b));
            case KSub: return Z3_mk_bvsub(ctx, toBV(e->a), toBV(e->b));
            case KMul: return Z3_mk_bvmul(ctx, toBV(e->a), toBV(e->b));
            case KUDiv: return Z3_mk_bvudiv(ctx, toBV(e->a), toBV(e->b));
            case KSDiv: return Z3_mk_bvsdiv(ctx, toBV(e->a), toBV(e->b));
            case KURem: return Z3_mk_bvurem(ctx, toBV(e->a), toBV(e->b));
            case KSRem: return Z3_mk_bvsrem(ctx, toBV(e->a), toBV(e->b));
            case KAnd: return Z3_mk_bvand(ctx, toBV(e->a), toBV(e->b));
            case KOr: return Z3_mk_bvor(ctx, toBV(e->a), toBV(e->b));
            case KXor: return Z3_mk_bvxor(ctx, toBV(e->a), toBV(e->b));
            case KShl: return Z3_mk_bvshl(ctx, toBV(e->a), toBV(e->b));
            case KLShr: return Z3_mk_bvlshr(ctx, toBV(e->a), toBV(e->b));
            case KAShr: return Z3_mk_bvashr(ctx, toBV(e->a), toBV(e->b));
            case KConcat: return Z3_mk_concat(ctx, toBV(e->a), toBV(e->b));
            case KExtract: return Z3_mk_extract(ctx, e->aux + w - 1, e->aux, toBV(e->a));
            case KZExt: return Z3_mk_zero_ext(ctx, w - e->a->width, toBV(e->a));
            case KSExt: return Z3_mk_sign_ext(ctx, w - e->a->width, toBV(e->a));
            case KIte: return Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->c));
            case KFAdd: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne(), fpOf(e->a), fpOf(e->b)));
            case KFSub: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne(), fpOf(e->a), fpOf(e->b)));
            case KFMul: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne(), fpOf(e->a), fpOf(e->b)));
            case KFDiv: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne(), fpOf(e->a), fpOf(e->b)));
            case KFRem: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_rem(ctx, fpOf(e->a), fpOf(e->b)));
            case KFToFP: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne(), fpOf(e->a), fpSort(w)));
            case KUIToFP: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne(), toBV(e->a), fpSort(w)));
            case KSIToFP: return Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne(), toBV(e->a), fpSort(w)));
            case KFPToUI: return Z3_mk_fpa_to_ubv(ctx, rtz(), fpOf(e->a), w);
            case KFPToSI: return Z3_mk_fpa_to_sbv(ctx, rtz(), fpOf(e->a), w);
            default:
                if (w == 1) return Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1));
                fprintf(stderr, "toBV: unsupported kind %d\n", e->kind);
                abort();
        }
    }
};

static void onError(Z3_context c, Z3_error_code e)
{
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

Solver::Solver()
{
    p = new Impl;
    Z3_config cfg = Z3_mk_config();
    p->ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(p->ctx, onError);
}
Solver::~Solver() {}

Res Solver::check(const std::vector<E>& pc, E extra, const ModelP& base, ModelP* out)
{
    g_stats.queries++;
    if (isFalse(extra)) return Res::Unsat;
    // 1. the base model may already satisfy it
    if (base && base->eval(extra))
    {
        g_stats.modelHits++;
        if (out) *out = base;
        return Res::Sat;
    }
    if (isTrue(extra))
    {
        if (out) *out = base;
        return Res::Sat;
    }
    // 2. slice
    std::vector<E> slice;
    {
        std::unordered_set<uint32_t> want(symsOf(extra).begin(), symsOf(extra).end());
        std::vector<char> used(pc.size(), 0);
        bool changed = true;
        while (changed)
        {
            changed = false;
            for (size_t i = 0; i < pc.size(); ++i)
            {
                if (used[i]) continue;
                auto& s = symsOf(pc[i]);
                bool hit = false;
                for (auto x : s)
                    if (want.count(x)) { hit = true; break; }
                if (!hit) continue;
                used[i] = 1;
                slice.push_back(pc[i]);
                for (auto x : s)
                    if (want.insert(x).second) changed = true;
            }
        }
    }
    std::sort(slice.begin(), slice.end(), [](E a, E b) { return a->id < b->id; });
    slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
    std::string key;
    key.reserve(4 * slice.size() + 4);
    auto push = [&](uint32_t id) { key.append((const char*) &id, 4); };
    push(extra->id);
    for (E e : slice) push(e->id);

    auto merged = [&](const ModelP& m) -> ModelP
    {
        auto r = std::make_shared<Model>();
        if (base) r->v = base->v;
        for (auto& kv : m->v) r->v[kv.first] = kv.second;
        return r;
    };
    auto it = p->cache.find(key);
    if (it != p->cache.end())
    {
        g_stats.cacheHits++;
        if (it->second.first == Res::Sat && out) *out = merged(it->second.second);
        return it->second.first;
    }
    // 3. recent models
    for (auto& m : p->recent)
    {
        bool ok = m->eval(extra);
        for (size_t i = 0; ok && i < slice.size(); ++i) ok = m->eval(slice[i]);
        if (ok)
        {
            auto mm = std::make_shared<Model>();
            auto add = [&](E e)
            {
                for (auto s : symsOf(e)) mm->v[s] = m->get(s);
            };
            add(extra);
            for (E e : slice) add(e);
            g_stats.modelHits++;
            p->cache[key] = {Res::Sat, mm};
            if (out) *out = merged(mm);
            return Res::Sat;
        }
    }
    // 4. Z3
    auto t0 = std::chrono::steady_clock::now();
    bool fp = p->hasFp(extra);
    for (E e : slice) fp = fp || p->hasFp(e);
    Z3_solver& s = fp ? p->fp : p->bv;
    if (!s)
    {
        s = fp ? Z3_mk_solver_for_logic(p->ctx, Z3_mk_string_symbol(p->ctx, "QF_FPBV"))
               : Z3_mk_solver_for_logic(p->ctx, Z3_mk_string_symbol(p->ctx, "QF_BV"));
        Z3_solver_inc_ref(p->ctx, s);
        Z3_params pr = Z3_mk_params(p->ctx);
        Z3_params_inc_ref(p->ctx, pr);
        Z3_params_set_uint(p->ctx, pr, Z3_mk_string_symbol(p->ctx, "timeout"), timeoutMs);
        Z3_solver_set_params(p->ctx, s, pr);
        Z3_params_dec_ref(p->ctx, pr);
    }
    Z3_solver_push(p->ctx, s);
    for (E e : slice) Z3_solver_assert(p->ctx, s, p->toBool(e));
    Z3_solver_assert(p->ctx, s, p->toBool(extra));
    g_stats.z3calls++;
    if (!dumpDir.empty())
    {
        FILE* f = fopen((dumpDir + "/q" + std::to_string(g_stats.z3calls) + ".smt2").c_str(), "w");
        if (f)
        {
            fputs(Z3_solver_to_string(p->ctx, s), f);
            fputs("(check-sat)\n", f);
            fclose(f);
        }
    }
    Z3_lbool r = Z3_solver_check(p->ctx, s);
    Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    ModelP mm;
    if (res == Res::Sat)
    {
        auto nm = std::make_shared<Model>();
        Z3_model m = Z3_solver_get_model(p->ctx, s);
        Z3_model_inc_ref(p->ctx, m);
        auto add = [&](E e)
        {
            for (auto sy : symsOf(e))
            {
                if (nm->v.count(sy)) continue;
                E se = g_symExpr[sy];
                u128 val = 0;
                unsigned w = se->width;
                for (unsigned lo = 0; lo < w; lo += 64)
                {
                    unsigned n = std::min(64u, w - lo);
                    Z3_ast part = p->toBV(se);
                    if (w > 64) part = Z3_mk_extract(p->ctx, lo + n - 1, lo, part);
                    Z3_ast v = nullptr;
                    uint64_t u = 0;
                    if (Z3_model_eval(p->ctx, m, part, true, &v)) Z3_get_numeral_uint64(p->ctx, v, &u);
                    val |= (u128) u << lo;
                }
                nm->v[sy] = val;
            }
        };
        add(extra);
        for (E e : slice) add(e);
        Z3_model_dec_ref(p->ctx, m);
        mm = nm;
        // sanity: the model must satisfy what was asked (guards the lowering and the evaluator)
        bool ok = mm->eval(extra);
        for (E e : slice) ok = ok && mm->eval(e);
        if (!ok && !fp)
        {
            fprintf(stderr, "ENGINE-ERROR: z3 model does not satisfy the query\n");
            abort();
        }
        if (p->recent.size() < 12) p->recent.push_back(mm);
        else p->recent[p->ringPos++ % 12] = mm;
    }
    Z3_solver_pop(p->ctx, s, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_stats.time += dt;
    g_stats.maxTime = std::max(g_stats.maxTime, dt);
    if (res == Res::Sat) g_stats.sat++;
    else if (res == Res::Unsat) g_stats.unsat++;
    else g_stats.unknown++;
    p->cache[key] = {res, mm};
    if (res == Res::Sat && out) *out = merged(mm);
    return res;
}
}
