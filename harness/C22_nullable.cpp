// C22: nullable and nullable_variant behave like optionals of values or references.
#include "sx.hpp"
#include <string>
#include <utility>
#include "sparrow/sparrow.hpp"

using sparrow::nullable;
using sparrow::nullval;
using sparrow::nullable_variant;
using sparrow::bad_nullable_access;

template <class T>
static T val(const char* name)
{
    if constexpr (std::is_same_v<T, std::string>)
    {
        std::string s(sx::choose("len", 0, 1) * 17, 'a');    // inline and not
        s.push_back(static_cast<char>(sx::sym<unsigned char>(name)));
        return s;
    }
    else
    {
        T x = sx::sym<T>(name);
        if constexpr (std::is_floating_point_v<T>) sx::assume(x == x);
        return x;
    }
}
template <class T>
static bool same(const T& a, const T& b)
{
    return a == b;
}
// the model: flag and value; null is equal to null and before everything
template <class T>
static bool eq(bool fa, const T& a, bool fb, const T& b) { return (fa == fb) & (!fa | (a == b)); }
template <class T>
static bool lt(bool fa, const T& a, bool fb, const T& b) { return fb & (!fa | (a < b)); }

template <class L, class R>
static void relations(const L& x, const R& y, bool e, bool l, bool g)
{
    SX_ASSERT((x == y) == e && (x != y) == !e, "equality");
    SX_ASSERT((x < y) == l && (x > y) == g && (x <= y) == (l | e) && (x >= y) == (g | e), "ordering");
    const auto o = x <=> y;
    SX_ASSERT((o < 0) == l && (o == 0) == e && (o > 0) == g, "three-way comparison");
}
template <class T>
static void compare_all()
{
    T a = val<T>("a"), b = val<T>("b");
    bool fa = sx::flag("fa"), fb = sx::flag("fb");
    const nullable<T> x = [&] { nullable<T> r(a); if (!fa) r.reset(); return r; }();
    const nullable<T> y = [&] { nullable<T> r(b); if (!fb) r = nullval; return r; }();
    const nullable<T&, bool&> rx(a, fa);
    const nullable<const T&, bool> ry(b, bool(fb));
    const bool e = eq(fa, a, fb, b), l = lt(fa, a, fb, b), g = lt(fb, b, fa, a);
    relations(x, y, e, l, g);
    relations(rx, ry, e, l, g);
    relations(x, ry, e, l, g);
    relations(rx, y, e, l, g);
    SX_ASSERT(e + l + g == 1, "trichotomy");
    relations(x, b, eq(fa, a, true, b), lt(fa, a, true, b), lt(true, b, fa, a));
    relations(rx, b, eq(fa, a, true, b), lt(fa, a, true, b), lt(true, b, fa, a));
    SX_ASSERT((b == x) == eq(fa, a, true, b), "a value and a nullable");
    relations(x, nullval, !fa, false, fa);
    SX_ASSERT((nullval == x) == !fa && (nullval < x) == fa, "null and a nullable");
}
template <class T>
static void values_of()
{
    T a = val<T>("a"), d = val<T>("d");
    bool f = sx::flag("f");
    nullable<T> x{T(a), bool(f)};
    SX_ASSERT(x.has_value() == f && bool(x) == f && x.null_flag() == f && std::as_const(x).null_flag() == f, "flag");
    SX_ASSERT(same(x.get(), a) && same(std::as_const(x).get(), a), "get");
    auto check_value = [&](auto&& go)
    {
        bool threw = false;
        T got{};
        try { got = go(); }
        catch (const bad_nullable_access&) { threw = true; }
        SX_ASSERT(threw == !f, "value() throws exactly on null");
        if (!threw) SX_ASSERT(same(got, a), "value()");
    };
    check_value([&]() -> T { return x.value(); });
    check_value([&]() -> T { return std::as_const(x).value(); });
    check_value([&]() -> T { return nullable<T>(x).value(); });
    check_value([&]() -> T { const nullable<T> c(x); return std::move(c).value(); });
    SX_ASSERT(same(x.value_or(d), f ? a : d), "value_or");
    SX_ASSERT(same(std::as_const(x).value_or(T(d)), f ? a : d), "value_or");
    SX_ASSERT(same(nullable<T>(x).value_or(d), f ? a : d), "value_or of a temporary");
    nullable<T&, bool&> r(a, f);
    SX_ASSERT(&r.get() == &a && &r.null_flag() == &f, "a nullable of references refers");
    SX_ASSERT(same(r.value_or(d), f ? a : d), "value_or of references");
    check_value([&]() -> T { return r.value(); });
    check_value([&]() -> T { return std::move(r).value(); });
    // writing through
    T n = val<T>("n");
    x.get() = n;
    SX_ASSERT(same(x.get(), n) && x.has_value() == f, "get() writes the value only");
    x.null_flag() = true;
    SX_ASSERT(x.has_value() && same(x.value(), n), "null_flag() writes the flag only");
}
template <class T>
static void assign_all()
{
    T a = val<T>("a"), b = val<T>("b");
    bool fa = sx::flag("fa"), fb = sx::flag("fb");
    const T a0 = a, b0 = b;
    nullable<T> x{T(a), bool(fa)}, y{T(b), bool(fb)};
    T ra = a, rb = b;
    bool rfa = fa, rfb = fb;
    nullable<T&, bool&> p(ra, rfa), q(rb, rfb);
    auto is = [&](const auto& n, bool f, const T& v, const char* l) { SX_ASSERT(n.has_value() == f && (!f || same(n.get(), v)), l); };
    switch (sx::choose("op", 0, 16))
    {
        case 0: x = y; is(x, fb, b, "copy assignment"); is(y, fb, b, "the source of a copy"); break;
        case 1: x = std::move(y); is(x, fb, b, "move assignment"); break;
        case 2: x = b; is(x, true, b, "assignment of a value"); break;
        case 3: x = nullval; is(x, false, a, "assignment of null"); SX_ASSERT(same(x.get(), a), "assignment of null keeps the stored value"); break;
        case 4: x.reset(); SX_ASSERT(!x.has_value(), "reset"); break;
        case 5: x.swap(y); is(x, fb, b, "swap"); is(y, fa, a, "swap"); break;
        case 6: { using std::swap; swap(x, y); is(x, fb, b, "swap"); is(y, fa, a, "swap"); break; }
        case 7: p = q; is(p, fb, b, "assignment of references"); SX_ASSERT(same(ra, b) && rfa == fb && same(rb, b) && rfb == fb, "assignment through references writes what they refer to"); break;
        case 8: p = nullable<T>(y); SX_ASSERT(rfa == fb && same(ra, b), "assignment of values through references"); is(y, fb, b, "the source of a copy"); break;
        case 9: x = q; is(x, fb, b, "assignment from references"); SX_ASSERT(same(rb, b) && rfb == fb, "the source of a copy"); x = a0; SX_ASSERT(same(rb, b), "a nullable of values has its own value"); break;
        case 10: p = b; SX_ASSERT(rfa && same(ra, b), "assignment of a value through references"); break;
        case 11: p = nullval; SX_ASSERT(!rfa && same(ra, a), "assignment of null through references"); break;
        case 12: p.swap(q); SX_ASSERT(same(ra, b) && same(rb, a) && rfa == fb && rfb == fa, "swap through references"); break;
        case 13: x = *&x; is(x, fa, a, "self assignment"); break;
        case 14: p.reset(); SX_ASSERT(!rfa && same(ra, a), "reset through references"); break;
        case 15: p = std::move(q); SX_ASSERT(same(ra, b) && rfa == fb && same(rb, b) && rfb == fb, "move assignment through references copies"); break;
        default: p = p; SX_ASSERT(same(ra, a) && rfa == fa, "self assignment through references");
    }
    SX_ASSERT(same(a, a0) && same(b, b0), "nothing else changes");
}
template <class T>
static void construct_all()
{
    T a = val<T>("a");
    bool f = sx::flag("f");
    auto is = [&](const auto& n, bool flag, const char* l) { SX_ASSERT(n.has_value() == flag && same(T(n.get()), a), l); };
    SX_ASSERT(!nullable<T>().has_value() && !nullable<T>(nullval).has_value(), "default");
    is(nullable<T>(a), true, "from a value");
    is(nullable<T>(T(a)), true, "from a temporary value");
    nullable<T> x{T(a), bool(f)};
    is(x, f, "from a value and a flag");
    is(nullable<T>(a, f), f, "from a value and a flag");
    is(nullable<T>(T(a), f), f, "from a value and a flag");
    is(nullable<T>(a, bool(f)), f, "from a value and a flag");
    is(nullable<T>(x), f, "copy");
    is(nullable<T>(nullable<T>(x)), f, "move");
    nullable<T&, bool&> r(a, f);
    const nullable<T&, bool&> cr(a, f);
    is(r, f, "references");
    is(nullable<T>(r), f, "a value from references");
    is(nullable<T>(cr), f, "a value from references");
    is(nullable<T>(nullable<T&, bool&>(a, f)), f, "a value from references");
    is(nullable<const T&, const bool&>(r), f, "constant references from references");
    is(nullable<const T&, const bool&>(cr), f, "constant references from references");
    is(nullable<const T&>(nullable<const T&>(a, bool(f))), f, "references to the value only");
    is(nullable<T>(nullable<const T&>(a, bool(f))), f, "a value from constant references");
    nullable<T&> only(a);
    is(only, true, "reference to a value");
    is(nullable<T&, bool&>(r), f, "copy of references");
    SX_ASSERT((&nullable<T&, bool&>(r).get() == &a), "copies of references refer to the same");
    nullable<T> s = x;
    s = val<T>("z");
    is(x, f, "copies are independent");
    is(sparrow::make_nullable(T(a), bool(f)), f, "make_nullable");
    if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>)
    {
        nullable<long long> w(x);
        SX_ASSERT(w.has_value() == f && w.get() == static_cast<long long>(a), "converted value");
        nullable<long long> v = nullable<T>(x);
        SX_ASSERT(v.has_value() == f && v.get() == static_cast<long long>(a), "converted temporary");
        v = val<long long>("v");
        v = x;
        SX_ASSERT(v.has_value() == f && v.get() == static_cast<long long>(a), "assigned converted value");
        nullable<long long> u(r);
        SX_ASSERT(u.has_value() == f && u.get() == static_cast<long long>(a), "converted references");
    }
}
#define FOR_TYPES(fn, name, what)                                                       \
    SX_ENTRY(name##_i8, quick, what ": int8_t") { fn<int8_t>(); }                         \
    SX_ENTRY(name##_u64, quick, what ": uint64_t") { fn<uint64_t>(); }                    \
    SX_ENTRY(name##_f64, quick, what ": double, not NaN") { fn<double>(); }               \
    SX_ENTRY(name##_bool, quick, what ": bool") { fn<bool>(); }                           \
    SX_ENTRY(name##_str, quick, what ": std::string of 1 or 18 characters") { fn<std::string>(); }
FOR_TYPES(compare_all, c22_compare, "")
FOR_TYPES(values_of, c22_value, "")
FOR_TYPES(assign_all, c22_assign, "")
FOR_TYPES(construct_all, c22_construct, "")
//@entry c22_compare_i8 quick "all pairs of flags and int8_t values, as nullables of values, of references and mixed, against values and null: all relations"
//@entry c22_compare_u64 quick "same, uint64_t"
//@entry c22_compare_f64 quick "same, double (not NaN)"
//@entry c22_compare_bool quick "same, bool"
//@entry c22_compare_str quick "same, strings of 1 or 18 characters"
//@entry c22_value_i8 quick "every flag and int8_t value: value, value_or, get, null_flag on every value category, of values and references"
//@entry c22_value_u64 quick "same, uint64_t"
//@entry c22_value_f64 quick "same, double (not NaN)"
//@entry c22_value_bool quick "same, bool"
//@entry c22_value_str quick "same, strings of 1 or 18 characters"
//@entry c22_assign_i8 quick "all pairs of flags and int8_t values, 17 assignments, swaps and resets between nullables of values and of references"
//@entry c22_assign_u64 quick "same, uint64_t"
//@entry c22_assign_f64 quick "same, double (not NaN)"
//@entry c22_assign_bool quick "same, bool"
//@entry c22_assign_str quick "same, strings of 1 or 18 characters"
//@entry c22_construct_i8 quick "every flag and int8_t value: every constructor and conversion"
//@entry c22_construct_u64 quick "same, uint64_t"
//@entry c22_construct_f64 quick "same, double (not NaN)"
//@entry c22_construct_bool quick "same, bool"
//@entry c22_construct_str quick "same, strings of 1 or 18 characters"
SX_ENTRY(c22_transitive, quick, "all triples of flags and int8_t values: the order is transitive and agrees with equality")
{
    nullable<int8_t> n[3];
    for (auto& x : n) { x = sx::sym<int8_t>("x"); if (!sx::flag("f")) x.reset(); }
    const bool ab = n[0] <= n[1], bc = n[1] <= n[2], ac = n[0] <= n[2];
    SX_ASSERT(!(ab & bc) | ac, "transitivity of <=");
    SX_ASSERT(!((n[0] == n[1]) & (n[1] == n[2])) | (n[0] == n[2]), "transitivity of ==");
    SX_ASSERT(((n[0] <= n[1]) & (n[1] <= n[0])) == (n[0] == n[1]), "antisymmetry");
    SX_ASSERT(n[0] == n[0] && n[0] <= n[0], "reflexivity");
}
SX_ENTRY(c22_variant, quick, "nullable_variant of an int, a double and a string nullable: construction, copy, move, assignment between alternatives, flag and value")
{
    using V = nullable_variant<nullable<int32_t>, nullable<double>, nullable<std::string>>;
    auto mk = [](size_t k, bool f, int32_t i) -> V
    {
        if (k == 0) return V(nullable<int32_t>(int32_t(i), bool(f)));
        if (k == 1) return V(nullable<double>(static_cast<double>(static_cast<int8_t>(i)), bool(f)));
        return V(nullable<std::string>(std::string(20, static_cast<char>(i)), bool(f)));
    };
    auto is = [](const V& v, size_t k, bool f, int32_t i)
    {
        SX_ASSERT(v.index() == k && v.has_value() == f && bool(v) == f, "alternative and flag");
        if (k == 0) SX_ASSERT(std::get<0>(v).get() == i, "value");
        if (k == 1) SX_ASSERT(std::get<1>(v).get() == static_cast<double>(static_cast<int8_t>(i)), "value");
        if (k == 2) SX_ASSERT(std::get<2>(v).get() == std::string(20, static_cast<char>(i)), "value");
    };
    size_t k = sx::choose("k", 0, 2), l = sx::choose("l", 0, 2);
    bool f = sx::flag("f"), g = sx::flag("g");
    int32_t i = sx::sym<int32_t>("i"), j = sx::sym<int32_t>("j");
    V a = mk(k, f, i), b = mk(l, g, j);
    is(a, k, f, i);
    switch (sx::choose("op", 0, 5))
    {
        case 0: a = b; is(a, l, g, j); is(b, l, g, j); break;
        case 1: a = std::move(b); is(a, l, g, j); break;
        case 2: { V c(a); is(c, k, f, i); is(a, k, f, i); c = b; is(a, k, f, i); is(c, l, g, j); break; }
        case 3: { V c(std::move(a)); is(c, k, f, i); break; }
        case 4: std::swap(a, b); is(a, l, g, j); is(b, k, f, i); break;
        default: a = *&a; is(a, k, f, i);
    }
    SX_REACH("variant");
}
