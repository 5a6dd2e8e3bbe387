// C23: build() makes an array whose elements are the elements of its input.
#include "sx.hpp"
#include <array>
#include <string>
#include <tuple>
#include <variant>
#include <vector>
#include "sparrow/builder/builder.hpp"
#include "zoo.hpp"

using sparrow::dict_encode;
using sparrow::nullable;
using sparrow::run_end_encode;
using arr::elem_t;

template <class T, template <class...> class U> struct is_a : std::false_type {};
template <template <class...> class U, class... A> struct is_a<U<A...>, U> : std::true_type {};
template <class T> struct is_std_array : std::false_type {};
template <class T, size_t N> struct is_std_array<std::array<T, N>> : std::true_type {};

// arbitrary values; under a null as well
template <class T> struct any;
template <class T> requires std::is_arithmetic_v<T> struct any<T> { static T make() { return sx::sym<T>("x"); } };
static size_t max_chars = 2;
template <> struct any<std::string>
{
    static std::string make()
    {
        std::string s(sx::choose("chars", 0, max_chars), 'a');
        for (char& c : s) c = static_cast<char>(sx::sym<unsigned char>("c"));
        return s;
    }
};
template <class T> struct any<std::vector<T>>
{
    static std::vector<T> make()
    {
        size_t n = sx::choose("elements", 0, 2);
        std::vector<T> v;
        for (size_t i = 0; i < n; ++i) v.push_back(any<T>::make());
        return v;
    }
};
template <class T, size_t N> struct any<std::array<T, N>>
{
    static std::array<T, N> make() { std::array<T, N> v; for (T& x : v) x = any<T>::make(); return v; }
};
template <class... T> struct any<std::tuple<T...>>
{
    static std::tuple<T...> make() { return std::tuple<T...>{any<T>::make()...}; }
};
template <class... T> struct any<std::variant<T...>>
{
    using type = std::variant<T...>;
    template <size_t I> static type at(size_t i)
    {
        if constexpr (I + 1 < sizeof...(T)) if (i != I) return at<I + 1>(i);
        return type(std::in_place_index<I>, any<std::variant_alternative_t<I, type>>::make());
    }
    static type make() { return at<0>(sx::choose("alternative", 0, sizeof...(T) - 1)); }
};
template <class T> struct any<nullable<T>>
{
    static nullable<T> make() { return nullable<T>{any<T>::make(), sx::flag("has")}; }
};
template <class T> struct any<dict_encode<T>> { static dict_encode<T> make() { return dict_encode<T>{any<T>::make()}; } };
template <class T> struct any<run_end_encode<T>> { static run_end_encode<T> make() { return run_end_encode<T>{any<T>::make()}; } };

// e is the element x (floating-point values: equal, or both NaN)
template <class T>
static bool is_null(const T&) { return false; }
template <class T>
static bool is(const elem_t& e, const T& x, bool has = true)
{
    const typename elem_t::base_type& v = e;
    if constexpr (is_a<T, nullable>::value) return is(e, x.get(), has & x.has_value());
    else if constexpr (is_a<T, dict_encode>::value || is_a<T, run_end_encode>::value) return is(e, x.get(), has);
    else if constexpr (is_a<T, std::variant>::value) return std::visit([&](const auto& y) { return is(e, y, has); }, x);
    else if constexpr (std::is_arithmetic_v<T>)
    {
        const auto* r = std::get_if<nullable<const T&>>(&v);
        if (!r) return false;
        const T y = r->get();
        return (r->has_value() == has) & (e.has_value() == has) & (!has | (y == x) | ((y != y) & (x != x)));
    }
    else if constexpr (std::is_same_v<T, std::string>)
    {
        const auto* r = std::get_if<nullable<std::string_view>>(&v);
        if (!r) return false;
        bool ok = (r->has_value() == has) & (e.has_value() == has);
        if (!has) return ok;
        if (r->get().size() != x.size()) return false;
        for (size_t i = 0; i < x.size(); ++i) ok &= r->get()[i] == x[i];
        return ok;
    }
    else if constexpr (is_a<T, std::tuple>::value)
    {
        const auto* r = std::get_if<nullable<sparrow::struct_value>>(&v);
        if (!r) return false;
        bool ok = (r->has_value() == has) & (e.has_value() == has);
        if (!has) return ok;
        if (r->get().size() != std::tuple_size_v<T>) return false;
        [&]<size_t... I>(std::index_sequence<I...>) { ((ok &= is(r->get()[I], std::get<I>(x))), ...); }(std::make_index_sequence<std::tuple_size_v<T>>());
        return ok;
    }
    else
    {
        const auto* r = std::get_if<nullable<sparrow::list_value>>(&v);
        if (!r) return false;
        bool ok = (r->has_value() == has) & (e.has_value() == has);
        if (!has) return ok;
        if (r->get().size() != x.size()) return false;
        for (size_t i = 0; i < x.size(); ++i) ok &= is(r->get()[i], x[i]);
        return ok;
    }
}
template <class A>
static const A& unwrap(const A& a) { return a; }
template <class... F, class T>
static void check(const T& in, const F&... f)
{
    auto typed = sparrow::build(in, f...);
    SX_ASSERT(typed.size() == in.size(), "as many elements as the input");
    sparrow::array a(std::move(typed));
    SX_ASSERT(a.size() == in.size(), "as many elements as the input");
    size_t i = 0;
    for (const auto& x : in) { SX_ASSERT(is(a[i], x), "element"); ++i; }
    SX_REACH("built");
}
// equality of two inputs; nan: what a NaN and a NaN are
template <class T>
static bool same(const T& x, const T& y, bool nan)
{
    if constexpr (is_a<T, nullable>::value)
    {
        if (!x.has_value() || !y.has_value()) return x.has_value() == y.has_value();
        return same(x.get(), y.get(), nan);
    }
    else if constexpr (std::is_arithmetic_v<T>) return (x == y) | (nan & (x != x) & (y != y));
    else if constexpr (is_a<T, std::variant>::value)
    {
        if (x.index() != y.index()) return false;
        return std::visit([&](const auto& p) { return same(p, std::get<std::decay_t<decltype(p)>>(y), nan); }, x);
    }
    else if constexpr (is_a<T, std::tuple>::value)
    {
        bool ok = true;
        [&]<size_t... I>(std::index_sequence<I...>) { ((ok &= same(std::get<I>(x), std::get<I>(y), nan)), ...); }(std::make_index_sequence<std::tuple_size_v<T>>());
        return ok;
    }
    else
    {
        if (x.size() != y.size()) return false;
        bool ok = true;
        for (size_t i = 0; i < x.size(); ++i) ok &= same(x[i], y[i], nan);
        return ok;
    }
}
// each distinct value is in the dictionary once, adjacent runs differ (a NaN may count as equal to a NaN or not)
template <class T>
static int64_t distinct(const std::vector<T>& v, bool runs, bool nan)
{
    int64_t r = 0;
    for (size_t i = 0; i < v.size(); ++i)
    {
        bool seen = false;
        for (size_t j = runs && i ? i - 1 : 0; j < i; ++j) seen |= same(v[j], v[i], nan);
        r += seen ? 0 : 1;
    }
    return r;
}
template <class E>
static void check_encoded(const E& in)
{
    auto typed = sparrow::build(in);
    SX_ASSERT(typed.size() == in.get().size(), "as many elements as the input");
    const ArrowArray* structure = sparrow::get_arrow_array(typed);
    const bool runs = structure->dictionary == nullptr;
    const int64_t stored = runs ? structure->children[1]->length : structure->dictionary->length;
    SX_ASSERT(stored >= distinct(in.get(), runs, true) && stored <= distinct(in.get(), runs, false), "each value or run is stored once");
    sparrow::array a(std::move(typed));
    SX_ASSERT(a.size() == in.get().size(), "as many elements as the input");
    size_t i = 0;
    for (const auto& x : in.get()) { SX_ASSERT(is(a[i], x), "element"); ++i; }
    SX_REACH("built");
}
template <class T>
static std::vector<T> input(size_t max)
{
    size_t n = sx::choose("n", 0, max);
    std::vector<T> v;
    for (size_t i = 0; i < n; ++i) v.push_back(any<T>::make());
    return v;
}
template <class T> static void rt(size_t max) { check(input<T>(max)); }
template <class T> static void dict(size_t max) { check_encoded(dict_encode<std::vector<T>>{input<T>(max)}); }
template <class T> static void runs(size_t max) { check_encoded(run_end_encode<std::vector<T>>{input<T>(max)}); }
using str = std::string;
template <class... T> using tup = std::tuple<T...>;
template <class T> using nl = nullable<T>;
template <class T> using vec = std::vector<T>;
template <class T> using de = dict_encode<T>;
template <class T> using re = run_end_encode<T>;

SX_ENTRY(c23_scalars, quick, "up to 9 values of 8 scalar types")
{
    switch (sx::choose("type", 0, 7))
    {
        case 0: rt<int8_t>(9); break;
        case 1: rt<uint16_t>(3); break;
        case 2: rt<int32_t>(3); break;
        case 3: rt<int64_t>(3); break;
        case 4: rt<float>(3); break;
        case 5: rt<double>(3); break;
        case 6: rt<uint8_t>(3); break;
        default: rt<uint64_t>(3);
    }
}
SX_ENTRY(c23_nullable_scalars, quick, "up to 9 nullables of 4 scalar types")
{
    switch (sx::choose("type", 0, 3))
    {
        case 0: rt<nl<int8_t>>(9); break;
        case 1: rt<nl<uint16_t>>(3); break;
        case 2: rt<nl<int64_t>>(3); break;
        default: rt<nl<double>>(3);
    }
}
SX_ENTRY(c23_strings, quick, "up to 3 strings or nullables of strings (nulls with contents too) of up to 2 characters")
{
    if (sx::choose("nullable", 0, 1)) rt<nl<str>>(3);
    else rt<str>(3);
}
SX_ENTRY(c23_lists, quick, "up to 3 lists of up to 2: integers, nullables; nullable lists (nulls with contents too)")
{
    switch (sx::choose("type", 0, 2))
    {
        case 0: rt<vec<int32_t>>(3); break;
        case 1: rt<vec<nl<int32_t>>>(3); break;
        default: rt<nl<vec<nl<int32_t>>>>(3);
    }
}
SX_ENTRY(c23_deep_lists, quick, "up to 2 lists of up to 2 lists, strings, fixed-size lists or structs; nullable at each level")
{
    switch (sx::choose("type", 0, 4))
    {
        case 0: rt<vec<vec<int32_t>>>(2); break;
        case 1: rt<nl<vec<vec<nl<int32_t>>>>>(2); break;
        case 2: rt<vec<str>>(2); break;
        case 3: rt<nl<vec<std::array<nl<int32_t>, 2>>>>(2); break;
        default: rt<nl<vec<tup<int32_t, nl<double>>>>>(2);
    }
}
SX_ENTRY(c23_large_lists, quick, "up to 2 lists of up to 2, large lists")
{
    check(input<nl<vec<nl<int32_t>>>>(2), sparrow::large_list_flag);
}
SX_ENTRY(c23_fixed, quick, "up to 3 fixed-size lists of 2 or 3, nullable at each level, of integers, strings or lists")
{
    switch (sx::choose("type", 0, 3))
    {
        case 0: rt<std::array<int32_t, 3>>(3); break;
        case 1: rt<nl<std::array<nl<int32_t>, 2>>>(3); break;
        case 2: rt<nl<std::array<str, 2>>>(2); break;
        
        default: rt<std::array<vec<int32_t>, 2>>(2);
    }
}
SX_ENTRY(c23_structs, quick, "up to 3 tuples, nullable at each level, of scalars, strings, lists, fixed-size lists and tuples")
{
    switch (sx::choose("type", 0, 4))
    {
        case 0: rt<tup<int32_t, double>>(3); break;
        case 1: rt<nl<tup<nl<int32_t>, nl<str>>>>(2); break;
        case 2: rt<tup<vec<int32_t>, uint8_t>>(2); break;
        case 3: rt<nl<tup<std::array<int32_t, 2>, tup<nl<int8_t>, double>>>>(2); break;
        default: rt<tup<nl<tup<int8_t, nl<int16_t>>>, nl<vec<nl<int32_t>>>>>(2);
    }
}
SX_ENTRY(c23_unions, quick, "up to 3 variants of two scalars, strings, lists, nullables; up to 2 of six alternatives")
{
    switch (sx::choose("type", 0, 4))
    {
        case 4: rt<std::variant<int32_t, double, nl<uint8_t>, nl<str>, vec<int16_t>, nl<int64_t>>>(2); break;
        case 0: rt<std::variant<int32_t, double>>(3); break;
        case 1: rt<std::variant<nl<int32_t>, nl<str>>>(3); break;
        case 2: rt<std::variant<vec<int32_t>, str>>(2); break;
        default: rt<vec<std::variant<int32_t, nl<double>>>>(2);
    }
}
#define ENC(fn, name)                                                                                        \
    SX_ENTRY(name##_scalars, quick, "")                                                                       \
    {                                                                                                         \
        switch (sx::choose("type", 0, 2))                                                                     \
        {                                                                                                     \
            case 0: fn<int32_t>(3); break;                                                                    \
            case 1: fn<nl<int8_t>>(3); break;                                                                 \
            default: fn<nl<uint64_t>>(3);                                                                     \
        }                                                                                                     \
    }                                                                                                         \
    SX_ENTRY(name##_floats, quick, "") { fn<double>(3); }                                                     \
    SX_ENTRY(name##_strings, quick, "") { if (sx::choose("nullable", 0, 1)) fn<nl<str>>(2); else fn<str>(2); }  \
    SX_ENTRY(name##_nested, quick, "")                                                                        \
    {                                                                                                         \
        switch (sx::choose("type", 0, 4))                                                                     \
        {                                                                                                     \
            case 4: fn<std::variant<int8_t, nl<int16_t>, int32_t, nl<uint8_t>>>(2); break;                    \
            case 0: fn<vec<int8_t>>(2); break;                                                                \
            case 1: fn<nl<tup<nl<int8_t>, int16_t>>>(2); break;                                               \
            case 2: fn<std::variant<int8_t, nl<int16_t>>>(2); break;                                          \
            default: fn<nl<std::array<nl<int8_t>, 2>>>(2);                                                    \
        }                                                                                                     \
    }
ENC(dict, c23_dict)
ENC(runs, c23_runs)
//@entry c23_dict_scalars quick "up to 3 integers or nullables, dictionary encoded"
//@entry c23_dict_floats quick "up to 3 doubles (any, NaN too), dictionary encoded"
//@entry c23_dict_strings quick "up to 2 strings or nullables, dictionary encoded"
//@entry c23_dict_nested quick "up to 2 lists, tuples, variants (of two or four alternatives), fixed-size lists, nullable, dictionary encoded"
//@entry c23_runs_scalars quick "up to 3 integers or nullables, run-end encoded"
//@entry c23_runs_floats quick "up to 3 doubles (any, NaN too), run-end encoded"
//@entry c23_runs_strings quick "up to 2 strings or nullables, run-end encoded"
//@entry c23_runs_nested quick "up to 2 lists, tuples, variants (of two or four alternatives), fixed-size lists, nullable, run-end encoded"
SX_ENTRY(c23_inner_encoding, quick, "up to 2 lists, fixed-size lists, tuples and variants with a dictionary- or run-end-encoded part, strings of up to 1 character")
{
    max_chars = 1;
    switch (sx::choose("type", 0, 7))
    {
        case 0: rt<de<vec<int8_t>>>(2); break;
        case 1: rt<nl<de<vec<nl<int8_t>>>>>(2); break;
        case 2: rt<re<vec<int8_t>>>(2); break;
        case 3: rt<nl<re<vec<nl<int8_t>>>>>(2); break;
        case 4: rt<de<std::array<int8_t, 2>>>(2); break;
        case 5: rt<nl<re<std::array<nl<int8_t>, 2>>>>(2); break;
        case 6: rt<nl<tup<de<nl<str>>, re<nl<str>>>>>(2); break;
        default: rt<std::variant<de<nl<str>>, re<vec<int8_t>>>>(2);
    }
}
SX_ENTRY(c23_wide_parts, quick, "up to 2 tuples of eight members, fixed-size lists of seven elements, and tuples nested four deep")
{
    max_chars = 1;
    switch (sx::choose("type", 0, 3))
    {
        case 0: rt<tup<int8_t, nl<int16_t>, int32_t, nl<uint8_t>, str, double, nl<uint64_t>, float>>(2); break;
        case 1: rt<std::array<nl<int32_t>, 7>>(2); break;
        case 2: rt<nl<std::array<int16_t, 7>>>(2); break;
        default: rt<tup<nl<tup<int8_t, tup<nl<int16_t>, tup<int32_t, uint8_t>>>>, uint8_t>>(2);
    }
}
SX_ENTRY(c23_initializer_list, quick, "three arbitrary integers or nullables as an initializer list")
{
    int32_t a = sx::sym<int32_t>("a"), b = sx::sym<int32_t>("b");
    bool f = sx::flag("f");
    auto x = sparrow::build({a, b, a});
    SX_ASSERT(x.size() == 3 && x[0].has_value() && x[0].get() == a && x[1].get() == b && x[2].get() == a, "elements");
    auto y = sparrow::build({nullable<int32_t>{a, bool(f)}, nullable<int32_t>{b, true}});
    SX_ASSERT(y.size() == 2 && y[0].has_value() == f && (!f || y[0].get() == a) && y[1].has_value() && y[1].get() == b, "elements");
}

SX_ENTRY(c23_long, quick, "inputs of 20, 70 or 300 elements: nullable scalars, strings, lists, tuples, variants, and dictionary- or run-end-encoded strings and integers; contents chosen but for two elements")
{
    static const size_t sizes[] = {20, 70, 300};
    const size_t n = sizes[sx::choose("n", 0, 2)];
    auto fill = [&]<class T>(const T&, auto gen)
    {
        vec<T> v;
        for (size_t i = 0; i < n; ++i) v.push_back(gen(i));
        return v;
    };
    const int32_t x = sx::sym<int32_t>("x");
    const bool h = sx::flag("has");
    const auto num = [&](size_t i) { return i == n / 2 ? x : static_cast<int32_t>(i * 31 % 17); };
    const auto has = [&](size_t i) { return i + 1 == n ? bool(h) : i % 7 != 5; };
    const auto text = [&](size_t i) { return str(i % 23, static_cast<char>('a' + i % 3)); };
    switch (sx::choose("type", 0, 11))
    {
        case 9: check_encoded(de<vec<int32_t>>{fill(int32_t(), [&](size_t i) { return static_cast<int32_t>(i < n - n / 15 ? i : i - n / 15); })}); break;
        case 10: check_encoded(de<vec<nl<int32_t>>>{fill(nl<int32_t>(), [&](size_t i) { const size_t k = i < n - n / 15 ? i : i - n / 15; return nl<int32_t>{static_cast<int32_t>(k * 3), k % 99 != 60}; })}); break;
        case 0: check(fill(nl<int32_t>(), [&](size_t i) { return nl<int32_t>{num(i), has(i)}; })); break;
        case 1: check(fill(nl<str>(), [&](size_t i) { return nl<str>{text(i), has(i)}; })); break;
        case 2: check(fill(nl<vec<int32_t>>(), [&](size_t i) { vec<int32_t> w; for (size_t j = 0; j < i % 5 + (i == 9 ? 30 : 0); ++j) w.push_back(num(i + j)); return nl<vec<int32_t>>{w, has(i)}; })); break;
        case 3: check(fill(nl<tup<int32_t, nl<str>>>(), [&](size_t i) { return nl<tup<int32_t, nl<str>>>{tup<int32_t, nl<str>>{num(i), nl<str>{text(i), i % 4 != 1}}, has(i)}; })); break;
        case 4: check(fill(std::variant<int32_t, nl<double>>(), [&](size_t i) { return i % 3 ? std::variant<int32_t, nl<double>>(num(i)) : std::variant<int32_t, nl<double>>(nl<double>{static_cast<double>(i), i % 2 == 0}); })); break;
        case 5: check_encoded(de<vec<nl<str>>>{fill(nl<str>(), [&](size_t i) { return nl<str>{text(i), i % 7 != 5}; })}); break;
        case 6: check_encoded(re<vec<nl<str>>>{fill(nl<str>(), [&](size_t i) { return nl<str>{text(i / 3), i % 7 != 5}; })}); break;
        case 7: check_encoded(re<vec<int32_t>>{fill(int32_t(), [&](size_t i) { return static_cast<int32_t>(i + 30 < n ? 7 : i); })}); break;
        case 8: check_encoded(de<vec<int32_t>>{fill(int32_t(), [&](size_t i) { return static_cast<int32_t>(n - i); })}); break;
        default: check_encoded(de<vec<int32_t>>{fill(int32_t(), [&](size_t i) { return static_cast<int32_t>(i * 31 % (n / 2)); })});
    }
}
