// C30: lexicographic comparison is the lexicographic order; equality of elements is equality of contents.
#include "sx.hpp"
#include <array>
#include <compare>
#include "zoo.hpp"
#include "sparrow/utils/algorithm.hpp"

using namespace zoo;
using binary_array = sparrow::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, std::int32_t>;

// -1, 0, 1, 2 (unordered); without branches
template <class T>
static int order(const T& a, const T& b)
{
    const int l = a < b, g = b < a, e = a == b;
    return g - l + 2 * (1 - (l | g | e));
}
// lexicographic: the first difference decides, else the lengths; without branches on the contents
template <class A, class B>
static int lex(const A& a, size_t n, const B& b, size_t m)
{
    int r = n < m ? -1 : n > m ? 1 : 0;
    for (size_t i = n < m ? n : m; i-- > 0;)
    {
        const int o = order(a[i], b[i]);
        r = (o != 0) * o + (o == 0) * r;
    }
    return r;
}
template <class O>
static int number(O o) { return (o > 0) - (o < 0) + 2 * (1 - ((o > 0) | (o < 0) | (o == 0))); }

template <class T>
static std::vector<T> symbols(size_t n)
{
    std::vector<T> v;
    for (size_t i = 0; i < n; ++i) v.push_back(sx::sym<T>("x"));
    return v;
}
template <class T>
static void compare_vectors()
{
    const std::vector<T> a = symbols<T>(sx::choose("n", 0, SX_BOUND(3, 4))), b = symbols<T>(sx::choose("m", 0, SX_BOUND(3, 4)));
    const int want = lex(a, a.size(), b, b.size());
    SX_ASSERT(number(sparrow::lexicographical_compare_three_way(a, b)) == want, "three-way comparison");
    SX_ASSERT(sparrow::lexicographical_compare(a, b) == (want == -1), "less");
    // a comparator of one's own: the reverse order of the elements
    const auto rev = [](const T& x, const T& y) -> std::partial_ordering { return y <=> x; };
    std::vector<T> c(a), d(b);
    int r = a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
    for (size_t i = std::min(a.size(), b.size()); i-- > 0;)
    {
        const int o = order(b[i], a[i]);
        r = (o != 0) * o + (o == 0) * r;
    }
    SX_ASSERT(number(sparrow::lexicographical_compare_three_way(a, b, rev)) == r, "with a comparator");
}
SX_ENTRY(c30_lex_i8, quick, "vectors of int8 of 0..3 elements (0..4 thorough), every content") { compare_vectors<int8_t>(); }
SX_ENTRY(c30_lex_u64, quick, "vectors of uint64 of 0..3 elements (0..4 thorough), every content") { compare_vectors<uint64_t>(); }
SX_ENTRY(c30_lex_f64, quick, "vectors of double of 0..3 elements (0..4 thorough), every bit pattern: NaN is unordered") { compare_vectors<double>(); }
SX_ENTRY(c30_lex_mixed, quick, "a vector against an array, and against itself; int32, 0..3 elements")
{
    const std::vector<int32_t> a = symbols<int32_t>(sx::choose("n", 0, 3));
    std::array<int32_t, 2> b{sx::sym<int32_t>("y"), sx::sym<int32_t>("y")};
    SX_ASSERT(number(sparrow::lexicographical_compare_three_way(a, b)) == lex(a, a.size(), b, 2), "different ranges");
    SX_ASSERT(number(sparrow::lexicographical_compare_three_way(b, a)) == lex(b, 2, a, a.size()), "different ranges");
    SX_ASSERT(number(sparrow::lexicographical_compare_three_way(a, a)) == 0 && !sparrow::lexicographical_compare(a, a), "a range and itself");
}

// references to elements of string and binary arrays
SX_ENTRY(c30_string_refs, quick, "mutable references to strings of 0..2 bytes of arrays of 3 elements against std::string, string_view and C strings of 0..2 bytes: equality for every byte, order for ASCII")
{
    SM<> m;
    for (size_t i = 0; i < 3; ++i) m.push({sym_bytes(i == 1 ? sx::choose("n", 0, 2) : 1), sx::flag("has")});
    const size_t len = sx::choose("m", 0, 2);
    const S s = sym_bytes(len);
    const std::string str = to_string(s);
    sparrow::string_array a(str_values<std::string>(m), bitmap(m));
    const auto e = a[1];
    const auto& r = e.get();
    const S& x = m.v[1].x;
    SX_ASSERT(static_cast<size_t>(r.size()) == x.n, "size");
    const int want = lex(x.c, x.n, s.c, s.n);
    bool ascii = true, zero = false;
    for (size_t i = 0; i < x.n; ++i) ascii &= x.c[i] < 128;
    for (size_t i = 0; i < s.n; ++i) { ascii &= s.c[i] < 128; zero |= s.c[i] == 0; }
    SX_ASSERT((r == str) == (want == 0) && (r != str) == (want != 0) && (str == r) == (want == 0), "equality with a string");
    SX_ASSERT((r == std::string_view(str)) == (want == 0), "equality with a view");
    SX_ASSERT(zero || (r == str.c_str()) == (want == 0), "equality with a C string");
    const int o = number(r <=> str), p = number(r <=> std::string_view(str));
    SX_ASSERT(!ascii || (o == want && p == want), "order");
    SX_ASSERT((o == 0) == (want == 0) && o != 2 && p == o, "order agrees with equality");
    SX_ASSERT(zero || !ascii || number(r <=> str.c_str()) == want, "order with a C string");
    SX_ASSERT((r < str) == (o < 0) && (r > str) == (o > 0) && (r <= str) == (o <= 0) && (r >= str) == (o >= 0), "order operators");
    // two references, of the same array and of another one
    SX_ASSERT((a[0].get() == a[1].get()) == (lex(m.v[0].x.c, 1, x.c, x.n) == 0), "two references");
    sparrow::string_array b(std::vector<std::string>{str, str});
    SX_ASSERT((r == b[0].get()) == (want == 0) && (b[1].get() == r) == (want == 0), "references to different arrays");
    const int q = number(r <=> b[1].get());
    SX_ASSERT(!ascii || q == want, "order of references to different arrays");
    SX_ASSERT(q == o, "order of references to different arrays");
    // nullables of references
    SX_ASSERT((e == sparrow::make_nullable<std::string>(std::string(str))) == (m.v[1].has && want == 0), "equality of a nullable reference");
    // const elements are views
    const auto& ca = a;
    SX_ASSERT((ca[1].get() == std::string_view(str)) == (want == 0), "equality of a const element");
    SX_ASSERT((ca[1] == b[0]) == (m.v[1].has && want == 0), "equality of elements");
}
SX_ENTRY(c30_binary_refs, quick, "mutable references to byte strings of 0..2 bytes against vectors of bytes of 0..2 bytes: equality and order for every byte")
{
    SM<> m;
    for (size_t i = 0; i < 3; ++i) m.push({sym_bytes(i == 1 ? sx::choose("n", 0, 2) : 1), sx::flag("has")});
    const size_t len = sx::choose("m", 0, 2);
    const S s = sym_bytes(len);
    const std::vector<std::byte> v = to_bytes(s);
    binary_array a(str_values<std::vector<std::byte>>(m), bitmap(m));
    const auto e = a[1];
    const auto& r = e.get();
    const S& x = m.v[1].x;
    const int want = lex(x.c, x.n, s.c, s.n);
    SX_ASSERT((r == v) == (want == 0) && (r != v) == (want != 0), "equality with bytes");
    SX_ASSERT(number(r <=> v) == want, "order");
    SX_ASSERT((r < v) == (want < 0) && (r >= v) == (want >= 0), "order operators");
    binary_array b(std::vector<std::vector<std::byte>>{v});
    SX_ASSERT((r == b[0].get()) == (want == 0) && number(r <=> b[0].get()) == want, "references to different arrays");
}

// both null, or both present with equal contents; of the same type; without branches on symbolic values
static bool equal(const elem_t& a, const elem_t& b);
template <class T>
static bool equal_value(const T& a, const T& b)
{
    if constexpr (std::is_same_v<T, sparrow::null_type>) return true;
    else if constexpr (std::is_same_v<T, std::string_view>) return deep_value(a, b);
    else if constexpr (std::is_same_v<T, list_value> || std::is_same_v<T, struct_value>)
    {
        if (a.size() != b.size()) return false;
        bool ok = true;
        for (size_t i = 0; i < a.size(); ++i) ok &= equal(a[i], b[i]);
        return ok;
    }
    else if constexpr (requires { bool(a == b); } && std::is_arithmetic_v<T>) return a == b;
    else return same<T>(a, b);
}
static bool equal(const elem_t& a, const elem_t& b)
{
    const typename elem_t::base_type &x = a, &y = b;
    if (x.index() != y.index()) return false;
    return std::visit(
        [&](const auto& u) -> bool
        {
            using N = std::remove_cvref_t<decltype(u)>;
            const N* v = std::get_if<N>(&y);
            using V = std::remove_cvref_t<decltype(u.get())>;
            const bool h = u.has_value(), g = v->has_value();
            return (h == g) & (!h | equal_value<V>(u.get(), v->get()));
        },
        x);
}
static void check_equal(const elem_t& a, const elem_t& b)
{
    const bool want = equal(a, b);
    SX_ASSERT((a == b) == want && (b == a) == want && (a != b) == !want, "equality of elements");
}
template <class V>
static void check_values(const V& a, const V& b)
{
    const bool want = equal_value(a, b);
    SX_ASSERT((a == b) == want && (b == a) == want && (a != b) == !want, "equality of values");
}
SX_ENTRY(c30_elements, quick, "two elements of arrays of any two of the 16 layouts (2 elements, every value and validity): equal exactly when of the same type and both null or equal in content")
{
    const layout l = choose_layout(), k = choose_layout();
    const array a = make(l, 2), b = make(k, 2);
    const size_t i = sx::choose("i", 0, 1), j = sx::choose("j", 0, 1);
    check_equal(a[i], b[j]);
}
SX_ENTRY(c30_same_array, quick, "two elements of one array of each layout (3 elements) and of a slice or copy of it")
{
    const layout l = choose_layout();
    const array a = make(l, 3);
    const size_t i = sx::choose("i", 0, 2), j = sx::choose("j", 0, 2);
    check_equal(a[i], a[j]);
    const array c(a), s = a.slice(1, 3);
    check_equal(a[i], c[j]);
    check_equal(c[j], s[i % 2]);
}
static list_value list_of(size_t how, const std::vector<int32_t>& v, std::unique_ptr<array>& keep)
{
    // the values v preceded by an element that is not part of the list
    std::vector<int32_t> all{7};
    all.insert(all.end(), v.begin(), v.end());
    const size_t n = v.size();
    array flat{sparrow::primitive_array<int32_t>(all)};
    switch (how)
    {
        case 0: keep = std::make_unique<array>(sparrow::list_array(std::move(flat), sparrow::list_array::offset_from_sizes(std::vector<size_t>{1, n}))); break;
        case 1: keep = std::make_unique<array>(sparrow::big_list_array(std::move(flat), sparrow::big_list_array::offset_from_sizes(std::vector<size_t>{1, n}))); break;
        case 2:
        {
            sparrow::u8_buffer<int32_t> o(2);
            sparrow::u8_buffer<uint32_t> z(2);
            o[0] = 0; o[1] = 1; z[0] = 1; z[1] = static_cast<uint32_t>(n);
            keep = std::make_unique<array>(sparrow::list_view_array(std::move(flat), std::move(o), std::move(z)));
            break;
        }
        default:
        {
            keep = std::make_unique<array>(sparrow::list_array(std::move(flat), sparrow::list_array::offset_from_sizes(std::vector<size_t>{1, n})));
            *keep = keep->slice(1, 2);
            const elem_t e = (*keep)[0];
            return std::get<sparrow::nullable<list_value>>(static_cast<const elem_t::base_type&>(e)).get();
        }
    }
    const elem_t e = (*keep)[1];
    return std::get<sparrow::nullable<list_value>>(static_cast<const elem_t::base_type&>(e)).get();
}
SX_ENTRY(c30_list_values, quick, "lists of 0..2 int32 of list, large list, list view and sliced list arrays: equal exactly when of the same length with equal elements")
{
    const std::vector<int32_t> v = symbols<int32_t>(sx::choose("n", 0, 2)), w = symbols<int32_t>(sx::choose("m", 0, 2));
    std::unique_ptr<array> p, q;
    const list_value a = list_of(sx::choose("a", 0, 3), v, p), b = list_of(sx::choose("b", 0, 3), w, q);
    bool want = v.size() == w.size();
    if (want)
        for (size_t i = 0; i < v.size(); ++i) want &= v[i] == w[i];
    SX_ASSERT((a == b) == want && (b == a) == want && (a != b) == !want, "equality of lists");
    SX_ASSERT(a == a && b == b, "a list and itself");
    SX_ASSERT(list_value{} == list_value{} && (list_value{} == a) == v.empty(), "the default list is empty");
}
SX_ENTRY(c30_struct_values, quick, "structs of 1..2 fields of int32, uint8 or string type with symbolic validity, at every pair of positions of two arrays of 2 elements")
{
    auto build = [](size_t f, kind k0, kind k1)
    {
        std::vector<array> c;
        c.push_back(values_of(k0, 2));
        if (f == 2) c.push_back(values_of(k1, 2));
        return sparrow::struct_array(std::move(c), sym_bits(2));
    };
    const size_t f = sx::choose("f", 1, 2), g = sx::choose("g", 1, 2);
    const kind k = sx::choose("k", 0, 1) ? STR : I32;
    const auto a = build(f, I32, STR), b = build(g, sx::choose("other", 0, 1) ? U8 : I32, k);
    const size_t i = sx::choose("i", 0, 1), j = sx::choose("j", 0, 1);
    check_values(a[i].get(), b[j].get());
    check_values(a[i].get(), a[j].get());
}

SX_ENTRY(c30_long, quick, "vectors of 17, 40 and 300 int32 that differ in one chosen element or only in length; strings, lists and structs of as many elements or characters that may differ in the first, middle or last one")
{
    static const size_t sizes[] = {17, 40, 300};
    const size_t n = sizes[sx::choose("n", 0, 2)];
    const size_t k = model::spot("k", n);
    const int32_t x = sx::sym<int32_t>("x"), y = sx::sym<int32_t>("y");
    switch (sx::choose("what", 0, 3))
    {
        case 0:
        {
            std::vector<int32_t> a, b;
            for (size_t i = 0; i < n; ++i) { a.push_back(static_cast<int32_t>(i)); b.push_back(static_cast<int32_t>(i)); }
            if (k < n) { a[k] = x; b[k] = y; }
            else b.push_back(0);
            const int want = k < n ? order(x, y) : -1;
            SX_ASSERT(number(sparrow::lexicographical_compare_three_way(a, b)) == want, "three-way comparison");
            SX_ASSERT(number(sparrow::lexicographical_compare_three_way(b, a)) == -want, "three-way comparison");
            SX_ASSERT(sparrow::lexicographical_compare(a, b) == (want < 0) && sparrow::lexicographical_compare(b, a) == (want > 0), "less");
            break;
        }
        case 1:
        {
            std::string s(n, 'm'), t(n, 'm');
            const char c = static_cast<char>(sx::sym<unsigned char>("c") & 127), d = static_cast<char>(sx::sym<unsigned char>("d") & 127);
            if (k < n) { s[k] = c; t[k] = d; }
            else t.push_back('m');
            const int want = k < n ? order(c, d) : -1;
            sparrow::string_array a(std::vector<std::string>{"m", s, t});
            const auto r = a[1];
            SX_ASSERT((r.get() == t) == (want == 0) && number(r.get() <=> t) == want, "against a string");
            SX_ASSERT((r.get() == a[2].get()) == (want == 0) && number(r.get() <=> a[2].get()) == want, "two references");
            const sparrow::array e(std::move(a));
            check_equal(e[1], e[2]);
            SX_ASSERT((e[1] == e[2]) == (want == 0), "two elements");
            break;
        }
        case 2:
        {
            std::vector<int32_t> v, w;
            for (size_t i = 0; i < n; ++i) { v.push_back(static_cast<int32_t>(i)); w.push_back(static_cast<int32_t>(i)); }
            if (k < n) { v[k] = x; w[k] = y; }
            else w.push_back(0);
            std::unique_ptr<array> p, q;
            const list_value a = list_of(sx::choose("a", 0, 3), v, p), b = list_of(sx::choose("b", 0, 3), w, q);
            SX_ASSERT((a == b) == (k < n && x == y) && (b == a) == (a == b), "equality of lists");
            break;
        }
        default:
        {
            auto build = [&](int32_t z)
            {
                std::vector<array> c;
                for (size_t i = 0; i < n + (k == n && z == y); ++i) c.push_back(array(sparrow::primitive_array<int32_t>({static_cast<int32_t>(i == k ? z : 5)})));
                return sparrow::struct_array(std::move(c));
            };
            if (k == n) sx::assume(x != y);
            const auto a = build(x), b = build(y);
            SX_ASSERT((a[0].get() == b[0].get()) == (k < n && x == y), "equality of structs");
        }
    }
    SX_REACH("long");
}
