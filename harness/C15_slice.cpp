// C15: a slice is the designated sub-sequence of the array, for every layout.
#include "zoo.hpp"

using namespace zoo;
using binary_array = sparrow::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, std::int32_t>;

// the nulls among the elements [b, e) that the validity bitmap of the layout describes
static void check_null_count(const sparrow::arrow_proxy& p, const array& o, size_t b, size_t e, layout l)
{
    int64_t nulls = 0;
    for (size_t i = b; i < e; ++i) nulls += o[i].has_value() ? 0 : 1;
    if ((l == L_SPARSE || l == L_DENSE || l == L_RUN) && p.null_count() == 0) return;    // no bitmap of their own
    if (l == L_DICT) return;                                       // below: nulls of the keys only
    SX_ASSERT(p.null_count() == -1 || p.null_count() == nulls, "null_count of the slice");
}
static void check_slice(const array& s, const array& o, size_t b, size_t e, layout l)
{
    SX_ASSERT(s.size() == e - b, "size of the slice");
    SX_ASSERT(s.data_type() == o.data_type(), "type of the slice");
    SX_ASSERT(s.empty() == (b == e), "empty slice");
    for (size_t i = 0; i < e - b; ++i) SX_ASSERT(deep(s[i], o[b + i]), "element of the slice");
    check_null_count(proxy(s), o, b, e, l);
}
static void bounds(size_t n, size_t& b, size_t& e)
{
    b = sx::choose("start", 0, n);
    e = b + sx::choose("count", 0, n - b);
}
SX_ENTRY(c15_slice, quick, "slice and slice_view of every layout (16: primitives, string, the five lists, struct, unions, dictionary, run-end, null, nested) with 0..3 elements (thorough 4), every start and end, symbolic contents; the original is unchanged")
{
    layout l = choose_layout();
    size_t n = sx::choose("n", 0, SX_BOUND(3, 4)), b, e;
    bounds(n, b, e);
    array a = make(l, n);
    array keep(a);
    if (sx::flag("view"))
    {
        array s = a.slice_view(b, e);
        check_slice(s, a, b, e, l);
        SX_REACH("view");
    }
    else
    {
        array s = a.slice(b, e);
        check_slice(s, a, b, e, l);
        // independent of the original
        a = array(make_null(1));
        check_slice(s, keep, b, e, l);
        a = keep;
        SX_REACH("slice");
    }
    SX_ASSERT(a.size() == n, "size of the original");
    for (size_t i = 0; i < n; ++i) SX_ASSERT(deep(a[i], keep[i]), "element of the original");
}
SX_ENTRY(c15_slice_of_slice, quick, "slices (copied or view) of slices (copied or view), then copied and moved, of every layout with 3 elements (thorough 4), every bounds")
{
    layout l = choose_layout();
    size_t n = SX_BOUND(3, 4), b, e, b2, e2;
    bounds(n, b, e);
    bounds(e - b, b2, e2);
    array a = make(l, n);
    size_t how = sx::choose("how", 0, 3);
    array s = how & 1 ? a.slice_view(b, e) : a.slice(b, e);
    array t = how & 2 ? s.slice_view(b2, e2) : s.slice(b2, e2);
    check_slice(t, a, b + b2, b + e2, l);
    array u(t);
    check_slice(u, a, b + b2, b + e2, l);
    array v(std::move(t));
    check_slice(v, a, b + b2, b + e2, l);
    u = array(make_null(1));
    u = v;
    check_slice(u, a, b + b2, b + e2, l);
    SX_REACH("slice of slice");
}
// bitmaps and offsets of more than one byte
SX_ENTRY(c15_long, quick, "slice and slice_view [b, e) of every layout with 18 elements, b one of 1, 7, 8, 9, 15, e - b one of 1, 3, 8; the copy of the slice and a slice of it")
{
    static const size_t starts[] = {1, 7, 8, 9, 15}, counts[] = {1, 3, 8};
    layout l = choose_layout();
    sparse_bits = l == L_DICT || l == L_DEEP;
    size_t n = 18, b = starts[sx::choose("start", 0, 4)], e = b + counts[sx::choose("count", 0, 2)];
    if (e > n) e = n;
    array a = make(l, n);
    array s = sx::choose("view", 0, 1) ? a.slice_view(b, e) : a.slice(b, e);
    check_slice(s, a, b, e, l);
    array u(s);
    check_slice(u, a, b, e, l);
    if (e - b > 1)
    {
        array t = s.slice(1, e - b);
        check_slice(t, a, b + 1, e, l);
    }
    SX_REACH("long");
}
// positions and lengths of more than a byte
SX_ENTRY(c15_wide, quick, "slices of every layout with 300 elements of chosen contents, from 1 or 257 to 260 or 300; copies and slices of them")
{
    static const size_t starts[] = {1, 257}, ends[] = {260, 300};
    const layout l = choose_layout();
    plain = true;
    const size_t n = 300, b = starts[sx::choose("start", 0, 1)], e = ends[sx::choose("end", 0, 1)];
    const array a = make(l, n);
    const array s = sx::choose("view", 0, 1) ? a.slice_view(b, e) : a.slice(b, e);
    check_slice(s, a, b, e, l);
    const array u(s);
    check_slice(u, a, b, e, l);
    const size_t m = e - b;
    const array t = s.slice(m / 3, m - 1);
    check_slice(t, a, b + m / 3, e - 1, l);
    SX_REACH("wide");
}
// typed slices
template <class A>
static void typed(const A& a, auto same_elem)
{
    size_t n = a.size(), b, e, b2, e2;
    bounds(n, b, e);
    bounds(e - b, b2, e2);
    auto check = [&](const A& s, size_t from, size_t to)
    {
        SX_ASSERT(s.size() == to - from, "size of the typed slice");
        int64_t nulls = 0;
        for (size_t i = from; i < to; ++i)
        {
            auto x = s[i - from], y = a[i];
            SX_ASSERT(x.has_value() == y.has_value(), "validity of the typed slice");
            nulls += x.has_value() ? 0 : 1;
            if (x.has_value()) SX_ASSERT(same_elem(x.get(), y.get()), "element of the typed slice");
        }
        int64_t c = proxy(s).null_count();
        SX_ASSERT(c == -1 || c == nulls, "null_count of the typed slice");
        size_t i = from;
        for (auto it = s.begin(); it != s.end(); ++it, ++i)
        {
            SX_ASSERT(i < to, "iteration length of the typed slice");
            auto x = *it;
            auto y = a[i];
            SX_ASSERT(x.has_value() == y.has_value(), "iteration validity of the typed slice");
            if (x.has_value()) SX_ASSERT(same_elem(x.get(), y.get()), "iteration of the typed slice");
        }
        SX_ASSERT(i == to, "iteration of the typed slice visits all");
        i = from;
        for (auto it = s.rbegin(); it != s.rend(); ++it) ++i;
        SX_ASSERT(i == to, "reverse iteration of the typed slice");
        i = from;
        for (auto&& x : s.bitmap()) { SX_ASSERT(i < to && bool(x) == a[i].has_value(), "bitmap of the typed slice"); ++i; }
        SX_ASSERT(i == to, "bitmap of the typed slice visits all");
    };
    size_t how = sx::choose("how", 0, 3);
    A s = how & 1 ? a.slice_view(b, e) : a.slice(b, e);
    check(s, b, e);
    A t = how & 2 ? s.slice_view(b2, e2) : s.slice(b2, e2);
    check(t, b + b2, b + e2);
}
static auto bytes_same = [](const auto& x, const auto& y)
{
    if (x.size() != y.size()) return false;
    bool ok = true;
    auto i = x.begin();
    for (auto j = y.begin(); j != y.end(); ++i, ++j) ok &= *i == *j;
    return ok;
};
static auto value_same = [](const auto& x, const auto& y) { return same(x, y); };
SX_ENTRY(c15_typed_primitive, quick, "typed slices of slices of int32 arrays with 3 elements (thorough 4): elements, iteration, bitmap, null count")
{
    child c = make_child(I32, SX_BOUND(3, 4));
    typed(sparrow::primitive_array<int32_t>(values(c.i), bitmap(c.i)), value_same);
}
SX_ENTRY(c15_typed_string, quick, "as c15_typed_primitive for string arrays")
{
    child c = make_child(STR, SX_BOUND(3, 4));
    typed(sparrow::string_array(str_values<std::string>(c.s), bitmap(c.s)), bytes_same);
}
SX_ENTRY(c15_typed_binary, quick, "as c15_typed_primitive for binary arrays")
{
    child c = make_child(STR, SX_BOUND(3, 4));
    typed(binary_array(str_values<std::vector<std::byte>>(c.s), bitmap(c.s)), bytes_same);
}
SX_ENTRY(c15_typed_string_view, quick, "as c15_typed_primitive for string view arrays with inline and out-of-line elements (lengths 11..14)")
{
    SM<4> m;
    for (size_t i = 0; i < 3; ++i) m.push({sym_bytes(11 + (i * 2) % 4), sx::flag("valid")});
    std::vector<size_t> nulls;
    for (size_t i = 0; i < m.n; ++i) if (!m.v[i].has) nulls.push_back(i);
    typed(sparrow::string_view_array(str_values<std::string>(m), std::move(nulls)), bytes_same);
}
SX_ENTRY(c15_long_bitmap, quick, "slices of an int8 array of 19 elements with symbolic validity at symbolic bounds: null count, size, one symbolic element")
{
    constexpr size_t n = 19;
    bool has[n];
    int8_t x[n];
    sparrow::validity_bitmap bits(n, true);
    std::vector<int8_t> v;
    for (size_t i = 0; i < n; ++i)
    {
        has[i] = sx::flag("has");
        x[i] = sx::sym<int8_t>("x");
        bits.set(i, has[i]);
        v.push_back(x[i]);
    }
    const sparrow::primitive_array<int8_t> a(v, std::move(bits));
    size_t b = sx::choose("start", 0, n), c = sx::choose("count", 0, n - b);
    bool view = sx::flag("view");
    auto s = view ? a.slice_view(b, b + c) : a.slice(b, b + c);
    SX_ASSERT(s.size() == c, "size");
    int64_t nulls = 0;
    for (size_t i = 0; i < c; ++i) nulls += has[b + i] ? 0 : 1;
    SX_ASSERT(proxy(s).null_count() == nulls || proxy(s).null_count() == -1, "null_count");
    if (c)
    {
        size_t j = sx::range("j", 0, c - 1);
        auto r = s[j];
        SX_ASSERT(r.has_value() == has[b + j] && r.get() == x[b + j], "element");
    }
    SX_REACH("long");
}
SX_ENTRY(c15_huge, quick, "slices and views, and slices of them, of a run-end encoded array of 2^62 elements with bounds of 0, 99, 39999, 2999999999, 2^61 and lengths 1, 3000000001, 2^61 + 5: size and any element (64-bit symbolic); also the copy")
{
    huge h;
    const array a = h.make();
    static const uint64_t starts[] = {0, 99, 39999, 2999999999u, uint64_t(1) << 61}, counts[] = {1, 3000000001u, (uint64_t(1) << 61) + 5}, skips[] = {0, 1, 2500000000u};
    const uint64_t b = starts[sx::choose("b", 0, 4)], n = counts[sx::choose("n", 0, 2)], c = skips[sx::choose("c", 0, 2)];
    const uint64_t e = n > huge::SIZE - b ? huge::SIZE : b + n, d = e - b;
    sx::assume(c <= d);
    const size_t how = sx::choose("how", 0, 3);
    const array s = how & 1 ? a.slice_view(b, e) : a.slice(b, e);
    const array t = how & 2 ? s.slice_view(c, d) : s.slice(c, d);
    const array u(t);
    SX_ASSERT(s.size() == e - b && t.size() == d - c && u.size() == d - c && a.size() == huge::SIZE, "sizes");
    const uint64_t i = sx::sym<uint64_t>("i");
    switch (sx::choose("which", 0, 2))
    {
        case 0: if (i < e - b) SX_ASSERT(h.is_at(s[i], b + i), "element of the slice"); break;
        case 1: if (i < d - c) SX_ASSERT(h.is_at(t[i], b + c + i), "element of the slice of the slice"); break;
        default: if (i < d - c) SX_ASSERT(h.is_at(u[i], b + c + i), "element of the copy");
    }
    SX_REACH("huge");
}
