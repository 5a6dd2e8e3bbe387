// C10: list arrays yield exactly the described sub-sequences of their child.
#include "zoo.hpp"
#include "offset.hpp"
#include "wide.hpp"

using namespace arr;
using sparrow::list_value;

struct range_t { size_t b, e; bool has; };
struct lists
{
    size_t n = 0;
    range_t v[8];
    void push(size_t b, size_t e, bool h) { v[n++] = {b, e, h}; }
};
static sparrow::validity_bitmap list_bitmap(const lists& l)
{
    sparrow::validity_bitmap b(l.n, true);
    for (size_t i = 0; i < l.n; ++i) b.set(i, l.v[i].has);
    return b;
}
static void check_list(const list_value& v, const range_t& r, const child& c, const char*)
{
    SX_ASSERT(v.size() == r.e - r.b, "list size");
    for (size_t j = 0; j < r.e - r.b; ++j) SX_ASSERT(is(v[j], c, r.b + j), "list element");
}
template <class A>
static void check_lists(const A& a, const lists& l, const child& c)
{
    SX_ASSERT(a.size() == l.n, "size");
    SX_ASSERT(a.empty() == (l.n == 0), "empty");
    int64_t nulls = 0;
    for (size_t i = 0; i < l.n; ++i)
    {
        auto r = a[i];
        nulls += l.v[i].has ? 0 : 1;
        SX_ASSERT(r.has_value() == l.v[i].has, "validity");
        check_list(r.get(), l.v[i], c, "operator[]");
    }
    SX_ASSERT(null_count(a) == nulls, "null_count");
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i)
    {
        SX_ASSERT(i < l.n, "iteration length");
        auto r = *it;
        SX_ASSERT(r.has_value() == l.v[i].has, "iteration validity");
        check_list(r.get(), l.v[i], c, "iteration");
    }
    SX_ASSERT(i == l.n, "iteration visits all");
    i = 0;
    for (auto&& v : a.values())
    {
        SX_ASSERT(i < l.n, "values() length");
        check_list(v, l.v[i++], c, "values()");
    }
    SX_ASSERT(i == l.n, "values() visits all");
    // equality of lists is equality of their elements
    for (size_t x = 0; x + 1 < l.n; ++x)
    {
        size_t nx = l.v[x].e - l.v[x].b, ny = l.v[x + 1].e - l.v[x + 1].b;
        bool same_lists = nx == ny;
        auto p = a[x].get(), q = a[x + 1].get();
        for (size_t j = 0; same_lists && j < nx; ++j) same_lists = p[j] == q[j];
        SX_ASSERT((p == q) == same_lists, "equality of list values");
    }
}
// also copied and assigned
template <class A>
static void check_copies(A& a, const lists& l, const child& c)
{
    check_lists(a, l, c);
    A b(a);
    check_lists(b, l, c);
    SX_ASSERT(a == b, "copy equals original");
    A d(std::move(b));
    check_lists(d, l, c);
    a = d;
    check_lists(a, l, c);
}
// list sizes chosen freely, over a child of exactly the needed size plus a slack
static lists choose_lists(size_t n, size_t maxlen)
{
    lists l;
    size_t at = 0;
    for (size_t i = 0; i < n; ++i)
    {
        size_t s = sx::choose("len", 0, maxlen);
        l.push(at, at + s, sx::flag("lvalid"));
        at += s;
    }
    return l;
}
template <class A, class O>
static void list_entry()
{
    lists l = choose_lists(sx::choose("n", 0, 3), 2);
    child c = choose_child((l.n ? l.v[l.n - 1].e : 0) + sx::choose("slack", 0, 1));
    std::vector<size_t> sizes;
    for (size_t i = 0; i < l.n; ++i) sizes.push_back(l.v[i].e - l.v[i].b);
    auto offsets = A::offset_from_sizes(sizes);
    SX_ASSERT(offsets.size() == l.n + 1, "offset_from_sizes: one more than the sizes");
    for (size_t i = 0; i < l.n; ++i)
    {
        SX_ASSERT(offsets[i] == static_cast<O>(l.v[i].b), "offset_from_sizes: running sum");
        SX_ASSERT(offsets[i + 1] == static_cast<O>(l.v[i].e), "offset_from_sizes: running sum");
    }
    A a(to_array(c), std::move(offsets), list_bitmap(l));
    check_copies(a, l, c);
}
SX_ENTRY(c10_list, quick, "list_array of 0..3 lists of length 0..2 over an int32 or string child, symbolic elements and validity of both levels; also copied, moved, assigned")
{
    list_entry<sparrow::list_array, int32_t>();
    SX_REACH("list");
}
SX_ENTRY(c10_big_list, quick, "as c10_list for big_list_array")
{
    list_entry<sparrow::big_list_array, int64_t>();
    SX_REACH("big list");
}
// the sizes may be of any unsigned type: the sums are those of the offsets' type
template <class A, class O, class Z>
static void sizes_entry()
{
    size_t n = sx::choose("n", 0, 4);
    std::vector<Z> sizes;
    O sums[5] = {0};
    for (size_t i = 0; i < n; ++i)
    {
        Z z = sx::sym<Z>("size");
        if constexpr (sizeof(Z) >= 4) sx::assume(z < (Z(1) << 28));
        sizes.push_back(z);
        sums[i + 1] = static_cast<O>(sums[i] + static_cast<O>(z));
    }
    auto check = [&](const auto& offsets)
    {
        SX_ASSERT(offsets.size() == n + 1, "offset_from_sizes: one more than the sizes");
        for (size_t i = 0; i <= n; ++i) SX_ASSERT(offsets[i] == sums[i], "offset_from_sizes: running sum");
    };
    check(A::offset_from_sizes(sizes));
    const std::vector<Z>& csizes = sizes;
    check(A::offset_from_sizes(csizes));
    SX_REACH("sizes");
}
SX_ENTRY(c10_offsets_from_sizes, quick, "offset_from_sizes of list and big list arrays over 0..4 symbolic sizes of every unsigned type (below 2^28 for 32 and 64 bits)")
{
    switch (sx::choose("type", 0, 7))
    {
        case 0: sizes_entry<sparrow::list_array, int32_t, uint8_t>(); break;
        case 1: sizes_entry<sparrow::list_array, int32_t, uint16_t>(); break;
        case 2: sizes_entry<sparrow::list_array, int32_t, uint32_t>(); break;
        case 3: sizes_entry<sparrow::list_array, int32_t, uint64_t>(); break;
        case 4: sizes_entry<sparrow::big_list_array, int64_t, uint8_t>(); break;
        case 5: sizes_entry<sparrow::big_list_array, int64_t, uint16_t>(); break;
        case 6: sizes_entry<sparrow::big_list_array, int64_t, uint32_t>(); break;
        case 7: sizes_entry<sparrow::big_list_array, int64_t, uint64_t>(); break;
    }
}
template <class A, class O, class Z>
static void view_entry()
{
    constexpr size_t NC = 3;
    child c = choose_child(NC);
    lists l;
    size_t n = sx::choose("n", 0, 2);
    sparrow::u8_buffer<O> offsets(n);
    sparrow::u8_buffer<Z> sizes(n);
    for (size_t i = 0; i < n; ++i)
    {
        size_t b = sx::choose("begin", 0, NC), s = sx::choose("len", 0, NC - b);
        l.push(b, b + s, sx::flag("lvalid"));
        offsets[i] = static_cast<O>(b);
        sizes[i] = static_cast<Z>(s);
    }
    A a(to_array(c), std::move(offsets), std::move(sizes), list_bitmap(l));
    check_copies(a, l, c);
}
SX_ENTRY(c10_view, quick, "list_view_array of 0..2 lists, every offset and size within an int32 or string child of 3 elements (overlapping, out of order), symbolic elements and validity")
{
    view_entry<sparrow::list_view_array, int32_t, uint32_t>();
    SX_REACH("view");
}
SX_ENTRY(c10_big_view, quick, "as c10_view for big_list_view_array")
{
    view_entry<sparrow::big_list_view_array, int64_t, uint64_t>();
    SX_REACH("big view");
}
SX_ENTRY(c10_fixed, quick, "fixed_sized_list_array of 0..3 lists of size 1..3 (also with a partial list left over, and sizes 10 and 12 with one list) over an int32 or string child")
{
    size_t n, s, slack;
    if (sx::flag("twodig")) { n = 1; s = sx::flag("ten") ? 10 : 12; slack = 0; }
    else { n = sx::choose("n", 0, 3); s = sx::choose("lsize", 1, 3); slack = sx::choose("slack", 0, s - 1); }
    child c = choose_child(n * s + slack);
    lists l;
    for (size_t i = 0; i < n; ++i) l.push(i * s, (i + 1) * s, sx::flag("lvalid"));
    sparrow::fixed_sized_list_array a(static_cast<uint64_t>(s), to_array(c), list_bitmap(l));
    check_copies(a, l, c);
    SX_REACH("fixed");
}
SX_ENTRY(c10_symbolic_offsets, quick, "list_array of 3 and list_view_array of 2 lists over 4 int32, offsets and sizes fully symbolic within the child")
{
    constexpr size_t NC = 4;
    child c = make_child(I32, NC);
    size_t j = sx::range("j", 0, NC - 1);
    if (sx::flag("list"))
    {
        constexpr size_t n = 3;
        size_t off[n + 1];
        sparrow::u8_buffer<int32_t> o(n + 1);
        for (size_t i = 0; i <= n; ++i)
        {
            off[i] = sx::range("off", 0, NC);
            if (i) sx::assume(off[i] >= off[i - 1]);
            o[i] = static_cast<int32_t>(off[i]);
        }
        const sparrow::list_array a(to_array(c), std::move(o));
        for (size_t i = 0; i < n; ++i)
        {
            list_value v = a[i].get();
            SX_ASSERT(v.size() == off[i + 1] - off[i], "size of the list");
            if (j < v.size()) SX_ASSERT(is_prim<int32_t>(v[j], c.i.v[off[i] + j]), "element of the list");
        }
        SX_REACH("symbolic list");
    }
    else
    {
        constexpr size_t n = 2;
        size_t off[n], len[n];
        sparrow::u8_buffer<int32_t> o(n);
        sparrow::u8_buffer<uint32_t> z(n);
        for (size_t i = 0; i < n; ++i)
        {
            off[i] = sx::range("off", 0, NC);
            len[i] = sx::range("len", 0, NC);
            sx::assume(off[i] + len[i] <= NC);
            o[i] = static_cast<int32_t>(off[i]);
            z[i] = static_cast<uint32_t>(len[i]);
        }
        const sparrow::list_view_array a(to_array(c), std::move(o), std::move(z));
        for (size_t i = 0; i < n; ++i)
        {
            list_value v = a[i].get();
            SX_ASSERT(v.size() == len[i], "size of the list view");
            if (j < v.size()) SX_ASSERT(is_prim<int32_t>(v[j], c.i.v[off[i] + j]), "element of the list view");
        }
        SX_REACH("symbolic view");
    }
}
SX_ENTRY(c10_nested, quick, "lists of lists of int32: 0..2 outer lists of length 0..2 over inner lists of length 0..2, symbolic elements and validity; fixed-size lists of lists")
{
    bool fixed = sx::flag("fixed");
    lists outer, inner;
    if (fixed)
    {
        size_t n = sx::choose("n", 0, 2);
        for (size_t i = 0; i < n; ++i) outer.push(2 * i, 2 * i + 2, sx::flag("lvalid"));
    }
    else outer = choose_lists(sx::choose("n", 0, 2), 2);
    inner = choose_lists(outer.n ? outer.v[outer.n - 1].e : 0, SX_BOUND(1, 2));
    child c = make_child(I32, inner.n ? inner.v[inner.n - 1].e : 0);
    auto offs = [](const lists& l)
    {
        sparrow::u8_buffer<int32_t> o(l.n + 1);
        o[0] = 0;
        for (size_t i = 0; i < l.n; ++i) o[i + 1] = static_cast<int32_t>(l.v[i].e);
        return o;
    };
    array in(sparrow::list_array(to_array(c), offs(inner), list_bitmap(inner)));
    auto check = [&](const auto& a)
    {
        SX_ASSERT(a.size() == outer.n, "outer size");
        for (size_t i = 0; i < outer.n; ++i)
        {
            auto r = a[i];
            SX_ASSERT(r.has_value() == outer.v[i].has, "outer validity");
            list_value v = r.get();
            SX_ASSERT(v.size() == outer.v[i].e - outer.v[i].b, "outer list size");
            for (size_t j = 0; j < v.size(); ++j)
            {
                elem_t e = v[j];
                const auto* p = get_alt<sparrow::nullable<list_value>>(e);
                SX_ASSERT(p != nullptr, "inner element is a list");
                const range_t& in_r = inner.v[outer.v[i].b + j];
                SX_ASSERT(p->has_value() == in_r.has, "inner validity");
                check_list(p->get(), in_r, c, "inner");
            }
        }
    };
    if (fixed)
    {
        sparrow::fixed_sized_list_array a(uint64_t(2), std::move(in), list_bitmap(outer));
        check(a);
        SX_REACH("nested fixed");
    }
    else
    {
        sparrow::list_array a(std::move(in), offs(outer), list_bitmap(outer));
        check(a);
        sparrow::list_array b(a);
        check(b);
        SX_REACH("nested list");
    }
}
// over a child of 2^62 elements, offsets and sizes up to the limits of their types
template <class A, class O>
static void huge_lists(const huge& h, uint64_t limit)
{
    constexpr size_t n = 2;
    uint64_t off[n + 1];
    sparrow::u8_buffer<O> o(n + 1);
    for (size_t i = 0; i <= n; ++i)
    {
        off[i] = sx::sym<uint64_t>("off");
        sx::assume(off[i] <= limit);
        if (i) sx::assume(off[i] >= off[i - 1]);
        o[i] = static_cast<O>(off[i]);
    }
    const A a(h.make(), std::move(o));
    SX_ASSERT(a.size() == n, "size");
    const size_t i = sx::choose("i", 0, n - 1);
    const A b(a);
    for (const A* x : {&a, &b})
    {
        const list_value v = (*x)[i].get();
        SX_ASSERT(v.size() == off[i + 1] - off[i], "size of the list");
        const uint64_t j = sx::sym<uint64_t>("j");
        if (j < v.size()) SX_ASSERT(h.is_at(v[j], off[i] + j), "element of the list");
    }
}
template <class A, class O, class Z>
static void huge_views(const huge& h, uint64_t limit, uint64_t maxlen)
{
    constexpr size_t n = 2;
    uint64_t off[n], len[n];
    sparrow::u8_buffer<O> o(n);
    sparrow::u8_buffer<Z> z(n);
    for (size_t i = 0; i < n; ++i)
    {
        off[i] = sx::sym<uint64_t>("off");
        len[i] = sx::sym<uint64_t>("len");
        sx::assume((off[i] <= limit) & (len[i] <= maxlen));
        o[i] = static_cast<O>(off[i]);
        z[i] = static_cast<Z>(len[i]);
    }
    const A a(h.make(), std::move(o), std::move(z));
    SX_ASSERT(a.size() == n, "size");
    const size_t i = sx::choose("i", 0, n - 1);
    const list_value v = a[i].get();
    SX_ASSERT(v.size() == len[i], "size of the list view");
    const uint64_t j = sx::sym<uint64_t>("j");
    if (j < v.size()) SX_ASSERT(h.is_at(v[j], off[i] + j), "element of the list view");
}
SX_ENTRY(c10_huge, quick, "lists over a (run-end encoded) child of 2^62 elements: 2 lists with symbolic offsets in 0..2^31-1 (32-bit) and 0..2^62 (64-bit), 2 list views with symbolic offsets and sizes in 0..2^31-1 and 0..2^61, fixed-size lists of 2^60 and 2^61+3 elements; any element of any list")
{
    constexpr uint64_t I31 = (uint64_t(1) << 31) - 1;
    huge h;
    switch (sx::choose("layout", 0, 4))
    {
        case 0: huge_lists<sparrow::list_array, int32_t>(h, I31); break;
        case 1: huge_lists<sparrow::big_list_array, int64_t>(h, huge::SIZE); break;
        case 2: huge_views<sparrow::list_view_array, int32_t, uint32_t>(h, I31, I31); break;
        case 3: huge_views<sparrow::big_list_view_array, int64_t, uint64_t>(h, uint64_t(1) << 61, uint64_t(1) << 61); break;
        default:
        {
            constexpr uint64_t W[] = {uint64_t(1) << 60, (uint64_t(1) << 61) + 3};
            const uint64_t w = W[sx::choose("width", 0, 1)], n = huge::SIZE / w;
            const sparrow::fixed_sized_list_array a(w, h.make());
            SX_ASSERT(a.size() == n, "size");
            const sparrow::fixed_sized_list_array b(sparrow::arrow_proxy(sparrow::detail::array_access::get_arrow_proxy(a)));
            const size_t i = sx::choose("i", 0, n - 1);
            for (const auto* x : {&a, &b})
            {
                const list_value v = (*x)[i].get();
                SX_ASSERT(v.size() == w, "size of the list");
                const uint64_t j = sx::sym<uint64_t>("j");
                if (j < w) SX_ASSERT(h.is_at(v[j], i * w + j), "element of the list");
            }
        }
    }
    SX_REACH("huge");
}
SX_ENTRY(c10_offset, quick, "all five kinds of list arrays over structures of another producer with 0..2 elements at offset 1, 2 or 9 (children have offsets of their own), validity omitted, counted or with null count -1, symbolic buffers: elements and iteration of the array, its copy, the array assigned from it and the type-erased copy")
{
    foreign::at_offset({foreign::L_LIST, foreign::L_BIGLIST, foreign::L_LISTVIEW, foreign::L_BIGLISTVIEW, foreign::L_FIXED});
}
SX_ENTRY(c10_wide_offset, quick, "all five kinds of list arrays over structures of another producer with 300 elements of chosen contents at offset 0, 1 or 257: elements, iteration, copy, a slice")
{
    foreign::wide({foreign::L_LIST, foreign::L_BIGLIST, foreign::L_LISTVIEW, foreign::L_BIGLISTVIEW, foreign::L_FIXED});
}
SX_ENTRY(c10_wide, quick, "all five kinds of list arrays of 257 and 300 elements of chosen contents (a byte of some of them symbolic), few or most of them null: elements, iteration, structures, of the array, its copy and after a move")
{
    zoo::owned_wide({zoo::L_LIST, zoo::L_BIGLIST, zoo::L_LISTVIEW, zoo::L_BIGLISTVIEW, zoo::L_FIXED});
}
