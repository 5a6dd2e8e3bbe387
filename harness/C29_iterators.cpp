// C29: iterators and ranges of every layout follow the laws of iterators and agree with operator[].
#include "sx.hpp"
#include <iterator>
#include <ranges>
#include "zoo.hpp"
#include "sparrow/record_batch.hpp"
#include "sparrow/utils/repeat_container.hpp"

using namespace zoo;

// n positions from first to last; is(x, k): x is element k
template <class It, class Is>
static void laws(It first, It last, size_t n, Is&& is)
{
    {
        It it = first;
        for (size_t k = 0; k < n; ++k)
        {
            SX_ASSERT(!(it == last) && it != last, "not at the end yet");
            SX_ASSERT(is(*it, k), "iteration");
            const It old = it++;
            SX_ASSERT(is(*old, k), "postfix increment returns the old position");
            SX_ASSERT(!(old == it), "positions differ");
        }
        SX_ASSERT(it == last && !(it != last), "at the end");
    }
    {
        // multipass: a copy is not moved by its original
        It it = first;
        const It copy = it;
        if (n)
        {
            ++it;
            SX_ASSERT(copy == first && is(*copy, 0), "copies are independent");
        }
    }
    if constexpr (std::is_base_of_v<std::bidirectional_iterator_tag, typename std::iterator_traits<It>::iterator_category> || requires(It i) { --i; })
    {
        It it = last;
        for (size_t k = n; k-- > 0;)
        {
            if (k % 2) { It r = --it; SX_ASSERT(is(*r, k), "prefix decrement"); }
            else
            {
                const It old = it--;
                SX_ASSERT(!(old == it), "postfix decrement returns the old position");
            }
            SX_ASSERT(is(*it, k), "reverse iteration");
        }
        SX_ASSERT(it == first, "back at the beginning");
    }
    if constexpr (requires(It i) { i += 1; i - i; i < i; })
    {
        const size_t i = sx::choose("i", 0, n), j = sx::choose("j", 0, n);
        using D = std::ptrdiff_t;
        const D d = static_cast<D>(j) - static_cast<D>(i);
        It a = first + static_cast<D>(i);
        const It b = first + static_cast<D>(j);
        SX_ASSERT(a - first == static_cast<D>(i) && last - a == static_cast<D>(n - i), "distances to the ends");
        SX_ASSERT(b - a == d && a - b == -d, "difference");
        SX_ASSERT((a == b) == (i == j) && (a != b) == (i != j), "equality");
        SX_ASSERT((a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j), "ordering");
        SX_ASSERT(a + d == b && d + a == b && b - d == a, "arithmetic");
        if (j < n) { SX_ASSERT(is(a[d], j) && is(*(a + d), j), "subscript"); }
        if (i < n) { SX_ASSERT(is(*a, i), "dereference"); }
        It c = a;
        c += d;
        SX_ASSERT(c == b, "operator+=");
        c -= d;
        SX_ASSERT(c == a, "operator-=");
    }
}
template <class A, class Is>
static void reversed(const A& a, size_t n, Is&& is)
{
    if constexpr (requires { a.rbegin(); a.crbegin(); })
    {
        size_t k = n;
        for (auto it = a.rbegin(); it != a.rend(); ++it) { SX_ASSERT(k > 0 && is(*it, k - 1), "reverse iterator"); --k; }
        SX_ASSERT(k == 0, "reverse iteration visits all");
        k = n;
        for (auto it = a.crbegin(); it != a.crend(); ++it) { SX_ASSERT(k > 0 && is(*it, k - 1), "const reverse iterator"); --k; }
        SX_ASSERT(k == 0, "const reverse iteration visits all");
    }
}
// x, a reference of a non-const array, shows the element y of the const array
template <class X, class Y>
static bool same_ref(const X& x, const Y& y)
{
    if constexpr (std::is_constructible_v<elem_t, X>) return deep(elem_t(x), elem_t(y));
    else
    {
        const bool h = x.has_value() == y.has_value();
        using V = std::remove_cvref_t<decltype(y.get())>;
        if constexpr (std::is_same_v<V, std::string_view>)
        {
            if (x.get().size() != y.get().size()) return false;
            bool ok = h;
            for (size_t j = 0; j < y.get().size(); ++j) ok &= *(x.get().begin() + static_cast<std::ptrdiff_t>(j)) == y.get()[j];
            return ok;
        }
        else return h & same<V>(y.get(), V(x.get()));
    }
}
// every range of t, whose elements are want(k)
template <class T, class W>
static void ranges(T& t, size_t n, W&& at)
{
    auto want = [&](size_t k) { return elem_t(at(k)); };
    const T& c = t;
    auto is = [&](const auto& x, size_t k) { return deep(elem_t(x), want(k)); };
    const size_t which = sx::choose("range", 0, 4);
    switch (which)
    {
        case 0: laws(c.begin(), c.end(), n, is); break;
        case 1: laws(c.cbegin(), c.cend(), n, is); reversed(c, n, is); break;
        case 2:
            // through the non-const array; references of mutable arrays are compared by content
            laws(t.begin(), t.end(), n, [&](const auto& x, size_t k) { return same_ref(x, at(k)); });
            break;
        case 3:
            if constexpr (requires { c.bitmap(); })
            {
                auto r = c.bitmap();
                laws(r.begin(), r.end(), n, [&](const auto& x, size_t k) -> bool { if constexpr (std::is_same_v<T, sparrow::null_array>) return !bool(x); else return bool(x) == want(k).has_value(); });
            }
            break;
        default:
            if constexpr (requires { c.values(); c.bitmap(); } && !std::is_same_v<T, sparrow::null_array>)
            {
                auto v = c.values();
                using V = std::remove_cvref_t<decltype(*v.begin())>;
                laws(v.begin(), v.end(), n, [&](const auto& x, size_t k) { return deep_value<V>(V(x), V(c[k].get())); });
                // zip of the two ranges gives the same nullables
                auto b = c.bitmap();
                auto bi = b.begin();
                size_t k = 0;
                for (auto vi = v.begin(); vi != v.end(); ++vi, ++bi, ++k)
                {
                    const sparrow::nullable<V> z{V(*vi), bool(*bi)};
                    const auto& e = c[k];
                    SX_ASSERT((z.has_value() == e.has_value()) & deep_value<V>(z.get(), V(e.get())), "zip of values() and bitmap()");
                }
                SX_ASSERT(bi == b.end(), "bitmap() and values() have the same length");
            }
    }
    SX_ASSERT(c.size() == n, "size");
}

SX_ENTRY(c29_layouts, quick, "all 16 layouts of 0..3 elements (0..4 thorough), every value and validity: begin/cbegin/mutable begin/reverse/bitmap()/values(); every pair of positions")
{
    const layout l = choose_layout();
    const size_t n = sx::choose("n", 0, SX_BOUND(3, 4));
    with(l, n, [&](auto&& t) { ranges(t, n, [&](size_t k) { return std::as_const(t)[k]; }); });
}
SX_ENTRY(c29_slices, quick, "slices [b, e) of arrays of all 16 layouts of 4 elements: the same ranges against the elements of the whole array")
{
    const layout l = choose_layout();
    with(l, 4,
         [&](auto&& t)
         {
             using T = std::remove_cvref_t<decltype(t)>;
             const size_t b = sx::choose("b", 1, 2), e = sx::choose("e", b, 4);
             sparrow::arrow_proxy p = proxy(std::as_const(t)).slice(b, e);
             T s(std::move(p));
             ranges(s, e - b, [&](size_t k) { return std::as_const(t)[b + k]; });
         });
}
SX_ENTRY(c29_views, quick, "string, binary and view arrays and their slices, 0..3 elements: begin, values() and bitmap()")
{
    using binary_array = sparrow::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, std::int32_t>;
    const size_t n = sx::choose("n", 0, 3);
    SM<> m;
    fill_str_pattern(m, n, 3);
    auto all = [&](auto&& a)
    {
        const auto& c = a;
        auto is = [&](const auto& x, size_t k) { return (x.has_value() == m.v[k].has) & eq(x.get(), m.v[k].x); };
        switch (sx::choose("range", 0, 3))
        {
            case 0: laws(c.cbegin(), c.cend(), n, is); reversed(c, n, is); break;
            case 1: laws(a.begin(), a.end(), n, is); break;
            case 2: { auto v = c.values(); laws(v.begin(), v.end(), n, [&](const auto& x, size_t k) { return eq(x, m.v[k].x); }); break; }
            default: { auto b = c.bitmap(); laws(b.begin(), b.end(), n, [&](const auto& x, size_t k) { return bool(x) == m.v[k].has; }); }
        }
    };
    switch (sx::choose("type", 0, 3))
    {
        case 0: all(sparrow::string_array(str_values<std::string>(m), bitmap(m))); break;
        case 1: all(binary_array(str_values<std::vector<std::byte>>(m), bitmap(m))); break;
        case 2: all(sparrow::string_view_array(str_values<std::string>(m), bitmap(m))); break;
        default: all(sparrow::binary_view_array(str_values<std::vector<std::byte>>(m), bitmap(m)));
    }
}
SX_ENTRY(c29_bool, quick, "boolean arrays of 0..3 elements and their slices: iterators over packed or unpacked values")
{
    M<bool> m;
    const size_t n = sx::choose("n", 0, 3);
    fill(m, n);
    sparrow::primitive_array<bool> a(values(m), bitmap(m));
    const auto& c = a;
    auto is = [&](const auto& x, size_t k) { return (x.has_value() == m.v[k].has) & (bool(x.get()) == m.v[k].x); };
    switch (sx::choose("range", 0, 2))
    {
        case 0: laws(c.cbegin(), c.cend(), n, is); reversed(c, n, is); break;
        case 1: laws(a.begin(), a.end(), n, is); break;
        default: { auto b = c.bitmap(); laws(b.begin(), b.end(), n, [&](const auto& x, size_t k) { return bool(x) == m.v[k].has; }); }
    }
}
SX_ENTRY(c29_write, quick, "writing through iterators (*it, it[k], reverse of iteration) writes that element and no other; primitive arrays of 3 elements, whole or sliced")
{
    M<int32_t> m;
    fill(m, 3);
    sparrow::primitive_array<int32_t> a(values(m), bitmap(m));
    const size_t k = sx::choose("k", 0, 2);
    const int32_t x = sx::sym<int32_t>("x");
    const bool h = sx::flag("has");
    const std::ptrdiff_t d = static_cast<std::ptrdiff_t>(k);
    const sparrow::nullable<int32_t> v{int32_t{x}, bool{h}};
    switch (sx::choose("how", 0, 3))
    {
        case 0: *(a.begin() + d) = v; break;
        case 1: a.begin()[d] = v; break;
        case 2: { auto it = a.end(); for (size_t i = 3; i > k; --i) --it; *it = v; break; }
        default: { size_t i = 0; for (auto&& r : a) { if (i == k) r = v; ++i; } }
    }
    m.v[k] = {x, h};
    arr::check(a, m, false);
}
SX_ENTRY(c29_repeat, quick, "repeat_view of 0..4 elements (the validity of arrays made without one): laws and values")
{
    const size_t n = sx::choose("n", 0, 4);
    const int32_t x = sx::sym<int32_t>("x");
    const sparrow::repeat_view<int32_t> v(x, n);
    SX_ASSERT(v.size() == n, "size");
    laws(v.begin(), v.end(), n, [&](const auto& y, size_t) { return y == x; });
    laws(v.cbegin(), v.cend(), n, [&](const auto& y, size_t) { return y == x; });
    const sparrow::repeat_view<int32_t> w(v);
    laws(w.begin(), w.end(), n, [&](const auto& y, size_t) { return y == x; });
}
SX_ENTRY(c29_pointer, quick, "pointer_iterator over 0..4 elements: laws, operator->, writing")
{
    struct cell { int32_t v; bool operator==(const cell&) const = default; };
    cell cells[4];
    for (auto& c : cells) c.v = sx::sym<int32_t>("x");
    const size_t n = sx::choose("n", 0, 4);
    auto is = [&](const cell& y, size_t k) { return y.v == cells[k].v; };
    laws(sparrow::pointer_iterator<cell*>(cells), sparrow::pointer_iterator<cell*>(cells + n), n, is);
    laws(sparrow::pointer_iterator<const cell*>(cells), sparrow::pointer_iterator<const cell*>(cells + n), n, is);
    auto it = sparrow::make_pointer_iterator(cells);
    for (size_t k = 0; k < n; ++k, ++it) SX_ASSERT(&*it == cells + k && it->v == cells[k].v && it.base() == cells + k, "the elements themselves");
    SX_ASSERT(sparrow::next(sparrow::make_pointer_iterator(cells), n) == it, "next");
}
SX_ENTRY(c29_record_batch, quick, "names() and columns() of record batches of 0..3 columns")
{
    const size_t n = sx::choose("n", 0, 3);
    std::vector<std::string> names = {"a", "b", "c"};
    names.resize(n);
    std::vector<array> cols;
    for (size_t i = 0; i < n; ++i) cols.push_back(values_of(i == 1 ? STR : I32, 2));
    const sparrow::record_batch rb(names, std::move(cols));
    auto r = rb.names();
    auto c = rb.columns();
    laws(r.begin(), r.end(), n, [&](const auto& x, size_t k) { return x == names[k]; });
    laws(c.begin(), c.end(), n, [&](const auto& x, size_t k) { return &x == &rb.get_column(k); });
}
// the order of positions far apart
template <class It>
static void order(It first, size_t n)
{
    if constexpr (requires(It i) { i += 1; i - i; i < i; })
    {
        using D = std::ptrdiff_t;
        for (size_t p : {size_t(0), size_t(1), size_t(44), size_t(255), size_t(256), size_t(257), n})
            for (size_t k = 0; p <= n && k <= n; k += k % 256 < 2 ? 1 : 6)
            {
                const It a = first + static_cast<D>(k), b = first + static_cast<D>(p);
                SX_ASSERT((a < b) == (k < p) && (a <= b) == (k <= p) && (a > b) == (k > p) && (a >= b) == (k >= p), "ordering of positions far apart");
                SX_ASSERT((a == b) == (k == p) && (a != b) == (k != p) && a - b == static_cast<D>(k) - static_cast<D>(p), "distance of positions far apart");
            }
    }
}
// the elements [b, e) of an array
template <class T>
static void walk(const T& o, size_t b, size_t e)
{
    const size_t n = e - b;
    const T s(proxy(o).slice(b, e));
    size_t k = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++k)
    {
        SX_ASSERT(k < n, "visits no more than the elements");
        SX_ASSERT(deep(elem_t(*it), elem_t(o[b + k])), "forwards");
    }
    SX_ASSERT(k == n, "visits all");
    if constexpr (requires(decltype(s.begin()) it) { --it; it[0]; })
    {
        for (auto it = s.end(); it != s.begin();) { --it; --k; SX_ASSERT(deep(elem_t(*it), elem_t(o[b + k])), "backwards"); }
        SX_ASSERT(k == 0, "backwards visits all");
        for (k = 0; k < n; k += 3) SX_ASSERT(deep(elem_t(s.begin()[static_cast<std::ptrdiff_t>(k)]), elem_t(o[b + k])), "subscript");
    }
    order(s.begin(), n);
    if constexpr (requires { s.values(); s.bitmap(); } && !std::is_same_v<T, sparrow::null_array>)
    {
        auto v = s.values();
        auto m = s.bitmap();
        order(v.begin(), n);
        order(m.begin(), n);
        using V = std::remove_cvref_t<decltype(*v.begin())>;
        k = 0;
        auto mi = m.begin();
        for (auto vi = v.begin(); vi != v.end(); ++vi, ++mi, ++k)
        {
            SX_ASSERT(k < n && mi != m.end(), "lengths of values() and bitmap()");
            const auto& x = o[b + k];
            SX_ASSERT((bool(*mi) == x.has_value()) & deep_value<V>(V(*vi), V(x.get())), "values() and bitmap()");
        }
        SX_ASSERT(k == n && mi == m.end(), "lengths of values() and bitmap()");
    }
}
SX_ENTRY(c29_long, quick, "all 16 layouts of 10 elements and their slices [1, 10) (validity bits of dictionaries and nested structs partly fixed): forwards, backwards, values() and bitmap() against operator[] of the array")
{
    const layout l = choose_layout();
    sparse_bits = l == L_DICT || l == L_DEEP;
    with(l, 10,
         [&](auto&& t)
         {
             const size_t b = sx::choose("b", 0, 1);
             walk(t, b, 10);
         });
    SX_REACH("long");
}
SX_ENTRY(c29_wide, quick, "the same for all 16 layouts of 300 elements of chosen contents and their slices [0, 300), [1, 299) and [257, 300)")
{
    static const size_t starts[] = {0, 1, 257}, ends[] = {300, 299, 300};
    const layout l = choose_layout();
    plain = true;
    const size_t k = sx::choose("slice", 0, 2);
    with(l, 300, [&](auto&& t) { walk(t, starts[k], ends[k]); });
    SX_REACH("wide");
}
