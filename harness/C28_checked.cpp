// C28: checked access returns the element inside and throws std::out_of_range outside, for every index.
#include "sx.hpp"
#include "zoo.hpp"
#include "sparrow/record_batch.hpp"

using namespace zoo;
using binary_array = sparrow::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, std::int32_t>;

// 0: returned, 1: std::out_of_range, 2: another exception
template <class F>
static int outcome(F&& f)
{
    try { f(); return 0; }
    catch (const std::out_of_range&) { return 1; }
    catch (...) { return 2; }
}
// a.at(i) against want(i), for an arbitrary i
template <class A, class W>
static void check_at(const A& a, size_t n, W&& want)
{
    const size_t i = sx::sym<uint64_t>("i");
    if (i < n)
    {
        const size_t k = __sx_concretize(i);
        SX_ASSERT(want(a.at(i), k), "at(i) is element i");
    }
    else
    {
        SX_ASSERT(outcome([&] { (void) a.at(i); }) == 1, "at outside throws std::out_of_range");
    }
    SX_ASSERT(a.size() == n, "size unchanged");
    for (size_t k = 0; k < n; ++k) SX_ASSERT(want(a.at(k), k), "elements unchanged");
}
template <class A, class R>
static void check_against(const A& a, const R& ref, size_t n)
{
    check_at(a, n, [&](const auto& e, size_t k) { return deep(elem_t(e), elem_t(ref[k])); });
}

SX_ENTRY(c28_array, quick, "type-erased arrays of all 16 layouts of 0..2 elements, every index of 64 bits")
{
    const layout l = choose_layout();
    const size_t n = sx::choose("n", 0, SX_BOUND(2, 4));
    const array a = make(l, n);
    check_against(a, a, n);
}
SX_ENTRY(c28_array_slice, quick, "slices of type-erased arrays of all 16 layouts: elements outside the slice but inside the array are outside; every index of 64 bits")
{
    const layout l = choose_layout();
    const array a = make(l, 3);
    const size_t b = sx::choose("b", 0, 3), e = sx::choose("e", b, 3);
    const array s = a.slice(b, e);
    check_at(s, e - b, [&](const auto& x, size_t k) { return deep(x, a[b + k]); });
}
SX_ENTRY(c28_default, quick, "a default-constructed array: every index throws")
{
    const array a;
    const size_t i = sx::sym<uint64_t>("i");
    SX_ASSERT(outcome([&] { (void) a.at(i); }) == 1, "every index of an empty array");
}
SX_ENTRY(c28_typed, quick, "typed arrays of the layouts that offer at(), of 0..2 elements, every index of 64 bits")
{
    const layout l = choose_layout();
    const size_t n = sx::choose("n", 0, SX_BOUND(2, 4));
    bool offered = false;
    with(l, n,
         [&](auto&& t)
         {
             using T = std::remove_cvref_t<decltype(t)>;
             if constexpr (requires(const T& c) { c.at(size_t(0)); })
             {
                 offered = true;
                 check_against(std::as_const(t), std::as_const(t), n);
             }
         });
    SX_ASSERT(offered | (l == L_SPARSE) | (l == L_DENSE) | (l == L_DICT) | (l == L_RUN) | (l == L_NULL), "offers at()");
}
SX_ENTRY(c28_strings_and_views, quick, "string, binary and view arrays of 0..2 elements, every index of 64 bits")
{
    const size_t n = sx::choose("n", 0, SX_BOUND(2, 4));
    SM<> m;
    fill_str_pattern(m, n, 3);
    auto want = [&](const auto& r, size_t k) { return (r.has_value() == m.v[k].has) & eq(r.get(), m.v[k].x); };
    switch (sx::choose("type", 0, 3))
    {
        case 0: { sparrow::string_array a(str_values<std::string>(m), bitmap(m)); check_at(std::as_const(a), n, want); break; }
        case 1: { binary_array a(str_values<std::vector<std::byte>>(m), bitmap(m)); check_at(std::as_const(a), n, want); break; }
        case 2: { sparrow::string_view_array a(str_values<std::string>(m), bitmap(m)); check_at(std::as_const(a), n, want); break; }
        default: { sparrow::binary_view_array a(str_values<std::vector<std::byte>>(m), bitmap(m)); check_at(std::as_const(a), n, want); break; }
    }
}
SX_ENTRY(c28_edited, quick, "arrays after an edit that changes their size: at() follows the new size; every index of 64 bits")
{
    M<int32_t> m;
    fill(m, 3);
    sparrow::primitive_array<int32_t> a(values(m), bitmap(m));
    switch (sx::choose("edit", 0, 3))
    {
        case 0: a.pop_back(); --m.n; break;
        case 1: { const opt<int32_t> x{sx::sym<int32_t>("y"), true}; a.push_back(sparrow::make_nullable<int32_t>(int32_t(x.x))); m.push(x); break; }
        case 2: a.resize(1, sparrow::make_nullable<int32_t>(0)); m.n = 1; break;
        default: a.erase(a.cbegin(), a.cend()); m.n = 0;
    }
    check_at(std::as_const(a), m.n, [&](const auto& r, size_t k) { return (r.has_value() == m.v[k].has) & (r.get() == m.v[k].x); });
}

template <class B>
static void check_bitset(B& b, const model::seq<bool, 80>& m)
{
    const size_t i = sx::sym<uint64_t>("i");
    const B& c = b;
    if (i < m.n)
    {
        const size_t k = __sx_concretize(i);
        SX_ASSERT(bool(c.at(i)) == m.v[k], "const at(i) is bit i");
        SX_ASSERT(bool(b.at(i)) == m.v[k], "at(i) is bit i");
    }
    else
    {
        SX_ASSERT(outcome([&] { (void) c.at(i); }) == 1, "const at outside throws std::out_of_range");
        SX_ASSERT(outcome([&] { (void) b.at(i); }) == 1, "at outside throws std::out_of_range");
    }
    SX_ASSERT(b.size() == m.n, "size unchanged");
    bool same = true;
    for (size_t k = 0; k < m.n; ++k) same &= c.test(k) == m.v[k];
    SX_ASSERT(same, "bits unchanged");
}
SX_ENTRY(c28_bitset, quick, "owning bitsets and views of 0..11 bits (0..19 thorough) with or without a buffer, every index of 64 bits; writing through at()")
{
    const size_t n = sx::choose("n", 0, SX_BOUND(11, 19));
    model::seq<bool, 80> m;
    for (size_t i = 0; i < n; ++i) m.push(sx::flag("bit"));
    sparrow::dynamic_bitset<uint8_t> b(n, false);
    for (size_t i = 0; i < n; ++i) b.set(i, m.v[i]);
    if (sx::choose("view", 0, 1))
    {
        sparrow::dynamic_bitset_view<uint8_t> v(b.data(), n);
        check_bitset(v, m);
    }
    else check_bitset(b, m);
    if (n)
    {
        const size_t k = sx::choose("k", 0, n - 1);
        const bool x = sx::flag("x");
        b.at(k) = x;
        m.v[k] = x;
        size_t nulls = 0;
        bool same = true;
        for (size_t j = 0; j < n; ++j) { same &= b.test(j) == m.v[j]; nulls += m.v[j] ? 0 : 1; }
        SX_ASSERT(same & (b.null_count() == nulls), "writing through at()");
    }
}
SX_ENTRY(c28_bitset_null, quick, "bitset views without a buffer (all valid) of 0..9 bits, every index of 64 bits")
{
    const size_t n = sx::choose("n", 0, 9);
    model::seq<bool, 80> m;
    for (size_t i = 0; i < n; ++i) m.push(true);
    const sparrow::dynamic_bitset_view<const uint8_t> v(nullptr, n);
    const size_t i = sx::sym<uint64_t>("i");
    if (i < n) SX_ASSERT(bool(v.at(i)), "bits of a bitset without a buffer are set");
    else SX_ASSERT(outcome([&] { (void) v.at(i); }) == 1, "at outside throws std::out_of_range");
}
SX_ENTRY(c28_record_batch, quick, "record batches of 0..3 columns with names of 0..2 characters: columns by every name of 0..2 characters")
{
    const size_t n = sx::choose("n", 0, 3);
    std::vector<std::string> names = {"a", "", "bc"};
    names.resize(n);
    std::vector<array> cols;
    for (size_t i = 0; i < n; ++i) cols.push_back(values_of(i == 1 ? STR : I32, 2));
    const std::vector<array> copy(cols);
    const sparrow::record_batch rb(names, std::move(cols));
    const size_t len = sx::choose("len", 0, 2);
    std::string name(len, ' ');
    for (size_t i = 0; i < len; ++i) name[i] = static_cast<char>(sx::sym<uint8_t>("c"));
    size_t at = n;
    for (size_t i = 0; i < n; ++i)
        if (names[i] == name) at = i;
    SX_ASSERT(rb.contains_column(name) == (at < n), "contains_column");
    if (at < n)
    {
        const array& c = rb.get_column(name);
        SX_ASSERT(&c == &rb.get_column(at), "the column of that name");
        for (size_t k = 0; k < 2; ++k) SX_ASSERT(deep(c[k], copy[at][k]), "its elements");
    }
    else
    {
        SX_ASSERT(outcome([&] { (void) rb.get_column(name); }) == 1, "an unknown name throws std::out_of_range");
    }
    SX_ASSERT(rb.nb_columns() == n && rb.nb_rows() == (n ? 2 : 0), "unchanged");
}
SX_ENTRY(c28_nullable, quick, "value() of every nullable of int32, present or absent, const and not, lvalue and rvalue")
{
    const bool h = sx::flag("has");
    const int32_t x = sx::sym<int32_t>("x");
    sparrow::nullable<int32_t> v{int32_t{x}, bool{h}};
    const auto& c = v;
    auto kind = [](auto&& f) { try { f(); return 0; } catch (const sparrow::bad_nullable_access&) { return 1; } catch (...) { return 2; } };
    int32_t got = 0;
    SX_ASSERT(kind([&] { got = c.value(); }) == (h ? 0 : 1), "const value()");
    SX_ASSERT(!h || got == x, "const value()");
    SX_ASSERT(kind([&] { v.value() = 7; }) == (h ? 0 : 1), "value()");
    SX_ASSERT(v.get() == (h ? 7 : x) && v.has_value() == h, "nothing is written when absent");
    SX_ASSERT(kind([&] { (void) std::move(v).value(); }) == (h ? 0 : 1), "rvalue value()");
    SX_ASSERT(kind([&] { (void) std::move(c).value(); }) == (h ? 0 : 1), "const rvalue value()");
}
