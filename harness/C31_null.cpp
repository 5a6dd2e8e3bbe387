// C31: null arrays of any size are that many nulls; slices, copies and their exported structure.
#include "sx.hpp"
#include "spec.hpp"

using namespace spec;
using sparrow::null_array;

static constexpr uint64_t MAX = uint64_t(1) << 62;
static uint64_t sym_size() { const uint64_t n = sx::sym<uint64_t>("n"); sx::assume(n <= MAX); return n; }

// t is a null array of n elements; sizes and positions stay symbolic
static void check_typed(null_array& t, uint64_t n)
{
    const null_array& c = t;
    SX_ASSERT(c.size() == n, "size");
    using D = std::ptrdiff_t;
    SX_ASSERT(c.end() - c.begin() == static_cast<D>(n) && c.cend() - c.cbegin() == static_cast<D>(n) && t.end() - t.begin() == static_cast<D>(n), "distance of the ends");
    SX_ASSERT((c.begin() == c.end()) == (n == 0) && (t.begin() == t.end()) == (n == 0), "empty exactly when of size 0");
    const auto v = c.values();
    const auto b = c.bitmap();
    SX_ASSERT(v.end() - v.begin() == static_cast<D>(n) && static_cast<uint64_t>(v.size()) == n, "size of values()");
    SX_ASSERT(b.end() - b.begin() == static_cast<D>(n) && static_cast<uint64_t>(b.size()) == n, "size of bitmap()");
    const uint64_t i = sx::sym<uint64_t>("i");
    if (i < n)
    {
        SX_ASSERT(!c[i].has_value() && !t[i].has_value(), "every element is null");
        SX_ASSERT(!(*(c.begin() + static_cast<D>(i))).has_value() && !c.begin()[static_cast<D>(i)].has_value(), "iteration gives nulls");
        SX_ASSERT(!bool(*(b.begin() + static_cast<D>(i))), "the bitmap is false");
        auto it = t.begin() + static_cast<D>(i);
        SX_ASSERT(it < t.end() && t.end() - it == static_cast<D>(n - i), "positions before the end");
        ++it;
        SX_ASSERT(it - t.begin() == static_cast<D>(i + 1) && (it == t.end()) == (i + 1 == n), "next position");
    }
}
static void check_array(const array& a, uint64_t n)
{
    SX_ASSERT(a.size() == n && a.empty() == (n == 0) && a.data_type() == sparrow::data_type::NA, "size and type");
    const uint64_t i = sx::sym<uint64_t>("i");
    if (i < n)
    {
        SX_ASSERT(!a[i].has_value() && !a.at(i).has_value() && !a.front().has_value() && !a.back().has_value(), "every element is null");
        const elem_t e = a[i];
        SX_ASSERT(std::holds_alternative<null_array::const_reference>(static_cast<const elem_t::base_type&>(e)), "of null type");
    }
    else
    {
        SX_THROWS(std::out_of_range, a.at(i), "at outside throws");
    }
    size_t calls = 0;
    a.visit([&](const auto& v) { calls += (std::is_same_v<std::remove_cvref_t<decltype(v)>, null_array>) && v.size() == n; });
    SX_ASSERT(calls == 1, "visit");
}
static void check_exported(const ArrowArray& x, const ArrowSchema& s, uint64_t n)
{
    SX_ASSERT(fmt(s, "n") && s.n_children == 0 && s.dictionary == nullptr, "format");
    SX_ASSERT(x.length == static_cast<int64_t>(n) && x.n_buffers == 0 && x.n_children == 0 && x.dictionary == nullptr && x.offset >= 0, "no buffers, no children");
    SX_ASSERT(x.null_count == static_cast<int64_t>(n) || x.null_count == -1, "null count");
}

SX_ENTRY(c31_typed, quick, "null arrays of every size up to 2^62, every position of 64 bits")
{
    const uint64_t n = sym_size();
    null_array t = make_null(n);
    check_typed(t, n);
    const auto& p = proxy(std::as_const(t));
    check_exported(p.array(), p.schema(), n);
}
SX_ENTRY(c31_array, quick, "type-erased null arrays of every size up to 2^62: access, copies, moves")
{
    const uint64_t n = sym_size();
    array a(make_null(n));
    switch (sx::choose("how", 0, 3))
    {
        case 0: check_array(a, n); break;
        case 1: { const array b(a); check_array(b, n); check_array(a, n); break; }
        case 2: { const array b(std::move(a)); check_array(b, n); break; }
        default: { array b(make_null(1)); b = a; check_array(b, n); const array c(a); SX_ASSERT(b == c, "copies are equal"); }
    }
}
SX_ENTRY(c31_copies, quick, "copies and assignments of typed null arrays of every two sizes; equality")
{
    const uint64_t n = sym_size(), m = sym_size();
    null_array a = make_null(n), b = make_null(m);
    SX_ASSERT((a == b) == (n == m) && (a == a), "equal exactly when of the same size");
    null_array c(a);
    check_typed(c, n);
    b = c;
    SX_ASSERT(b.size() == n && b == a, "copy assignment");
    null_array d(std::move(c));
    SX_ASSERT(d.size() == n && d == a, "move");
    b = make_null(m);
    SX_ASSERT(b.size() == m && a.size() == n, "move assignment");
}
SX_ENTRY(c31_slices, quick, "slices and slices of slices of null arrays of every size up to 2^62 at every start and end")
{
    const uint64_t n = sym_size();
    const uint64_t b = sx::sym<uint64_t>("b"), e = sx::sym<uint64_t>("e");
    sx::assume((b <= e) & (e <= n));
    array a(make_null(n));
    const bool view = sx::choose("view", 0, 1);
    array s = view ? a.slice_view(b, e) : a.slice(b, e);
    check_array(s, e - b);
    SX_ASSERT(a.size() == n, "the original is unchanged");
    const auto& p = proxy(std::as_const(s));
    check_exported(p.array(), p.schema(), e - b);
    const uint64_t c = sx::sym<uint64_t>("c"), d = sx::sym<uint64_t>("d");
    sx::assume((c <= d) & (d <= e - b));
    array u = view ? s.slice_view(c, d) : s.slice(c, d);
    SX_ASSERT(u.size() == d - c && u.data_type() == sparrow::data_type::NA, "a slice of a slice");
    const auto& q = proxy(std::as_const(u));
    check_exported(q.array(), q.schema(), d - c);
}
SX_ENTRY(c31_exported, quick, "structures extracted from null arrays of every size: content, releasing, importing again")
{
    const uint64_t n = sym_size();
    array a(make_null(n));
    auto [x, s] = sparrow::extract_arrow_structures(std::move(a));
    check_exported(x, s, n);
    SX_ASSERT(x.release != nullptr && s.release != nullptr, "release callbacks");
    if (sx::choose("import", 0, 1))
    {
        array b(std::move(x), std::move(s));
        check_array(b, n);
    }
    else
    {
        x.release(&x);
        s.release(&s);
        SX_ASSERT(x.release == nullptr && s.release == nullptr, "released");
    }
}
SX_ENTRY(c31_foreign, quick, "foreign null arrays at every offset and length, null count given or -1")
{
    const uint64_t n = sym_size(), o = sym_size();
    ArrowArray x = sparrow::make_arrow_array(static_cast<int64_t>(n), sx::choose("unknown", 0, 1) ? -1 : static_cast<int64_t>(n), static_cast<int64_t>(o), std::vector<sparrow::buffer<uint8_t>>{}, 0, nullptr, nullptr);
    ArrowSchema s = sparrow::make_arrow_schema(std::string("n"), std::string("z"), std::nullopt, std::nullopt, 0, nullptr, nullptr);
    if (sx::choose("by", 0, 1))
    {
        array a(&x, &s);
        check_array(a, n);
        null_array t{sparrow::arrow_proxy(&x, &s)};
        check_typed(t, n);
    }
    else
    {
        ArrowArray y = x;
        ArrowSchema z = s;
        x.release = nullptr;
        s.release = nullptr;
        array a(std::move(y), std::move(z));
        check_array(a, n);
    }
    if (x.release) { x.release(&x); s.release(&s); }
}
SX_ENTRY(c31_children, quick, "null arrays as fields of structs, elements of lists and values of dictionaries; 0..3 nulls")
{
    const size_t n = sx::choose("n", 0, 3);
    switch (sx::choose("parent", 0, 2))
    {
        case 0:
        {
            std::vector<array> v;
            v.push_back(array(make_null(n)));
            v.push_back(values_of(I32, n));
            const sparrow::struct_array t(std::move(v), sym_bits(n));
            SX_ASSERT(t.size() == n, "size");
            for (size_t i = 0; i < n; ++i) SX_ASSERT(!t[i].get()[0].has_value(), "null fields");
            break;
        }
        case 1:
        {
            const sparrow::list_array t(array(make_null(n)), sparrow::list_array::offset_from_sizes(std::vector<size_t>{n}));
            const auto e = t[0];
            SX_ASSERT(e.get().size() == n, "length");
            for (size_t i = 0; i < n; ++i) SX_ASSERT(!e.get()[i].has_value(), "null elements");
            break;
        }
        default:
        {
            sparrow::u8_buffer<int8_t> keys(2);
            keys[0] = 0; keys[1] = static_cast<int8_t>(n);
            const sparrow::dictionary_encoded_array<int8_t> t(std::move(keys), array(make_null(n + 1)), sym_bits(2));
            SX_ASSERT(t.size() == 2 && !t[0].has_value() && !t[1].has_value(), "null values");
        }
    }
}
SX_ENTRY(c31_iteration, quick, "iterating null arrays of 0..4 elements visits that many nulls")
{
    const size_t n = sx::choose("n", 0, 4);
    null_array t = make_null(n);
    size_t k = 0, j = 0, v = 0, b = 0;
    for (auto&& x : t) { SX_ASSERT(!x.has_value(), "null"); ++k; }
    for (auto&& x : std::as_const(t)) { SX_ASSERT(!x.has_value(), "null"); ++j; }
    for (auto&& x : t.values()) { (void) x; ++v; }
    for (auto&& x : t.bitmap()) { SX_ASSERT(!bool(x), "false"); ++b; }
    SX_ASSERT(k == n && j == n && v == n && b == n, "visits all");
}
