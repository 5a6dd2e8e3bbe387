// C14: a run-end encoded array decodes to the expanded sequence of its runs.
#include "elem.hpp"
#include "wide.hpp"

using namespace arr;
using sparrow::run_end_encoded_array;

struct runs
{
    size_t n = 0;        // decoded length
    size_t r = 0;        // runs
    size_t end[8];
    size_t of[24];       // run of each element
    child c;
};
static runs choose_runs(size_t maxr, size_t maxlen, size_t kinds, size_t minr = 1)
{
    runs m;
    m.r = sx::choose("runs", minr, maxr);
    for (size_t i = 0; i < m.r; ++i)
    {
        size_t l = sx::choose("len", 1, maxlen);
        for (size_t k = 0; k < l; ++k) m.of[m.n++] = i;
        m.end[i] = m.n;
    }
    m.c = choose_child(m.r, kinds);
    return m;
}
template <class T>
static array ends(const runs& m)
{
    std::vector<T> v;
    for (size_t i = 0; i < m.r; ++i) v.push_back(static_cast<T>(m.end[i]));
    return array(sparrow::primitive_array<T>(v));
}
template <class T>
static run_end_encoded_array make(const runs& m)
{
    return run_end_encoded_array(ends<T>(m), to_array(m.c));
}
template <class A>
static void check_runs(A& a, const runs& m)
{
    SX_ASSERT(a.size() == m.n, "size");
    for (size_t i = 0; i < m.n; ++i) SX_ASSERT(is(a[i], m.c, m.of[i]), "operator[]");
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i)
    {
        SX_ASSERT(i < m.n, "iteration length");
        SX_ASSERT(is(*it, m.c, m.of[i]), "iteration");
    }
    SX_ASSERT(i == m.n, "iteration visits all");
    i = 0;
    for (auto it = a.cbegin(); it != a.cend(); it++, ++i)
    {
        SX_ASSERT(i < m.n, "const iteration length");
        SX_ASSERT(is(*it, m.c, m.of[i]), "const iteration");
    }
    SX_ASSERT(i == m.n, "const iteration visits all");
}
template <class T>
static void entry(size_t maxr, size_t maxlen, size_t kinds)
{
    runs m = choose_runs(maxr, maxlen, kinds);
    run_end_encoded_array a = make<T>(m);
    check_runs(a, m);
    const run_end_encoded_array b(a);
    check_runs(b, m);
    run_end_encoded_array c(std::move(a));
    check_runs(c, m);
    runs m1;
    m1.r = m1.n = m1.end[0] = 1;
    m1.of[0] = 0;
    m1.c = make_child(U8, 1);
    run_end_encoded_array d = make<T>(m1);
    d = b;
    check_runs(d, m);
    check_runs(b, m);
    d = d;
    check_runs(d, m);
    d = make<T>(m1);
    check_runs(d, m1);
    d = std::move(c);
    check_runs(d, m);
}
SX_ENTRY(c14_uint32, quick, "uint32 run ends: every sequence of 1..3 runs of 1..3 elements over int32 or string values, symbolic values and validity; copied, moved, assigned")
{
    entry<uint32_t>(3, SX_BOUND(2, 3), 2);
    SX_REACH("uint32");
}
SX_ENTRY(c14_uint16, quick, "as c14_uint32 for uint16 run ends, 1..2 runs") { entry<uint16_t>(2, 2, 1); }
SX_ENTRY(c14_uint64, quick, "as c14_uint32 for uint64 run ends, 1..2 runs") { entry<uint64_t>(2, 2, 4); }
SX_ENTRY(c14_signed, quick, "as c14_uint32 for the signed run ends of the Arrow specification, int16, int32 and int64, 1..2 runs")
{
    switch (sx::choose("type", 0, 2))
    {
        case 0: entry<int16_t>(2, 2, 1); break;
        case 1: entry<int32_t>(2, 2, 1); break;
        default: entry<int64_t>(2, 2, 1);
    }
    SX_REACH("signed");
}
SX_ENTRY(c14_empty, quick, "no run at all: an array of length 0")
{
    runs m = choose_runs(0, 1, 1, 0);
    run_end_encoded_array a = make<uint32_t>(m);
    check_runs(a, m);
    run_end_encoded_array b(a);
    check_runs(b, m);
    SX_REACH("empty");
}
// symbolic run ends of the full width of the type, symbolic index
template <class T>
static void symbolic(size_t r, uint64_t top)
{
    runs m;
    m.r = r;
    m.c = make_child(I32, r);
    std::vector<T> v;
    uint64_t last = 0, e[8];
    for (size_t i = 0; i < r; ++i)
    {
        e[i] = sx::sym<T>("end");
        sx::assume(e[i] > last && e[i] <= top);
        last = e[i];
        v.push_back(static_cast<T>(e[i]));
    }
    const run_end_encoded_array a(array(sparrow::primitive_array<T>(v)), to_array(m.c));
    SX_ASSERT(a.size() == last, "the size is the last run end");
    uint64_t i = sx::sym<uint64_t>("i");
    sx::assume(i < last);
    elem_t x = a[i];
    for (size_t k = 0; k < r; ++k)
        if (i < e[k])
        {
            SX_ASSERT(is(x, m.c, k), "the value of the first run ending after i");
            break;
        }
    SX_REACH("symbolic run ends");
}
SX_ENTRY(c14_symbolic_ends, quick, "4 runs (thorough 7) with any strictly increasing uint16 run ends, any index") { symbolic<uint16_t>(SX_BOUND(4, 7), 0xFFFF); }
SX_ENTRY(c14_symbolic_ends32, quick, "4 runs (thorough 7) with any strictly increasing uint32 run ends, any index") { symbolic<uint32_t>(SX_BOUND(4, 7), 0xFFFFFFFF); }
SX_ENTRY(c14_symbolic_ends64, quick, "4 runs (thorough 7) with any strictly increasing uint64 run ends below 2^62, any index") { symbolic<uint64_t>(SX_BOUND(4, 7), 1ull << 62); }
SX_ENTRY(c14_symbolic_signed, quick, "4 runs with any strictly increasing positive int16 or int64 run ends, any index")
{
    if (sx::flag("16")) symbolic<int16_t>(4, 0x7FFF);
    else symbolic<int64_t>(4, 1ull << 62);
}
SX_ENTRY(c14_equal, quick, "== of two run end encoded arrays of int32 against equality of the decoded sequences, 1..2 runs of 1..2 elements each")
{
    runs m = choose_runs(2, 2, 1), o = choose_runs(2, 2, 1);
    run_end_encoded_array a = make<uint32_t>(m), b = make<uint16_t>(o);
    bool same = m.n == o.n;
    for (size_t i = 0; same && i < m.n; ++i)
    {
        const auto &x = m.c.i.v[m.of[i]], &y = o.c.i.v[o.of[i]];
        same = x.has == y.has && (!x.has || x.x == y.x);
    }
    SX_ASSERT((a == b) == same, "== is equality of the decoded sequences");
    SX_ASSERT((b == a) == same, "== is symmetric");
    SX_ASSERT(a == a, "== is reflexive");
    if (same) SX_REACH("equal arrays");
    else SX_REACH("different arrays");
}
SX_ENTRY(c14_erased, quick, "the same array behind sparrow::array")
{
    runs m = choose_runs(2, 2, 2);
    array a(make<uint32_t>(m));
    SX_ASSERT(a.data_type() == sparrow::data_type::RUN_ENCODED, "data type");
    SX_ASSERT(a.size() == m.n, "size");
    for (size_t i = 0; i < m.n; ++i) SX_ASSERT(is(a[i], m.c, m.of[i]), "operator[]");
    array b(a);
    a = to_array(make_child(U8, 1));
    SX_ASSERT(b.size() == m.n, "size of the copy");
    for (size_t i = 0; i < m.n; ++i) SX_ASSERT(is(b[i], m.c, m.of[i]), "operator[] of the copy");
    SX_REACH("type-erased");
}
SX_ENTRY(c14_offset, quick, "an array structure with an offset and a shorter length (as a slice of the C data interface has) over 1..3 runs of 1..2 elements")
{
    runs m = choose_runs(3, 2, 1);
    size_t off = sx::choose("offset", 0, m.n - 1), len = sx::choose("length", 0, m.n - off);
    run_end_encoded_array a = make<uint32_t>(m);
    sparrow::arrow_proxy p = sparrow::detail::array_access::get_arrow_proxy(a);
    p.set_length(len);
    p.set_offset(off);
    run_end_encoded_array b(std::move(p));
    SX_ASSERT(b.size() == len, "size");
    for (size_t i = 0; i < len; ++i) SX_ASSERT(is(b[i], m.c, m.of[off + i]), "operator[]");
    size_t i = 0;
    for (auto&& e : b)
    {
        SX_ASSERT(i < len, "iteration length");
        SX_ASSERT(is(e, m.c, m.of[off + i]), "iteration");
        ++i;
    }
    SX_ASSERT(i == len, "iteration visits all");
    SX_REACH("offset");
}
SX_ENTRY(c14_bad_type, quick, "run ends of a type that is not supported: an exception and nothing leaked")
{
    runs m = choose_runs(2, 1, 1);
    bool str = sx::flag("strings");
    SX_THROWS(std::invalid_argument, run_end_encoded_array(str ? array(sparrow::string_array(std::vector<std::string>(m.r, "a"))) : ends<double>(m), to_array(m.c)), "run ends must be integers");
}

SX_ENTRY(c14_long, quick, "17, 100 or 300 runs of 1..9 elements of int32 with any validity of the last value, run ends of 16, 32 and 64 bits: every index, iteration, copied, an offset into any quarter")
{
    static const size_t counts[] = {17, 100, 300};
    const size_t r = counts[sx::choose("runs", 0, 2)];
    std::vector<int32_t> v;
    std::vector<size_t> end;
    std::vector<bool> has;
    size_t n = 0;
    for (size_t i = 0; i < r; ++i)
    {
        n += 1 + i * 7 % 9;
        end.push_back(n);
        v.push_back(static_cast<int32_t>(i * 1000003));
        has.push_back(i + 1 == r ? sx::flag("has") : i % 6 != 4);
    }
    auto is_run = [&](const elem_t& e, size_t k)
    {
        const auto* x = get_alt<sparrow::nullable<const int32_t&>>(e);
        return x && x->has_value() == has[k] && x->get() == v[k];
    };
    auto run = [&]<class T>(T)
    {
        std::vector<T> e(end.begin(), end.end());
        run_end_encoded_array a(array(sparrow::primitive_array<T>(e)), array(sparrow::primitive_array<int32_t>(v, has)));
        auto all = [&](const run_end_encoded_array& b, size_t from)
        {
            SX_ASSERT(b.size() == n - from, "size");
            size_t i = from, k = 0;
            for (auto it = b.cbegin(); it != b.cend(); ++it, ++i)
            {
                SX_ASSERT(i < n, "iteration length");
                while (end[k] <= i) ++k;
                SX_ASSERT(is_run(*it, k), "iteration");
            }
            SX_ASSERT(i == n, "iteration visits all");
            for (i = n, k = r - 1; i-- > from;)
            {
                while (k > 0 && end[k - 1] > i) --k;
                SX_ASSERT(is_run(b[i - from], k), "operator[]");
            }
        };
        switch (sx::choose("how", 0, 2))
        {
            case 0: all(a, 0); break;
            case 1: { run_end_encoded_array b(a); all(b, 0); break; }
            default:
            {
                const size_t off = n / 4 * sx::choose("quarter", 1, 3);
                sparrow::arrow_proxy p = sparrow::detail::array_access::get_arrow_proxy(a);
                p.set_length(n - off);
                p.set_offset(off);
                all(run_end_encoded_array(std::move(p)), off);
            }
        }
    };
    switch (sx::choose("type", 0, 2))
    {
        case 0: run(uint16_t()); break;
        case 1: run(int32_t()); break;
        default: run(uint64_t());
    }
    SX_REACH("long");
}
SX_ENTRY(c14_wide, quick, "run-end encoded arrays of 257 and 300 elements of chosen contents (a byte of some of them symbolic), few or most of them null: elements, iteration, structures, of the array, its copy and after a move")
{
    zoo::owned_wide({zoo::L_RUN});
}
