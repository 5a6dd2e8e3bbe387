// C06: mutating a primitive array is mutating the sequence of nullable values it shows.
#include "arr.hpp"

constexpr size_t N = SX_BOUND(9, 17);
constexpr size_t K = SX_BOUND(3, 4);
using namespace arr;

// One arbitrary mutation of the array and of the model; false when the exported null count is not refreshed by it
// (assignment through a reference: known finding c06_null_count_elem).
static bool no_bitmap = false;      // the array has no validity buffer
template <class T, class P>
static bool edit(P& a, M<T>& m)
{
    using V = sparrow::nullable<T>;
    size_t n = m.n;
    opt<T> x{sx::sym<T>("v"), sx::flag("vh")};
    V nx(x.x, x.has);
    size_t op = sx::choose("op", 0, 11);
    switch (op)
    {
        case 0: a.push_back(nx); m.push(x); break;
        case 1: sx::assume(n > 0); a.pop_back(); m.n--; SX_REACH("pop_back"); break;
        case 2:
        {
            size_t p = sx::choose("pos", 0, n);
            auto it = a.insert(a.cbegin() + static_cast<std::ptrdiff_t>(p), nx);
            m.insert(p, x);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert returns the position");
            SX_REACH("insert");
            break;
        }
        case 3:
        {
            size_t p = sx::choose("pos", 0, n), c = sx::choose("count", 0, K);
            auto it = a.insert(a.cbegin() + static_cast<std::ptrdiff_t>(p), nx, c);
            m.insert(p, x, c);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert count returns the position");
            break;
        }
        case 4:
        {
            size_t p = sx::choose("pos", 0, n), c = sx::choose("count", 0, K);
            std::vector<V> src;
            opt<T> ms[K + 1];
            for (size_t i = 0; i < c; ++i)
            {
                ms[i] = {sx::sym<T>("s"), sx::flag("sh")};
                src.push_back(V(ms[i].x, ms[i].has));
            }
            auto it = sx::choose("range", 0, 1) ? a.insert(a.cbegin() + static_cast<std::ptrdiff_t>(p), src)
                                                : a.insert(a.cbegin() + static_cast<std::ptrdiff_t>(p), src.begin(), src.end());
            m.insert_range(p, ms, c);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert range returns the position");
            SX_REACH("insert range");
            break;
        }
        case 5:
        {
            size_t p = sx::choose("pos", 0, n);
            opt<T> y{sx::sym<T>("w"), sx::flag("wh")};
            auto it = a.insert(a.cbegin() + static_cast<std::ptrdiff_t>(p), {nx, V(y.x, y.has)});
            opt<T> src[2] = {x, y};
            m.insert_range(p, src, 2);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert list returns the position");
            break;
        }
        case 6:
        {
            sx::assume(n > 0);
            size_t p = sx::choose("pos", 0, n - 1);
            auto it = a.erase(a.cbegin() + static_cast<std::ptrdiff_t>(p));
            m.erase(p, p + 1);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "erase returns the position");
            SX_REACH("erase");
            break;
        }
        case 7:
        {
            size_t f = sx::choose("first", 0, n), l = sx::choose("last", f, n);
            auto it = a.erase(a.cbegin() + static_cast<std::ptrdiff_t>(f), a.cbegin() + static_cast<std::ptrdiff_t>(l));
            m.erase(f, l);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(f), "erase range returns the position");
            SX_REACH("erase range");
            break;
        }
        case 8: { size_t k = sx::choose("k", 0, n + K); a.resize(k, nx); m.resize(k, x); SX_REACH("resize"); break; }
        case 9:
        {
            sx::assume(n > 0);
            if (no_bitmap) sx::assume(x.has);     // known finding c06_omitted_null
            size_t i = sx::choose("i", 0, n - 1);
            a[i] = nx;
            m.v[i] = x;
            SX_REACH("assign element");
            break;
        }
        case 10:
        {
            sx::assume(n > 0 && !no_bitmap);
            size_t i = sx::choose("i", 0, n - 1);
            a[i] = sparrow::nullval;
            m.v[i].has = false;
            m.v[i].x = a[i].get();     // the value of a null element is unspecified
            break;
        }
        case 11:
        {
            sx::assume(n > 0);
            if (no_bitmap) sx::assume(x.has);
            size_t i = sx::choose("i", 0, n - 1);
            auto it = a.begin() + static_cast<std::ptrdiff_t>(i);
            *it = nx;
            m.v[i] = x;
            break;
        }
    }
    return op < 9;
}

template <class T>
static sparrow::primitive_array<T> make(size_t n, M<T>& m)
{
    fill(m, n);
    std::vector<T> v = values(m);
    return sparrow::primitive_array<T>(v, bitmap(m));
}

template <class T>
static void one(size_t max)
{
    size_t n = sx::choose("n", 0, max);
    M<T> m;
    auto a = make<T>(n, m);
    bool counted = edit<T>(a, m);
    check<T>(a, m, counted);
}

SX_ENTRY(c06_edit_i32, quick, "int32, n in 0..N, one arbitrary mutation with symbolic values and validity; content, iteration, bitmap()") { one<int32_t>(N); }
SX_ENTRY(c06_edit_u8, quick, "uint8, n in 0..4, one arbitrary mutation") { one<uint8_t>(4); }
SX_ENTRY(c06_edit_f64, quick, "double (all bit patterns), n in 0..4, one arbitrary mutation") { one<double>(4); }
SX_ENTRY(c06_edit_i64, thorough, "int64, n in 0..N, one arbitrary mutation") { one<int64_t>(N); }
SX_ENTRY(c06_two, quick, "int16, n in {0..2, 7, 8} (thorough also 3, 15, 16), two arbitrary mutations in a row")
{
    static const size_t sizes[] = {0, 1, 2, 7, 8, 3, 15, 16};
    size_t n = sizes[sx::choose("size", 0, SX_BOUND(2, 7))];
    M<int16_t> m;
    auto a = make<int16_t>(n, m);
    bool first = edit<int16_t>(a, m);
    bool counted = edit<int16_t>(a, m) && first;
    check<int16_t>(a, m, counted);
}
SX_ENTRY(c06_null_count_elem, finding, "int32, n in 1..N: exported null_count after assigning to an element through operator[]")
{
    size_t n = sx::choose("n", 1, N);
    M<int32_t> m;
    auto a = make<int32_t>(n, m);
    size_t i = sx::choose("i", 0, n - 1);
    opt<int32_t> x{sx::sym<int32_t>("v"), sx::flag("vh")};
    a[i] = sparrow::nullable<int32_t>(x.x, x.has);
    m.v[i] = x;
    check<int32_t>(a, m, true);
}
SX_ENTRY(c06_slice, quick, "int32, owning slice [s, e) of an array of 0..3 or 9 (thorough 17) elements, every s and e, then one arbitrary mutation of the slice and one push_back; the parent is unchanged")
{
    size_t n = sx::choose("n", 0, 4);
    if (n == 4) n = N;
    size_t s = sx::choose("s", 0, n), e = sx::choose("e", s, n);
    M<int32_t> m;
    auto p = make<int32_t>(n, m);
    auto a = p.slice(s, e);
    M<int32_t> ms;
    for (size_t i = s; i < e; ++i) ms.push(m.v[i]);
    bool counted = edit<int32_t>(a, ms);
    check<int32_t>(a, ms, counted);
    check<int32_t>(p, m);
    // and goes on as an array
    if (n > 3) return;
    opt<int32_t> y{sx::sym<int32_t>("y"), sx::flag("yh")};
    a.push_back(sparrow::nullable<int32_t>(y.x, y.has));
    ms.push(y);
    check<int32_t>(a, ms, counted);
}
SX_ENTRY(c06_alias, quick, "int32, n in 1..N: inserting, pushing or resizing with a copy of an element of the same array; copying from a range of the same array's values")
{
    size_t n = sx::choose("n", 1, N), i = sx::choose("i", 0, n - 1), p = sx::choose("pos", 0, n);
    M<int32_t> m;
    auto a = make<int32_t>(n, m);
    opt<int32_t> x = m.v[i];
    switch (sx::choose("op", 0, 2))
    {
        case 0: a.push_back(sparrow::nullable<int32_t>(a[i].get(), a[i].has_value())); m.push(x); break;
        case 1: a.insert(a.cbegin() + static_cast<std::ptrdiff_t>(p), sparrow::nullable<int32_t>(a[i].get(), a[i].has_value()), 2); m.insert(p, x, 2); break;
        case 2: a.resize(n + 2, sparrow::nullable<int32_t>(a[i].get(), a[i].has_value())); m.resize(n + 2, x); break;
    }
    check<int32_t>(a, m, false);
}

SX_ENTRY(c06_long, quick, "33, 64, 65 or 300 elements of int32 or double, chosen validity: one mutation of every kind at either end, in the middle or next to element 64, with 1, 2, 40 or 260 elements, then a push_back")
{
    auto run = [&]<class T>(T)
    {
        using V = sparrow::nullable<T>;
        static const size_t sizes[] = {33, 64, 65, 300}, counts[] = {1, 2, 40, 260};
        const size_t n = sizes[sx::choose("size", 0, 3)];
        M<T, 600> m;
        for (size_t i = 0; i < n; ++i) m.push({static_cast<T>(i * 40503), i % 5 != 2 && i % 64 != 63});
        std::vector<T> v;
        for (size_t i = 0; i < n; ++i) v.push_back(m.v[i].x);
        sparrow::primitive_array<T> a(v, bitmap(m));
        opt<T> x{sx::sym<T>("v"), sx::choose("vh", 0, 1) != 0};
        V nx(x.x, x.has);
        const size_t p = model::spot("pos", n);
        const auto pos = static_cast<std::ptrdiff_t>(p);
        auto it = a.begin() + pos;
        bool counted = true;
        switch (sx::choose("op", 0, 8))
        {
            case 0: it = a.insert(a.cbegin() + pos, nx); m.insert(p, x); break;
            case 1: { const size_t c = counts[sx::choose("c", 0, 3)]; it = a.insert(a.cbegin() + pos, nx, c); m.insert(p, x, c); break; }
            case 2:
            {
                const size_t c = counts[sx::choose("c", 0, 3)];
                std::vector<V> s;
                opt<T> ms[260];
                for (size_t i = 0; i < c; ++i) { ms[i] = {i % 5 ? static_cast<T>(i * 911) : x.x, i % 3 != 1}; s.push_back(V(ms[i].x, ms[i].has)); }
                it = a.insert(a.cbegin() + pos, s.begin(), s.end());
                m.insert_range(p, ms, c);
                break;
            }
            case 3: if (p < n) { it = a.erase(a.cbegin() + pos); m.erase(p, p + 1); } break;
            case 4: { const size_t l = sx::choose("last", 0, 1) ? n - (n - p) / 20 : p + (n - p) / 2; it = a.erase(a.cbegin() + pos, a.cbegin() + static_cast<std::ptrdiff_t>(l)); m.erase(p, l); break; }
            case 5: { const size_t c = counts[sx::choose("c", 0, 3)]; a.resize(n + c, nx); m.resize(n + c, x); it = a.begin() + pos; break; }
            case 6: a.resize(p, nx); m.resize(p, x); it = a.begin() + pos; break;
            case 7: if (p < n) { a[p] = nx; m.v[p] = x; counted = false; } break;
            default: { auto b = a.slice(p, n); a = std::move(b); M<T, 600> s; for (size_t i = p; i < n; ++i) s.push(m.v[i]); m = s; it = a.begin() + pos; }
        }
        SX_ASSERT(it - a.begin() == pos, "the position returned");
        check<T>(a, m, counted);
        a.push_back(nx);
        m.push(x);
        check<T>(a, m, counted);
        SX_REACH("long");
    };
    if (sx::choose("type", 0, 1)) run(int32_t());
    else run(double());
}

static sparrow::primitive_array<int32_t> omitted(size_t n, size_t off, M<int32_t>& m)
{
    std::vector<sparrow::buffer<uint8_t>> b(2);
    b[1] = sparrow::buffer<uint8_t>((n + off) * 4, uint8_t(0));
    for (size_t i = 0; i < n + off; ++i)
    {
        const int32_t x = sx::sym<int32_t>("x");
        b[1].data<int32_t>()[i] = x;
        if (i >= off) m.push({x, true});
    }
    ArrowArray arr = sparrow::make_arrow_array(static_cast<int64_t>(n), 0, static_cast<int64_t>(off), std::move(b), 0, nullptr, nullptr);
    ArrowSchema sch = sparrow::make_arrow_schema(std::string("i"), std::nullopt, std::nullopt, std::nullopt, 0, nullptr, nullptr);
    return sparrow::primitive_array<int32_t>(sparrow::arrow_proxy(std::move(arr), std::move(sch)));
}
SX_ENTRY(c06_omitted_null, finding, "int32, structures without validity buffer, 1 or 2 elements: making one null through a reference")
{
    M<int32_t> m;
    const size_t n = sx::choose("n", 1, 2);
    auto a = omitted(n, 0, m);
    const size_t i = sx::choose("i", 0, n - 1);
    a[i] = sparrow::nullval;
    m.v[i].has = false;
    check<int32_t>(a, m, false);
}

SX_ENTRY(c06_omitted, quick, "int32, structures without validity buffer (the format allows omitting it when there is no null), 0, 1, 8, 9 or 17 elements after an offset of 0, 1 or 9, or a copy of them: one arbitrary mutation, then a push_back")
{
    static const size_t sizes[] = {0, 1, 8, 9, 17}, offsets[] = {0, 1, 9};
    const size_t n = sizes[sx::choose("n", 0, 4)], off = offsets[sx::choose("off", 0, 2)];
    M<int32_t> m;
    auto source = omitted(n, off, m);
    no_bitmap = true;
    auto a = sx::choose("copy", 0, 1) ? sparrow::primitive_array<int32_t>(source) : std::move(source);
    check<int32_t>(a, m, true);
    const bool counted = edit<int32_t>(a, m);
    check<int32_t>(a, m, counted);
    a.push_back(sparrow::nullable<int32_t>(7, true));
    m.push({7, true});
    check<int32_t>(a, m, counted);
    SX_REACH("omitted");
}
