// C08: mutating a string array is mutating the sequence of nullable strings it shows.
#include "strarr.hpp"

using namespace arr;
using string_array = sparrow::string_array;
constexpr size_t N = SX_BOUND(3, 4);
constexpr size_t L = 2;
using V = sparrow::nullable<std::string>;

static V val(const opt<S>& x) { return V(to_string(x.x), bool(x.has)); }

// One arbitrary mutation; false when the null count is not refreshed by it (known finding of C06).
static bool edit(string_array& a, SM<>& m)
{
    size_t n = m.n;
    opt<S> x{sym_bytes(sx::choose("vlen", 0, 3)), sx::flag("vh")};
    size_t op = sx::choose("op", 0, 12);
    auto at = [&](size_t p) { return a.cbegin() + static_cast<std::ptrdiff_t>(p); };
    switch (op)
    {
        case 0: a.push_back(val(x)); m.push(x); break;
        case 1: sx::assume(n > 0); a.pop_back(); m.n--; SX_REACH("pop_back"); break;
        case 2:
        {
            size_t p = sx::choose("pos", 0, n);
            auto it = a.insert(at(p), val(x));
            m.insert(p, x);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert returns the position");
            SX_REACH("insert");
            break;
        }
        case 3:
        {
            size_t p = sx::choose("pos", 0, n), c = sx::choose("count", 0, 3);
            auto it = a.insert(at(p), val(x), c);
            m.insert(p, x, c);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert count returns the position");
            break;
        }
        case 4:
        {
            size_t p = sx::choose("pos", 0, n), c = sx::choose("count", 0, 2);
            std::vector<V> src;
            opt<S> ms[3];
            for (size_t i = 0; i < c; ++i)
            {
                ms[i] = {sym_bytes(sx::choose("slen", 0, 2)), sx::flag("sh")};
                src.push_back(val(ms[i]));
            }
            auto it = a.insert(at(p), src);
            m.insert_range(p, ms, c);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert range returns the position");
            SX_REACH("insert range");
            break;
        }
        case 5:
        {
            size_t p = sx::choose("pos", 0, n);
            opt<S> y{sym_bytes(1), sx::flag("wh")};
            auto it = a.insert(at(p), {val(x), val(y)});
            opt<S> src[2] = {x, y};
            m.insert_range(p, src, 2);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert list returns the position");
            break;
        }
        case 6:
        {
            sx::assume(n > 0);
            size_t p = sx::choose("pos", 0, n - 1);
            auto it = a.erase(at(p));
            m.erase(p, p + 1);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "erase returns the position");
            SX_REACH("erase");
            break;
        }
        case 7:
        {
            size_t f = sx::choose("first", 0, n), l = sx::choose("last", f, n);
            auto it = a.erase(at(f), at(l));
            m.erase(f, l);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(f), "erase range returns the position");
            SX_REACH("erase range");
            break;
        }
        case 8: { size_t k = sx::choose("k", 0, n + 2); a.resize(k, val(x)); m.resize(k, x); SX_REACH("resize"); break; }
        case 9:
        {
            sx::assume(n > 0);
            size_t i = sx::choose("i", 0, n - 1);
            a[i] = val(x);
            m.v[i] = x;
            SX_REACH("assign element");
            break;
        }
        case 10:
        {
            sx::assume(n > 0);
            size_t i = sx::choose("i", 0, n - 1);
            auto it = a.begin() + static_cast<std::ptrdiff_t>(i);
            *it = val(x);
            m.v[i] = x;
            break;
        }
        case 11:
        {
            // only the value
            sx::assume(n > 0);
            size_t i = sx::choose("i", 0, n - 1);
            a[i].get() = to_string(x.x);
            m.v[i].x = x.x;
            break;
        }
        case 12:
        {
            sx::assume(n > 0);
            size_t i = sx::choose("i", 0, n - 1);
            a[i] = sparrow::nullval;
            m.v[i].has = false;
            auto r = a[i];
            m.v[i].x.n = r.get().size();     // the value of a null element is unspecified
            size_t k = 0;
            for (auto c : r.get()) m.v[i].x.c[k++] = static_cast<unsigned char>(c);
            break;
        }
    }
    return op < 9 || op == 11;
}
static void check_all(string_array& a, const SM<>& m, bool counted)
{
    check_str(a, m, counted);
    check_str_mutable(a, m);
}

SX_ENTRY(c08_edit, quick, "n in 0..N strings of every length 0..2, symbolic bytes and validity, one arbitrary mutation with values of length 0..3")
{
    SM<> m;
    fill_str(m, sx::choose("n", 0, N), L);
    string_array a(str_values<std::string>(m), bitmap(m));
    bool counted = edit(a, m);
    check_all(a, m, counted);
}
SX_ENTRY(c08_edit_long, quick, "7..9 strings of lengths 0..2 by a fixed pattern, symbolic bytes and validity, one arbitrary mutation")
{
    SM<> m;
    fill_str_pattern(m, sx::choose("n", 7, 9), 3);
    string_array a(str_values<std::string>(m), bitmap(m));
    bool counted = edit(a, m);
    check_all(a, m, counted);
}
SX_ENTRY(c08_two, quick, "n = 1 string of length 1 (thorough n in 0..2 of length 0..1), two arbitrary mutations in a row")
{
    SM<> m;
    size_t n = SX_BOUND(1, 0) ? 1 : sx::choose("n", 0, 2);
    if (SX_BOUND(1, 0)) fill_str_pattern(m, n, 2); else fill_str(m, n, 1);
    string_array a(str_values<std::string>(m), bitmap(m));
    bool first = edit(a, m);
    bool counted = edit(a, m) && first;
    check_all(a, m, counted);
}
SX_ENTRY(c08_slice, quick, "owning slice [s, e) of an array of 0..3 strings of lengths given by a pattern, then one arbitrary mutation of the slice and one push_back; the parent is unchanged")
{
    size_t n = sx::choose("n", 0, 3);
    size_t s = sx::choose("s", 0, n), e = sx::choose("e", s, n);
    SM<> m, ms;
    fill_str_pattern(m, n, 4);
    string_array p(str_values<std::string>(m), bitmap(m));
    string_array a = p.slice(s, e);
    for (size_t i = s; i < e; ++i) ms.push(m.v[i]);
    bool counted = edit(a, ms);
    check_all(a, ms, counted);
    check_all(p, m, true);
    // and goes on as an array
    opt<S> y;
    y.has = sx::flag("yh");
    y.x.n = 1;
    y.x.c[0] = sx::sym<uint8_t>("y");
    a.push_back(V(to_string(y.x), y.has));
    ms.push(y);
    check_all(a, ms, counted);
}
SX_ENTRY(c08_alias, quick, "n in 1..3 strings of length 0..2: an element assigned from another element of the same array, pushed back, inserted or used to resize")
{
    SM<> m;
    size_t n = sx::choose("n", 1, 3), i = sx::choose("i", 0, n - 1), j = sx::choose("j", 0, n - 1);
    fill_str(m, n, L);
    string_array a(str_values<std::string>(m), bitmap(m));
    opt<S> x = m.v[i];
    bool counted = true;
    switch (sx::choose("op", 0, 2))
    {
        case 0: a[j].get() = a[i].get(); m.v[j].x = x.x; counted = false; break;
        case 1: { V v(std::string(a[i].get().begin(), a[i].get().end()), a[i].has_value()); a.push_back(v); m.push(x); break; }
        case 2:
        {
            const string_array& c = a;
            std::string_view sv = c[i].get();
            a[j].get() = sv;
            m.v[j].x = x.x;
            break;
        }
    }
    check_all(a, m, counted);
}
SX_ENTRY(c08_big, quick, "4 strings, one of which has 255, 33000 or 66000 bytes (thorough also 127, 256, 32767, 65535); one mutation (push_back, insert, erase, resize, assignment) with a string of 2 or 40000 bytes at any position; lengths, first, middle and last bytes")
{
    constexpr size_t BIG[] = {255, 33000, 66000, 127, 256, 32767, 65535};
    struct item { size_t n; unsigned char c; bool has; };
    auto str = [](const item& x)
    {
        std::string s(x.n, 'x');
        if (x.n) s[0] = s[x.n - 1] = static_cast<char>(x.c);
        return s;
    };
    auto fresh = [](size_t n) { return item{n, sx::sym<unsigned char>("c"), static_cast<bool>(sx::flag("has"))}; };
    std::vector<item> m;
    const size_t where = sx::choose("where", 0, 1) * 2, big = BIG[sx::choose("big", 0, SX_BOUND(2, 6))];
    for (size_t i = 0; i < 4; ++i) m.push_back(fresh(i == where ? big : i == 1 ? 0 : 3));
    std::vector<std::string> v;
    std::vector<uint8_t> ok;
    for (auto& x : m) { v.push_back(str(x)); ok.push_back(x.has); }
    string_array a(v, sparrow::validity_bitmap(ok));
    const item x = fresh(sx::choose("long", 0, 1) ? 40000 : 2);
    const V vx(str(x), bool(x.has));
    const size_t at = sx::choose("at", 0, 3);
    switch (sx::choose("op", 0, 5))
    {
        case 0: a.push_back(vx); m.push_back(x); break;
        case 1: a.insert(a.cbegin() + static_cast<std::ptrdiff_t>(at), vx, x.n > 2 ? 1 : 2); m.insert(m.begin() + static_cast<std::ptrdiff_t>(at), x.n > 2 ? 1 : 2, x); break;
        case 2: a.erase(a.cbegin() + static_cast<std::ptrdiff_t>(at)); m.erase(m.begin() + static_cast<std::ptrdiff_t>(at)); break;
        case 3: a.resize(at + 2, vx); m.resize(at + 2, x); break;
        case 4: a[at] = vx; m[at] = x; break;
        default: a[at].get() = str(x); m[at].n = x.n; m[at].c = x.c;
    }
    const string_array& c = a;
    SX_ASSERT(c.size() == m.size(), "size");
    for (size_t i = 0; i < m.size(); ++i)
    {
        auto r = c[i];
        SX_ASSERT(r.has_value() == m[i].has, "validity");
        SX_ASSERT(r.get().size() == m[i].n, "length");
        if (m[i].n)
        {
            SX_ASSERT(static_cast<unsigned char>(r.get()[0]) == m[i].c && static_cast<unsigned char>(r.get()[m[i].n - 1]) == m[i].c, "first and last byte");
            if (m[i].n > 2) SX_ASSERT(r.get()[m[i].n / 2] == 'x', "middle byte");
        }
    }
    SX_REACH("big");
}
SX_ENTRY(c08_long, quick, "40 strings of lengths 0..22 or 300 of lengths 0..2, chosen contents: one mutation of every kind at either end, in the middle or next to element 64, with values of up to 300 symbolic or chosen bytes and up to 260 elements, then a push_back")
{
    const bool many = sx::choose("many", 0, 1) != 0;
    const size_t n = many ? 300 : 40;
    std::vector<std::pair<std::string, bool>> m;
    std::vector<std::string> values;
    std::vector<size_t> nulls;
    for (size_t i = 0; i < n; ++i)
    {
        std::string s(many ? i % 3 : i * 7 % 23, ' ');
        for (size_t k = 0; k < s.size(); ++k) s[k] = static_cast<char>(i * 31 + k * 7);
        const bool has = i % 5 != 2 && i % 64 != 63;
        if (!has) nulls.push_back(i);
        values.push_back(s);
        m.emplace_back(s, has);
    }
    string_array a(values, nulls);
    static const size_t lengths[] = {0, 1, 30, 300}, counts[] = {1, 2, 40, 260};
    std::string x(lengths[sx::choose("length", 0, 3)], 'x');
    if (!x.empty()) x.back() = sx::sym<char>("c");
    const bool xh = sx::choose("vh", 0, 1) != 0;
    const V nx(x, bool(xh));
    const auto mx = std::make_pair(x, bool(xh));
    const size_t p = model::spot("pos", n);
    const auto pos = static_cast<std::ptrdiff_t>(p);
    auto it = a.begin() + pos;
    bool counted = true;
    auto count = [&] { return counts[sx::choose("count", 0, x.size() > 30 ? 1 : 3)]; };
    switch (sx::choose("op", 0, 7))
    {
        case 0: it = a.insert(a.cbegin() + pos, nx); m.insert(m.begin() + pos, mx); break;
        case 1: { const size_t c = count(); it = a.insert(a.cbegin() + pos, nx, c); m.insert(m.begin() + pos, c, mx); break; }
        case 2:
        {
            std::vector<V> s;
            std::vector<std::pair<std::string, bool>> t;
            const size_t c = count();
            for (size_t i = 0; i < c; ++i)
            {
                t.emplace_back(i % 4 ? std::string(i % 5, static_cast<char>(i)) : x, i % 3 != 1);
                s.push_back(V(t.back().first, bool(t.back().second)));
            }
            it = a.insert(a.cbegin() + pos, s);
            m.insert(m.begin() + pos, t.begin(), t.end());
            break;
        }
        case 3: if (p < n) { it = a.erase(a.cbegin() + pos); m.erase(m.begin() + pos); } break;
        case 4:
        {
            const auto l = static_cast<std::ptrdiff_t>(sx::choose("last", 0, 1) ? n - (n - p) / 20 : p + (n - p) / 2);
            it = a.erase(a.cbegin() + pos, a.cbegin() + l);
            m.erase(m.begin() + pos, m.begin() + l);
            break;
        }
        case 5: { const size_t c = count(); a.resize(n + c, nx); m.resize(n + c, mx); it = a.begin() + pos; break; }
        case 6: a.resize(p, nx); m.resize(p, mx); it = a.begin() + pos; break;
        default: if (p < n) { a[p] = nx; m[p] = mx; counted = false; }
    }
    SX_ASSERT(it - a.begin() == pos, "the position returned");
    auto check = [&]
    {
        SX_ASSERT(a.size() == m.size(), "size");
        int64_t nulls_now = 0;
        for (size_t i = 0; i < m.size(); ++i)
        {
            const auto r = std::as_const(a)[i];
            SX_ASSERT(r.has_value() == m[i].second, "validity");
            nulls_now += !m[i].second;
            SX_ASSERT(r.get().size() == m[i].first.size(), "length");
            bool same = true;
            for (size_t k = 0; k < m[i].first.size(); ++k) same &= r.get()[k] == m[i].first[k];
            SX_ASSERT(same, "bytes");
        }
        const auto& pr = sparrow::detail::array_access::get_arrow_proxy(a);
        SX_ASSERT(pr.length() == m.size(), "length of the structure");
        SX_ASSERT(!counted || static_cast<int64_t>(pr.null_count()) == nulls_now, "null count");
    };
    check();
    a.push_back(nx);
    m.push_back(mx);
    check();
    SX_REACH("long");
}
