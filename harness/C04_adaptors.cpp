// C04: buffer_adaptor, u8_buffer, buffer_view against a plain sequence of T and the raw bytes.
#include "model.hpp"
#include <vector>
#include "sparrow/buffer/buffer_adaptor.hpp"
#include "sparrow/buffer/buffer_view.hpp"
#include "sparrow/buffer/u8_buffer.hpp"

constexpr size_t N = SX_BOUND(4, 6);
constexpr size_t K = SX_BOUND(3, 4);
template <class T>
using M = model::seq<T, 24>;

template <class T>
static bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

template <class T>
static sparrow::buffer<uint8_t> make(size_t n, M<T>& m)
{
    sparrow::buffer<uint8_t> b(n * sizeof(T));
    for (size_t i = 0; i < n; ++i)
    {
        T x = sx::sym<T>("x");
        m.push(x);
        std::memcpy(b.data() + i * sizeof(T), &x, sizeof(T));
    }
    return b;
}

template <class A, class T, size_t CAP>
static void check(A& a, model::seq<T, CAP>& m)
{
    const A& c = a;
    SX_ASSERT(a.size() == m.n, "size");
    SX_ASSERT(a.empty() == (m.n == 0), "empty");
    SX_ASSERT(a.capacity() >= a.size(), "capacity");
    size_t i = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++i)
    {
        SX_ASSERT(i < m.n, "iteration length");
        SX_ASSERT(same<T>(*it, m.v[i]), "iteration");
        SX_ASSERT(same<T>(a[i], m.v[i]), "operator[]");
        SX_ASSERT(same<T>(c[i], m.v[i]), "const operator[]");
        SX_ASSERT(same<T>(c.data()[i], m.v[i]), "data");
    }
    SX_ASSERT(i == m.n, "iteration visits all");
    for (auto it = a.rbegin(); it != a.rend(); ++it) SX_ASSERT(same<T>(*it, m.v[--i]), "reverse iteration");
    if (m.n)
    {
        SX_ASSERT(same<T>(c.front(), m.v[0]) && same<T>(a.front(), m.v[0]), "front");
        SX_ASSERT(same<T>(c.back(), m.v[m.n - 1]) && same<T>(a.back(), m.v[m.n - 1]), "back");
    }
}

template <class A, class T>
static void edit(A& a, M<T>& m)
{
    size_t n = m.n;
    T x = sx::sym<T>("v");
    switch (sx::choose("op", 0, 13))
    {
        case 0: a.push_back(x); m.push(x); break;
        case 1: sx::assume(n > 0); a.pop_back(); m.n--; break;
        case 2:
        {
            size_t p = sx::choose("pos", 0, n);
            auto it = a.insert(a.cbegin() + p, x);
            m.insert(p, x);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert returns the position");
            break;
        }
        case 3:
        {
            size_t p = sx::choose("pos", 0, n), c = sx::choose("count", 0, K);
            auto it = a.insert(a.cbegin() + p, c, x);
            m.insert(p, x, c);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert count returns the position");
            SX_REACH("insert count");
            break;
        }
        case 4:
        {
            size_t p = sx::choose("pos", 0, n), c = sx::choose("count", 0, K);
            T src[K + 1];
            for (size_t i = 0; i < c; ++i) src[i] = sx::sym<T>("s");
            auto it = a.insert(a.cbegin() + p, src, src + c);
            m.insert_range(p, src, c);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert range returns the position");
            break;
        }
        case 5:
        {
            size_t p = sx::choose("pos", 0, n);
            T y = sx::sym<T>("w");
            auto it = a.insert(a.cbegin() + p, {x, y});
            T src[2] = {x, y};
            m.insert_range(p, src, 2);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "insert list returns the position");
            break;
        }
        case 6:
        {
            size_t p = sx::choose("pos", 0, n);
            auto it = a.emplace(a.cbegin() + p, x);
            m.insert(p, x);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "emplace returns the position");
            break;
        }
        case 7:
        {
            sx::assume(n > 0);
            size_t p = sx::choose("pos", 0, n - 1);
            auto it = a.erase(a.cbegin() + p);
            m.erase(p, p + 1);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(p), "erase returns the position");
            SX_REACH("erase one");
            break;
        }
        case 8:
        {
            size_t f = sx::choose("first", 0, n), l = sx::choose("last", f, n);
            auto it = a.erase(a.cbegin() + f, a.cbegin() + l);
            m.erase(f, l);
            SX_ASSERT(it - a.begin() == static_cast<std::ptrdiff_t>(f), "erase range returns the position");
            SX_REACH("erase range");
            break;
        }
        case 9: { size_t k = sx::choose("k", 0, n + K); a.resize(k, x); m.resize(k, x); break; }
        case 10:
        {
            size_t k = sx::choose("k", 0, n);
            a.resize(k);
            m.resize(k, x);
            break;
        }
        case 11: a.clear(); m.n = 0; break;
        case 12:
        {
            sx::assume(n > 0);
            size_t i = sx::choose("i", 0, n - 1);
            switch (sx::choose("how", 0, 3))
            {
                case 0: a[i] = x; m.v[i] = x; break;
                case 1: a.front() = x; m.v[0] = x; break;
                case 2: a.back() = x; m.v[n - 1] = x; break;
                case 3: *(a.begin() + i) = x; m.v[i] = x; break;
            }
            break;
        }
        case 13: { a.reserve(n + sx::choose("more", 0, 5)); if (sx::choose("shrink", 0, 1)) a.shrink_to_fit(); break; }
    }
    check(a, m);
}

template <class T>
static void adaptor()
{
    M<T> m;
    sparrow::buffer<uint8_t> b = make<T>(sx::choose("n", 0, N), m);
    sparrow::buffer_adaptor<T, sparrow::buffer<uint8_t>&> a(b);
    check(a, m);
    edit(a, m);
    if (SX_BOUND(0, 1)) edit(a, m);
    SX_ASSERT(b.size() == m.n * sizeof(T), "the byte buffer holds exactly the elements");
    SX_ASSERT(m.n == 0 || std::memcmp(b.data(), m.v, m.n * sizeof(T)) == 0, "bytes of the buffer");
    for (size_t i = 0; i < b.size(); ++i) sx::observe(b[i]);
}
SX_ENTRY(c04_adaptor_u8, quick, "0..4 elements (thorough 6, two edits), arbitrary values, every operation and position") { adaptor<uint8_t>(); }
SX_ENTRY(c04_adaptor_i32, quick, "the same over int32") { adaptor<int32_t>(); }
SX_ENTRY(c04_adaptor_f64, quick, "the same over double") { adaptor<double>(); }
SX_ENTRY(c04_adaptor_u16, quick, "the same over uint16") { adaptor<uint16_t>(); }

template <class T>
static void u8buf()
{
    M<T> m;
    size_t n = sx::choose("n", 0, N);
    std::vector<T> src;
    for (size_t i = 0; i < n; ++i) { T x = sx::sym<T>("x"); src.push_back(x); }
    auto fin = [&](sparrow::u8_buffer<T>& u)
    {
        check(u, m);
        edit(u, m);
        sparrow::buffer<uint8_t> raw = std::move(u).extract_storage();
        SX_ASSERT(raw.size() == m.n * sizeof(T), "extracted size");
        SX_ASSERT(m.n == 0 || std::memcmp(raw.data(), m.v, m.n * sizeof(T)) == 0, "extracted bytes");
    };
    switch (sx::choose("ctor", 0, 4))
    {
        case 0: { T v = sx::sym<T>("fill"); sparrow::u8_buffer<T> u(n, v); m.resize(n, v); fin(u); break; }
        case 1: { sparrow::u8_buffer<T> u(src); for (auto& x : src) m.push(x); fin(u); SX_REACH("u8 range"); break; }
        case 2:
        {
            T a = sx::sym<T>("a"), b = sx::sym<T>("b");
            sparrow::u8_buffer<T> u{a, b};
            m.push(a);
            m.push(b);
            fin(u);
            break;
        }
        case 3:
        {
            sparrow::u8_buffer<T> u(src);
            for (auto& x : src) m.push(x);
            sparrow::u8_buffer<T> c(u);
            M<T> orig = m;
            fin(c);
            check(u, orig);  // the source of the copy is unaffected
            break;
        }
        case 4:
        {
            sparrow::u8_buffer<T> u(src);
            for (auto& x : src) m.push(x);
            sparrow::u8_buffer<T> c(std::move(u));
            fin(c);
            break;
        }
    }
}
SX_ENTRY(c04_u8_buffer_i32, quick, "u8_buffer<int32>: 0..4 elements, every constructor followed by every operation; extracted bytes") { u8buf<int32_t>(); }
SX_ENTRY(c04_u8_buffer_u64, quick, "u8_buffer<uint64>: the same") { u8buf<uint64_t>(); }

SX_ENTRY(c04_alias, quick, "1..4 int32: inserting, pushing or resizing with an element of the adaptor itself")
{
    M<int32_t> m;
    size_t n = sx::choose("n", 1, N);
    sparrow::buffer<uint8_t> b = make<int32_t>(n, m);
    if (sx::choose("room", 0, 1)) b.reserve(64);
    sparrow::buffer_adaptor<int32_t, sparrow::buffer<uint8_t>&> a(b);
    size_t i = sx::choose("i", 0, n - 1), p = sx::choose("p", 0, n);
    int32_t x = m.v[i];
    switch (sx::choose("op", 0, 4))
    {
        case 4: a.emplace(a.cbegin() + p, a[i]); m.insert(p, x); break;
        case 0: a.push_back(a[i]); m.push(x); break;
        case 1: a.insert(a.cbegin() + p, a[i]); m.insert(p, x); break;
        case 2: a.insert(a.cbegin() + p, 2, a[i]); m.insert(p, x, 2); break;
        case 3: a.resize(n + 2, a[i]); m.resize(n + 2, x); break;
    }
    check(a, m);
    SX_REACH("alias");
}

template <class T>
static void view()
{
    M<T> m;
    size_t n = sx::choose("n", 0, N);
    sparrow::buffer<T> b(n);
    for (size_t i = 0; i < n; ++i) { T x = sx::sym<T>("x"); b[i] = x; m.push(x); }
    auto chk = [](const auto& v, const M<T>& mm, size_t from, size_t len)
    {
        SX_ASSERT(v.size() == len && v.empty() == (len == 0), "view size");
        size_t i = 0;
        for (auto& x : v) { SX_ASSERT(same<T>(x, mm.v[from + i]), "view iteration"); ++i; }
        SX_ASSERT(i == len, "view iteration visits all");
        for (auto it = v.rbegin(); it != v.rend(); ++it) SX_ASSERT(same<T>(*it, mm.v[from + --i]), "view reverse iteration");
        for (i = 0; i < len; ++i) SX_ASSERT(same<T>(v[i], mm.v[from + i]), "view operator[]");
        if (len) SX_ASSERT(same<T>(v.front(), mm.v[from]) && same<T>(v.back(), mm.v[from + len - 1]), "view front/back");
    };
    sparrow::buffer_view<T> v(b);
    const sparrow::buffer<T>& cb = b;
    sparrow::buffer_view<const T> cv(cb);
    chk(v, m, 0, n);
    chk(cv, m, 0, n);
    size_t p = sx::choose("pos", 0, n), c = sx::choose("count", 0, n - p);
    chk(v.subrange(p, c), m, p, c);
    chk(v.subrange(p), m, p, n - p);
    chk(v.subrange(v.cbegin() + p, v.cbegin() + p + c), m, p, c);
    sparrow::buffer_view<T> w(b.begin() + p, b.begin() + p + c);
    chk(w, m, p, c);
    bool eq = c == n;
    for (size_t i = 0; eq && i < n; ++i) eq = m.v[i] == m.v[p + i];
    SX_ASSERT((v == w) == eq, "view equality");
    sparrow::buffer<T> copy = static_cast<sparrow::buffer<T>>(w);
    SX_ASSERT(copy.size() == c, "conversion to buffer: size");
    for (size_t i = 0; i < c; ++i) SX_ASSERT(copy[i] == m.v[p + i], "conversion to buffer: elements");
    v.swap(w);
    chk(w, m, 0, n);
    chk(v, m, p, c);
    if (c)
    {
        T x = sx::sym<T>("w");
        v[0] = x;
        m.v[p] = x;
        for (size_t i = 0; i < n; ++i) SX_ASSERT(b[i] == m.v[i], "write through a view");
        SX_REACH("view write");
    }
}
SX_ENTRY(c04_view_i32, quick, "buffer_view<int32>: 0..4 elements, every sub-range, equality, conversion, write") { view<int32_t>(); }
SX_ENTRY(c04_view_u8, quick, "buffer_view<uint8>: the same") { view<uint8_t>(); }

SX_ENTRY(c04_long, quick, "adaptors and u8_buffers of 17, 64, 100 or 257 elements of int32 or double: one operation of every kind at either end, in the middle or next to element 64, with 1, 2, 40 or 200 elements; the bytes")
{
    auto run = [&]<class T>(T)
    {
        using L = model::seq<T, 800>;
        static const size_t sizes[] = {17, 64, 100, 257}, counts[] = {1, 2, 40, 200};
        L m;
        const size_t n = sizes[sx::choose("size", 0, 3)];
        const T x = sx::sym<T>("x"), y = sx::sym<T>("y");
        for (size_t i = 0; i < n; ++i) m.push(i % 7 == 0 ? x : static_cast<T>(i * 40503));
        auto ops = [&](auto& a)
        {
            check(a, m);
            const size_t p = model::spot("pos", n);
            const auto pos = static_cast<std::ptrdiff_t>(p);
            auto it = a.begin() + pos;
            switch (sx::choose("op", 0, 10))
            {
                case 0: it = a.insert(a.cbegin() + pos, y); m.insert(p, y); break;
                case 1: { const size_t c = counts[sx::choose("c", 0, 3)]; it = a.insert(a.cbegin() + pos, c, y); m.insert(p, y, c); break; }
                case 2:
                {
                    const size_t c = counts[sx::choose("c", 0, 3)];
                    std::vector<T> v;
                    for (size_t i = 0; i < c; ++i) v.push_back(i % 5 ? static_cast<T>(i * 911) : y);
                    it = a.insert(a.cbegin() + pos, v.begin(), v.end());
                    m.insert_range(p, v.data(), c);
                    break;
                }
                case 3: if (p < n) { it = a.erase(a.cbegin() + pos); m.erase(p, p + 1); } break;
                case 4: { const size_t l = p + (n - p) / 2; it = a.erase(a.cbegin() + pos, a.cbegin() + static_cast<std::ptrdiff_t>(l)); m.erase(p, l); break; }
                case 5: { const size_t c = counts[sx::choose("c", 0, 3)]; a.resize(n + c, y); m.resize(n + c, y); it = a.begin() + pos; break; }
                case 6: a.resize(p, y); m.resize(p, y); it = a.begin() + pos; break;
                case 7: { const T z = m.v[n - 1]; it = a.insert(a.cbegin() + pos, 40, a[n - 1]); m.insert(p, z, 40); break; }
                case 8: { const T z = m.v[0]; a.push_back(a[0]); m.push(z); it = a.begin() + pos; break; }
                case 9: a.reserve(2 * n); a.shrink_to_fit(); it = a.begin() + pos; break;
                default: if (p < n) { a[p] = y; m.v[p] = y; }
            }
            SX_ASSERT(it - a.begin() == pos, "the position returned");
            check(a, m);
        };
        sparrow::buffer<uint8_t> raw;
        if (sx::choose("own", 0, 1))
        {
            sparrow::u8_buffer<T> u(std::vector<T>(m.v, m.v + n));
            ops(u);
            raw = std::move(u).extract_storage();
        }
        else
        {
            raw.resize(n * sizeof(T));
            std::memcpy(raw.data(), m.v, n * sizeof(T));
            sparrow::buffer_adaptor<T, sparrow::buffer<uint8_t>&> a(raw);
            ops(a);
        }
        SX_ASSERT(raw.size() == m.n * sizeof(T), "the byte buffer holds exactly the elements");
        SX_ASSERT(std::memcmp(raw.data(), m.v, m.n * sizeof(T)) == 0, "bytes of the buffer");
    };
    if (sx::choose("type", 0, 1)) run(int32_t());
    else run(double());
    SX_REACH("long");
}
