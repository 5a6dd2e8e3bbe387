// C03: bitset iterators: random-access laws, for every pair of positions.
#include "model.hpp"
#include <algorithm>
#include <iterator>
#include "sparrow/buffer/dynamic_bitset.hpp"

constexpr size_t N = SX_BOUND(19, 34);

template <class B>
struct bits
{
    static constexpr size_t W = sizeof(B) * 8;
    size_t n, blocks;
    B* p;
    bool v[N + 1];
    explicit bits(size_t size) : n(size), blocks((size + W - 1) / W), p(std::allocator<B>().allocate(blocks))
    {
        for (size_t i = 0; i < blocks; ++i) p[i] = sx::sym<B>("block");
        for (size_t i = 0; i < n; ++i) v[i] = ((p[i / W] >> (i % W)) & 1) != 0;
    }
};

// laws that only need reading; It over sequence s[0..n)
template <class It>
static void laws(It b, It e, const bool* v, size_t n)
{
    using D = std::iter_difference_t<It>;
    size_t i = sx::choose("i", 0, n), j = sx::choose("j", 0, n);
    It a = b + static_cast<D>(i), c = b + static_cast<D>(j);
    SX_ASSERT(e - b == static_cast<D>(n), "end - begin == size");
    SX_ASSERT(c - a == static_cast<D>(j) - static_cast<D>(i), "difference");
    SX_ASSERT(a - b == static_cast<D>(i), "distance from begin");
    SX_ASSERT((a == c) == (i == j), "==");
    SX_ASSERT((a != c) == (i != j), "!=");
    SX_ASSERT((a < c) == (i < j), "<");
    SX_ASSERT((a <= c) == (i <= j), "<=");
    SX_ASSERT((a > c) == (i > j), ">");
    SX_ASSERT((a >= c) == (i >= j), ">=");
    It t = a;
    t += static_cast<D>(j) - static_cast<D>(i);
    SX_ASSERT(t == c, "+=");
    t -= static_cast<D>(j) - static_cast<D>(i);
    SX_ASSERT(t == a, "-=");
    SX_ASSERT(a + (c - a) == c, "a + (c - a)");
    SX_ASSERT(e - static_cast<D>(n - i) == a, "end - k");
    if (i < n)
    {
        SX_ASSERT(*a == v[i], "dereference");
        SX_ASSERT(b[static_cast<D>(i)] == v[i], "subscript");
        sx::observe(static_cast<bool>(*a));
        t = a;
        It u = t++;
        SX_ASSERT(u == a, "post-increment value");
        SX_ASSERT(t == b + static_cast<D>(i + 1), "post-increment");
        t = a;
        SX_ASSERT(++t == b + static_cast<D>(i + 1), "pre-increment");
        SX_ASSERT((t == e) == (i + 1 == n), "reaches the end after size steps");
        SX_REACH("dereference");
    }
    if (i > 0)
    {
        t = a;
        It u = t--;
        SX_ASSERT(u == a, "post-decrement value");
        SX_ASSERT(t == b + static_cast<D>(i - 1), "post-decrement");
        SX_ASSERT(*t == v[i - 1], "dereference after decrement");
        t = a;
        --t;
        ++t;
        SX_ASSERT(t == a, "decrement then increment");
        SX_REACH("decrement");
    }
}

template <class B>
static void run()
{
    size_t n = sx::choose("n", 0, N);
    bits<B> d(n);
    sparrow::dynamic_bitset<B> s(d.p, n);
    const auto& cs = s;
    switch (sx::choose("which", 0, 2))
    {
        case 0: laws(cs.begin(), cs.end(), d.v, n); break;
        case 1: laws(s.cbegin(), s.cend(), d.v, n); break;
        case 2: laws(s.begin(), s.end(), d.v, n); break;
    }
}
SX_ENTRY(c03_laws_u8, quick, "0..19 (thorough 34) bits, arbitrary 8-bit blocks, every pair of positions, const and mutable iterators") { run<uint8_t>(); }
SX_ENTRY(c03_laws_u16, quick, "the same with 16-bit blocks") { run<uint16_t>(); }
SX_ENTRY(c03_laws_u64, quick, "the same with 64-bit blocks") { run<uint64_t>(); }

SX_ENTRY(c03_laws_boundary, quick, "120..130 bits in 64-bit blocks, positions around the block boundary, arbitrary blocks")
{
    size_t n = sx::choose("n", 126, 130);
    size_t blocks = (n + 63) / 64;
    auto* p = std::allocator<uint64_t>().allocate(blocks);
    for (size_t i = 0; i < blocks; ++i) p[i] = sx::sym<uint64_t>("block");
    bool v[131];
    for (size_t i = 0; i < n; ++i) v[i] = ((p[i / 64] >> (i % 64)) & 1) != 0;
    sparrow::dynamic_bitset<uint64_t> s(p, n);
    auto b = s.cbegin();
    size_t i = sx::choose("i", 61, 66), j = sx::choose("j", 124, n);
    SX_ASSERT(s.cend() - b == static_cast<std::ptrdiff_t>(n), "end - begin == size");
    auto a = b + static_cast<std::ptrdiff_t>(i), c = b + static_cast<std::ptrdiff_t>(j);
    SX_ASSERT(c - a == static_cast<std::ptrdiff_t>(j - i), "difference");
    SX_ASSERT(*a == v[i], "dereference");
    --a;
    SX_ASSERT(*a == v[i - 1], "decrement");
    c -= static_cast<std::ptrdiff_t>(j - i);
    SX_ASSERT(*c == v[i], "-=");
    SX_ASSERT(a < c, "order");
}

SX_ENTRY(c03_view, quick, "0..19 bits, views on constant storage and on no storage, every pair of positions")
{
    size_t n = sx::choose("n", 0, N);
    bits<uint8_t> d(n);
    {
        bool all[N + 1];
        for (size_t i = 0; i <= N; ++i) all[i] = true;
        bool none = sx::choose("none", 0, 1);
        const sparrow::dynamic_bitset_view<const uint8_t> s(none ? nullptr : d.p, n);
        if (none) laws(s.begin(), s.end(), all, n);
        else laws(s.begin(), s.end(), d.v, n);
    }
    std::allocator<uint8_t>().deallocate(d.p, d.blocks);
}

SX_ENTRY(c03_traversal, quick, "0..19 bits: forward and reverse traversal visit every bit in order; std::count and std::find agree")
{
    size_t n = sx::choose("n", 0, N);
    bits<uint8_t> d(n);
    sparrow::dynamic_bitset<uint8_t> s(d.p, n);
    size_t k = 0;
    for (auto x : s) { SX_ASSERT(x == d.v[k], "forward"); ++k; SX_ASSERT(k <= n, "no more than size steps"); }
    SX_ASSERT(k == n, "size steps forward");
    for (auto it = std::make_reverse_iterator(s.cend()); it != std::make_reverse_iterator(s.cbegin()); ++it)
    {
        SX_ASSERT(k > 0, "no more than size steps back");
        --k;
        SX_ASSERT(*it == d.v[k], "backward");
    }
    SX_ASSERT(k == 0, "size steps back");
    SX_REACH("traversal");
}

SX_ENTRY(c03_write, quick, "1..12 bits (thorough 20), write through iterators and references at every position: exactly that bit changes")
{
    size_t n = sx::choose("n", 1, SX_BOUND(12, 20));
    bits<uint8_t> d(n);
    sparrow::dynamic_bitset<uint8_t> s(d.p, n);
    size_t i = sx::choose("i", 0, n - 1);
    bool v = sx::flag("v");
    auto it = s.begin() + static_cast<std::ptrdiff_t>(i);
    switch (sx::choose("how", 0, 4))
    {
        case 0: *it = v; d.v[i] = v; break;
        case 1: s.begin()[static_cast<std::ptrdiff_t>(i)] = v; d.v[i] = v; break;
        case 2: { auto r = *it; r |= v; d.v[i] = d.v[i] || v; break; }
        case 3: { auto r = *it; r ^= v; d.v[i] = d.v[i] != v; break; }
        case 4: { size_t j = n - 1; *it = *(s.begin() + static_cast<std::ptrdiff_t>(j)); d.v[i] = d.v[j]; break; }
    }
    for (size_t k = 0; k < n; ++k) SX_ASSERT(s.test(k) == d.v[k], "only the designated bit changes");
    size_t c = 0;
    for (size_t k = 0; k < n; ++k) c += d.v[k] ? 0 : 1;
    SX_ASSERT(s.null_count() == c, "null_count follows");
    SX_REACH("write");
}

SX_ENTRY(c03_long, quick, "257 or 300 bits in 8- or 64-bit blocks or in a view: iterators at chosen positions, moved by every distance between them; forward traversal")
{
    const size_t n = sx::choose("n", 0, 1) ? 300 : 257;
    bool v[300];
    auto run = [&]<class S>(const S& s)
    {
        const auto b = s.cbegin(), e = s.cend();
        const size_t i = model::spot("i", n), j = model::spot("j", n);
        const auto di = static_cast<std::ptrdiff_t>(i), dj = static_cast<std::ptrdiff_t>(j);
        const auto a = b + di, c = b + dj;
        SX_ASSERT(e - b == static_cast<std::ptrdiff_t>(n) && c - a == dj - di && a - e == di - static_cast<std::ptrdiff_t>(n), "difference");
        SX_ASSERT(a + (dj - di) == c && c - (dj - di) == a && e - static_cast<std::ptrdiff_t>(n - i) == a, "moved by any distance");
        SX_ASSERT((a == c) == (i == j) && (a < c) == (i < j) && (a <= c) == (i <= j) && (a > c) == (i > j), "order");
        if (j < n) SX_ASSERT(a[dj - di] == v[j] && *c == v[j], "dereference");
        size_t k = i;
        for (auto it = a; it != e; ++it, ++k) SX_ASSERT(k < n && *it == v[k], "forward");
        SX_ASSERT(k == n, "forward to the end");
        for (auto it = e; it != a;) { --it; --k; SX_ASSERT(*it == v[k], "backward"); }
        SX_ASSERT(k == i, "backward to where it began");
    };
    auto fill = [&]<class B>(B)
    {
        constexpr size_t W = sizeof(B) * 8;
        B* p = std::allocator<B>().allocate((n + W - 1) / W);
        for (size_t i = 0; i < (n + W - 1) / W; ++i) p[i] = static_cast<B>(0x9E3779B97F4A7C15ull * (i + 1));
        p[1] = sx::sym<B>("block");
        for (size_t i = 0; i < n; ++i) v[i] = ((p[i / W] >> (i % W)) & 1) != 0;
        return p;
    };
    switch (sx::choose("how", 0, 2))
    {
        case 0: { const sparrow::dynamic_bitset<uint8_t> s(fill(uint8_t()), n); run(s); break; }
        case 1: { const sparrow::dynamic_bitset<uint64_t> s(fill(uint64_t()), n); run(s); break; }
        default:
        {
            uint8_t* p = fill(uint8_t());
            run(sparrow::dynamic_bitset_view<const uint8_t>(p, n));
            std::allocator<uint8_t>().deallocate(p, (n + 7) / 8);
        }
    }
    SX_REACH("long");
}
