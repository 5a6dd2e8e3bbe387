// C02: dynamic_bitset / view / non-owning bitset against a plain array of booleans.
#include "model.hpp"
#include <array>
#include <vector>
#include "sparrow/buffer/dynamic_bitset.hpp"

constexpr size_t N = SX_BOUND(17, 26);    // bits in the pre-state
constexpr size_t K = SX_BOUND(3, 9);
using M = model::seq<bool, N + K + 80>;

// raw storage with arbitrary bytes: also the unused bits are arbitrary
template <class B>
static B* storage(size_t n, M& m)
{
    constexpr size_t W = sizeof(B) * 8;
    size_t blocks = (n + W - 1) / W;
    B* p = std::allocator<B>().allocate(blocks);
    for (size_t i = 0; i < blocks; ++i) p[i] = sx::sym<B>("block");
    for (size_t i = 0; i < n; ++i) m.push(((p[i / W] >> (i % W)) & 1) != 0);
    return p;
}

template <size_t CAP>
static size_t nulls(const model::seq<bool, CAP>& m)
{
    size_t c = 0;
    for (size_t i = 0; i < m.n; ++i) c += m.v[i] ? 0 : 1;
    return c;
}

template <class S, size_t CAP>
static void check(const S& b, const model::seq<bool, CAP>& m)
{
    SX_ASSERT(b.size() == m.n, "size");
    SX_ASSERT(b.empty() == (m.n == 0), "empty");
    SX_ASSERT(b.null_count() == nulls(m), "null_count is the number of unset bits");
    using block = typename S::block_type;
    constexpr size_t W = sizeof(block) * 8;
    SX_ASSERT(b.block_count() >= (m.n + W - 1) / W, "enough blocks");
    for (size_t i = 0; i < m.n; ++i)
    {
        SX_ASSERT(((b.data()[i / W] >> (i % W)) & 1) == (m.v[i] ? 1 : 0), "bit in storage");
        sx::observe((b.data()[i / W] >> (i % W)) & 1);
    }
    sx::observe(b.null_count());
}
template <class S, size_t CAP>
static void check_reads(S& b, const model::seq<bool, CAP>& m)
{
    const S& c = b;
    for (size_t i = 0; i < m.n; ++i)
    {
        SX_ASSERT(c.test(i) == m.v[i], "test");
        SX_ASSERT(bool(b[i]) == m.v[i], "operator[]");
        SX_ASSERT(c[i] == m.v[i], "const operator[]");
    }
    auto it = c.begin();
    for (size_t i = 0; i < m.n; ++i, ++it) SX_ASSERT(*it == m.v[i], "iteration");
    SX_ASSERT(it == c.end(), "end");
    if (m.n)
    {
        SX_ASSERT(c.front() == m.v[0], "front");
        SX_ASSERT(c.back() == m.v[m.n - 1], "back");
    }
}

template <class B>
static void construct()
{
    size_t n = sx::choose("n", 0, N);
    M m;
    switch (sx::choose("ctor", 0, 5))
    {
        case 0: { B* p = storage<B>(n, m); sparrow::dynamic_bitset<B> b(p, n); check(b, m); check_reads(b, m); SX_REACH("storage ctor"); break; }
        case 1:
        {
            bool v = sx::choose("v", 0, 1);
            m.resize(n, v);
            sparrow::dynamic_bitset<B> b(n, v);
            check(b, m);
            check_reads(b, m);
            break;
        }
        case 2: { m.resize(n, false); sparrow::dynamic_bitset<B> b(n); check(b, m); break; }
        case 3: { B* p = storage<B>(n, m); size_t c = nulls(m); sparrow::dynamic_bitset<B> b(p, n, c); check(b, m); break; }
        case 4:
        {
            n = n > 9 ? 9 : n;
            std::array<bool, 9> a;
            std::vector<uint8_t> v(n);
            for (size_t i = 0; i < n; ++i) { bool x = sx::flag("x"); v[i] = x; m.push(x); }
            sparrow::dynamic_bitset<B> b(v);
            check(b, m);
            break;
        }
        case 5: { sparrow::dynamic_bitset<B> b; check(b, m); check_reads(b, m); break; }
    }
}
SX_ENTRY(c02_construct_u8, quick, "0..17 bits, arbitrary storage bytes, 8-bit blocks, every constructor") { construct<uint8_t>(); }
SX_ENTRY(c02_construct_u32, quick, "0..17 bits, arbitrary storage, 32-bit blocks") { construct<uint32_t>(); }
SX_ENTRY(c02_construct_u64, quick, "0..17 bits, arbitrary storage, 64-bit blocks") { construct<uint64_t>(); }

template <class B, class S>
static void bit_ops(S& b, M& m)
{
    sx::assume(m.n > 0);
    size_t i = sx::range("i", 0, m.n - 1);
    bool v = sx::flag("v");
    switch (sx::choose("op", 0, 8))
    {
        case 0: b.set(i, v); m.v[i] = v; break;
        case 1: b[i] = v; m.v[i] = v; break;
        case 2: b[i] &= v; m.v[i] = m.v[i] & v; break;
        case 3: b[i] |= v; m.v[i] = m.v[i] | v; break;
        case 4: b[i] ^= v; m.v[i] = m.v[i] != v; break;
        case 5: { size_t j = sx::range("j", 0, m.n - 1); b[i] = b[j]; m.v[i] = m.v[j]; break; }
        case 6: SX_ASSERT(~b[i] == !m.v[i], "operator~"); SX_ASSERT((b[i] == v) == (m.v[i] == v), "reference == bool"); break;
        case 7: b.front() = v; m.v[0] = v; break;
        case 8: b.back() = v; m.v[m.n - 1] = v; break;
    }
    check(b, m);
    SX_REACH("bit ops");
}
SX_ENTRY(c02_set_u8, quick, "1..17 bits, arbitrary storage, symbolic position and value, set and reference operators")
{
    M m;
    size_t n = sx::choose("n", 1, N);
    uint8_t* p = storage<uint8_t>(n, m);
    sparrow::dynamic_bitset<uint8_t> b(p, n);
    bit_ops<uint8_t>(b, m);
}
SX_ENTRY(c02_set_u16, quick, "15..17 bits (thorough 13..26), 16-bit blocks, symbolic position and value")
{
    M m;
    size_t n = sx::choose("n", SX_BOUND(15, 13), N);
    uint16_t* p = storage<uint16_t>(n, m);
    sparrow::dynamic_bitset<uint16_t> b(p, n);
    bit_ops<uint16_t>(b, m);
}
SX_ENTRY(c02_view, quick, "view on 1..17 external bits with arbitrary bytes (unused bits arbitrary): reads and writes, with and without given null count")
{
    M m;
    size_t n = sx::choose("n", 1, N);
    uint8_t* p = storage<uint8_t>(n, m);
    {
        if (sx::choose("given", 0, 1))
        {
            sparrow::dynamic_bitset_view<uint8_t> b(p, n, nulls(m));
            bit_ops<uint8_t>(b, m);
        }
        else
        {
            sparrow::dynamic_bitset_view<uint8_t> b(p, n);
            check_reads(b, m);
            bit_ops<uint8_t>(b, m);
        }
    }
    std::allocator<uint8_t>().deallocate(p, (n + 7) / 8);
}
SX_ENTRY(c02_const_view, quick, "view on constant storage: 0..17 bits, arbitrary bytes, storage unchanged")
{
    M m;
    size_t n = sx::choose("n", 0, N);
    uint8_t* p = storage<uint8_t>(n, m);
    uint8_t last = n ? p[(n - 1) / 8] : 0;
    {
        sparrow::dynamic_bitset_view<const uint8_t> b(p, n);
        SX_ASSERT(b.null_count() == nulls(m), "null_count");
        for (size_t i = 0; i < n; ++i) SX_ASSERT(b.test(i) == m.v[i], "test");
        size_t i = 0;
        for (bool x : b) SX_ASSERT(x == m.v[i++], "iteration");
        SX_ASSERT(i == n, "iteration count");
    }
    if (n) SX_ASSERT(p[(n - 1) / 8] == last, "storage unchanged");
    std::allocator<uint8_t>().deallocate(p, (n + 7) / 8);
}
SX_ENTRY(c02_no_storage, quick, "bitset without storage (null pointer), 0..17 bits: reads as all set")
{
    size_t n = sx::choose("n", 0, N);
    const sparrow::dynamic_bitset_view<const uint8_t> b(nullptr, n);
    SX_ASSERT(b.size() == n, "size");
    SX_ASSERT(b.null_count() == 0, "no unset bit");
    size_t k = 0;
    for (bool x : b) { SX_ASSERT(x, "set"); ++k; }
    SX_ASSERT(k == n, "iteration count");
    if (n)
    {
        size_t i = sx::range("i", 0, n - 1);
        SX_ASSERT(b.test(i), "test");
        SX_ASSERT(b.front() && b.back(), "front/back");
    }
}

template <class S>
static void edits(S& b, M& m)
{
    size_t n = m.n;
    size_t op = sx::choose("op", 0, 9);
    switch (op)
    {
        case 0: { bool v = sx::choose("v", 0, 1); b.push_back(v); m.push(v); break; }
        case 1: sx::assume(n > 0); b.pop_back(); m.n--; break;
        case 2: { size_t k = sx::choose("k", 0, n + K + 9); bool v = sx::choose("v", 0, 1); b.resize(k, v); m.resize(k, v); break; }
        case 3: b.clear(); m.n = 0; break;
        case 4:
        {
            size_t pos = sx::choose("pos", 0, n), c = sx::choose("c", 0, K);
            bool v = sx::flag("v");
            auto it = b.insert(b.cbegin() + pos, c, v);
            m.insert(pos, v, c);
            SX_ASSERT(static_cast<size_t>(it - b.begin()) == pos, "insert returns the position");
            SX_REACH("insert count");
            break;
        }
        case 5:
        {
            size_t pos = sx::choose("pos", 0, n), c = sx::choose("c", 0, K);
            bool a[K + 1];
            for (size_t i = 0; i < c; ++i) a[i] = sx::flag("a");
            auto it = b.insert(b.cbegin() + pos, a, a + c);
            m.insert_range(pos, a, c);
            SX_ASSERT(static_cast<size_t>(it - b.begin()) == pos, "insert range returns the position");
            break;
        }
        case 6:
        {
            size_t pos = sx::choose("pos", 0, n);
            bool v = sx::flag("v");
            auto it = sx::choose("emplace", 0, 1) ? b.emplace(b.cbegin() + pos, v) : b.insert(b.cbegin() + pos, v);
            m.insert(pos, v);
            SX_ASSERT(static_cast<size_t>(it - b.begin()) == pos, "insert one returns the position");
            break;
        }
        case 7:
        {
            sx::assume(n > 0);
            size_t pos = sx::choose("pos", 0, n - 1);
            auto it = b.erase(b.cbegin() + pos);
            m.erase(pos, pos + 1);
            SX_ASSERT(static_cast<size_t>(it - b.begin()) == pos, "erase returns the position after");
            SX_REACH("erase one");
            break;
        }
        case 8:
        {
            size_t first = sx::choose("first", 0, n), last = sx::choose("last", first, n);
            auto it = b.erase(b.cbegin() + first, b.cbegin() + last);
            m.erase(first, last);
            SX_ASSERT(static_cast<size_t>(it - b.begin()) == first, "erase range returns the position after");
            break;
        }
        case 9:
        {
            S c(b);
            check(c, m);
            S d(std::move(c));
            check(d, m);
            break;
        }
    }
    check(b, m);
}
SX_ENTRY(c02_edit_u8, quick, "0..9 (thorough 17) bits, arbitrary storage, every position/count<=3: push/pop/resize/clear/insert/emplace/erase/copy/move")
{
    M m;
    size_t n = sx::choose("n", 0, SX_BOUND(9, 17));
    uint8_t* p = storage<uint8_t>(n, m);
    sparrow::dynamic_bitset<uint8_t> b(p, n);
    edits(b, m);
}
SX_ENTRY(c02_edit_u64, quick, "0..3 bits (thorough 5), 64-bit blocks, arbitrary storage: the same edits")
{
    M m;
    size_t n = sx::choose("n", 0, SX_BOUND(3, 5));
    uint64_t* p = storage<uint64_t>(n, m);
    sparrow::dynamic_bitset<uint64_t> b(p, n);
    edits(b, m);
}
SX_ENTRY(c02_edit_u64_boundary, quick, "63..65 bits, 64-bit blocks, symbolic first and last 3 bits of each block, edits at the block boundary")
{
    M m;
    size_t n = sx::choose("n", 63, 65);
    uint64_t* p = std::allocator<uint64_t>().allocate((n + 63) / 64);
    for (size_t i = 0; i < (n + 63) / 64; ++i)
        p[i] = (static_cast<uint64_t>(sx::sym<uint8_t>("hi") & 7) << 61) | 0x0ff00ff00ff00ff0ull | (sx::sym<uint8_t>("lo") & 7);
    for (size_t i = 0; i < n; ++i) m.push(((p[i / 64] >> (i % 64)) & 1) != 0);
    sparrow::dynamic_bitset<uint64_t> b(p, n);
    bool v = sx::flag("v");
    switch (sx::choose("op", 0, 6))
    {
        case 0: b.push_back(v); m.push(v); break;
        case 1: b.pop_back(); m.n--; break;
        case 2: { size_t k = sx::choose("k", 62, 66); bool w = sx::choose("w", 0, 1); b.resize(k, w); m.resize(k, w); break; }
        case 3: { size_t q = sx::choose("pos", 61, n); b.insert(b.cbegin() + q, 2, v); m.insert(q, v, 2); break; }
        case 4: { size_t q = sx::choose("pos", 61, n - 1); b.erase(b.cbegin() + q); m.erase(q, q + 1); break; }
        case 5: { size_t q = sx::choose("pos", 61, n - 1); b.set(q, v); m.v[q] = v; break; }
        case 6: { check_reads(b, m); break; }
    }
    check(b, m);
    check_reads(b, m);
}
SX_ENTRY(c02_oversized_non_owning, quick, "0..9 bits in a borrowed buffer with 1..2 blocks more than the bits need, arbitrary storage: reads, then an edit: only the bits of the bitset count, and the blocks it does not use are left alone until an edit needs them")
{
    M m;
    const size_t n = sx::choose("n", 0, 9), extra = sx::choose("extra", 1, 2);
    const size_t blocks = (n + 7) / 8 + extra;
    uint8_t* p = storage<uint8_t>(blocks * 8, m);
    m.n = n;
    uint8_t last = p[blocks - 1];
    sparrow::buffer<uint8_t> buf(p, blocks);
    sparrow::non_owning_dynamic_bitset<uint8_t> b(&buf, n);
    SX_ASSERT(buf.size() == blocks && (n == 0 || buf[blocks - 1] == last), "constructing a bitset leaves the blocks it does not use alone");
    check(b, m);
    check_reads(b, m);
    edits(b, m);
    check(b, m);
    SX_REACH("edit of an oversized buffer");
}
SX_ENTRY(c02_edit_non_owning, quick, "0..9 bits, arbitrary storage: the same edits through a bitset that borrows a buffer")
{
    M m;
    size_t n = sx::choose("n", 0, SX_BOUND(9, 17));
    uint8_t* p = storage<uint8_t>(n, m);
    sparrow::buffer<uint8_t> buf(p, (n + 7) / 8);
    {
        sparrow::non_owning_dynamic_bitset<uint8_t> b(&buf, n);
        edits(b, m);
    }
    SX_ASSERT(buf.size() >= (m.n + 7) / 8, "buffer holds all the bits");
    for (size_t i = 0; i < m.n; ++i) SX_ASSERT(((buf[i / 8] >> (i % 8)) & 1) == (m.v[i] ? 1 : 0), "bit in the borrowed buffer");
}

SX_ENTRY(c02_shrink_then_edit, quick, "7..9 bits (thorough 7..17), arbitrary storage: clear, resize to fewer bits, erase of a range or pop_back, then one more edit: no bit of the removed ones comes back")
{
    M m;
    size_t n = sx::choose("n", 7, SX_BOUND(9, 17));
    uint8_t* p = storage<uint8_t>(n, m);
    sparrow::dynamic_bitset<uint8_t> b(p, n);
    switch (sx::choose("first", 0, 3))
    {
        case 0: b.clear(); m.n = 0; break;
        case 1: { size_t k = sx::choose("k", 0, n - 1); b.resize(k, sx::choose("w", 0, 1)); m.n = k; break; }
        case 2: { size_t k = sx::choose("k", 0, n - 1); b.erase(b.cbegin() + k, b.cend()); m.n = k; break; }
        default: b.pop_back(); m.n--;
    }
    check(b, m);
    const bool v = sx::flag("v");
    switch (sx::choose("second", 0, 5))
    {
        case 0: b.push_back(v); m.push(v); break;
        case 1: { size_t k = sx::choose("to", 0, n + 8); bool w = sx::choose("v", 0, 1); b.resize(k, w); m.resize(k, w); break; }
        case 2: { size_t q = sx::choose("pos", 0, m.n); b.insert(b.cbegin() + q, 3, v); m.insert(q, v, 3); break; }
        case 3: { size_t q = sx::choose("pos", 0, m.n); b.emplace(b.cbegin() + q, v); m.insert(q, v); break; }
        case 4: { sparrow::dynamic_bitset<uint8_t> c(b); b = std::move(c); b.resize(n, false); m.resize(n, false); break; }
        default: if (m.n) { b.set(m.n - 1, v); m.v[m.n - 1] = v; b.push_back(!v); m.push(!v); }
    }
    check(b, m);
    SX_REACH("shrink then edit");
}

SX_ENTRY(c02_assign_swap, quick, "two bitsets of 0..9 bits, arbitrary storage: copy/move assignment, swap, self assignment")
{
    M ma, mb;
    size_t na = sx::choose("na", 0, 9), nb = sx::choose("nb", 0, 9);
    uint8_t* pa = storage<uint8_t>(na, ma);
    uint8_t* pb = storage<uint8_t>(nb, mb);
    sparrow::dynamic_bitset<uint8_t> a(pa, na), b(pb, nb);
    switch (sx::choose("op", 0, 3))
    {
        case 0: a = b; check(a, mb); check(b, mb); if (nb) { a.set(0, sx::flag("v")); check(b, mb); } break;
        case 1: a = std::move(b); check(a, mb); break;
        case 2: a.swap(b); check(a, mb); check(b, ma); break;
        case 3: a = *&a; check(a, ma); break;
    }
    SX_REACH("assign");
}

SX_ENTRY(c02_sequence, quick, "3 (thorough 4) arbitrary edits of an initially empty bitset, symbolic values")
{
    sparrow::dynamic_bitset<uint8_t> b;
    if (sx::choose("ctor", 0, 1)) b = sparrow::dynamic_bitset<uint8_t>(0);
    M m;
    for (int s = 0; s < SX_BOUND(3, 4); ++s)
    {
        bool v = sx::flag("v");
        switch (sx::choose("op", 0, 5))
        {
            case 0: b.push_back(v); m.push(v); break;
            case 1: { size_t k = sx::choose("k", 6, 9); b.resize(k, v); m.resize(k, v); break; }
            case 2: if (m.n) { size_t p = sx::choose("p", 0, 1) * (m.n - 1); b.erase(b.cbegin() + p); m.erase(p, p + 1); } break;
            case 3: { size_t p = sx::choose("p", 0, 1) * m.n; b.insert(b.cbegin() + p, 2, v); m.insert(p, v, 2); break; }
            case 4: if (m.n) { size_t i = sx::range("i", 0, m.n - 1); b.set(i, v); m.v[i] = v; } break;
            case 5: if (m.n) { b.pop_back(); m.n--; } break;
        }
        check(b, m);
    }
}

// long bitsets: chosen contents but for one bit, the unused bits of the last block are set
template <class B>
static void long_bits()
{
    using L = model::seq<bool, 800>;
    constexpr size_t W = sizeof(B) * 8;
    static const size_t sizes[] = {33, 64, 65, 128, 200, 257}, counts[] = {1, 8, 40, 65, 130};
    L m;
    const size_t n = sizes[sx::choose("size", 0, 5)], blocks = (n + W - 1) / W;
    B* p = std::allocator<B>().allocate(blocks);
    for (size_t i = 0; i < blocks; ++i) p[i] = static_cast<B>(0xC5A3961E0FF05A3Cull * (2 * i + 1));
    if (W < 64)
    {
        const size_t i = n / 2;
        const B bit = static_cast<B>(B(1) << (i % W));
        p[i / W] = static_cast<B>((p[i / W] & ~bit) | (sx::flag("b") ? bit : B(0)));
    }
    if (n % W) p[blocks - 1] = static_cast<B>(p[blocks - 1] | static_cast<B>(~B(0) << (n % W)));
    for (size_t i = 0; i < n; ++i) m.push(((p[i / W] >> (i % W)) & 1) != 0);
    sparrow::dynamic_bitset<B> b(p, n);
    check(b, m);
    const size_t pos = model::spot("pos", n);
    const bool v = sx::choose("v", 0, 1);
    auto it = b.begin() + pos;
    switch (sx::choose("op", 0, 11))
    {
        case 0: { const size_t c = counts[sx::choose("c", 0, 4)]; it = b.insert(b.cbegin() + pos, c, v); m.insert(pos, v, c); break; }
        case 1:
        {
            const size_t c = counts[sx::choose("c", 0, 4)];
            bool a[130];
            for (size_t i = 0; i < c; ++i) a[i] = i % 3 == 0;
            it = b.insert(b.cbegin() + pos, a, a + c);
            m.insert_range(pos, a, c);
            break;
        }
        case 2: it = b.emplace(b.cbegin() + pos, v); m.insert(pos, v); break;
        case 3: if (pos < n) { it = b.erase(b.cbegin() + pos); m.erase(pos, pos + 1); } break;
        case 4: { const size_t l = pos + (n - pos) / 2; it = b.erase(b.cbegin() + pos, b.cbegin() + l); m.erase(pos, l); break; }
        case 5: { const bool w = sx::choose("w", 0, 1); const size_t c = counts[sx::choose("c", 0, 4)]; b.resize(n + c, w); m.resize(n + c, w); it = b.begin() + pos; break; }
        case 6: b.resize(pos, v); m.resize(pos, v); it = b.begin() + pos; break;
        case 7: { b.resize(pos); m.resize(pos, false); const bool w = sx::choose("w", 0, 1); b.resize(n, w); m.resize(n, w); it = b.begin() + pos; break; }
        case 8: { sparrow::dynamic_bitset<B> c(b); check(c, m); check_reads(c, m); b = std::move(c); it = b.begin() + pos; break; }
        case 9: { sparrow::dynamic_bitset<B> c(9, true); c = b; check(c, m); b = c; it = b.begin() + pos; break; }
        case 10: if (pos < n) { b.set(pos, v); m.v[pos] = v; b[n - 1] = !v; m.v[n - 1] = !v; } break;
        default: check_reads(b, m);
    }
    SX_ASSERT(static_cast<size_t>(it - b.begin()) == pos, "the position returned");
    check(b, m);
    b.push_back(v);
    m.push(v);
    b.push_back(!v);
    m.push(!v);
    check(b, m);
    SX_REACH("long");
}
SX_ENTRY(c02_long_u8, quick, "33, 64, 65, 128, 200 or 257 bits in 8-bit blocks, the middle one symbolic, unused bits set: one operation of every kind at either end, in the middle or at bit 64, with 1, 8, 40, 65 or 130 bits, then two more") { long_bits<uint8_t>(); }
SX_ENTRY(c02_long_u64, quick, "the same in 64-bit blocks, contents chosen") { long_bits<uint64_t>(); }
