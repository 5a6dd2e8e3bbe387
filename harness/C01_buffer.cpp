// C01: buffer<T> against a plain sequence model.
#include "model.hpp"
#include <array>
#include <vector>
#include "sparrow/buffer/buffer.hpp"

using T = uint32_t;
using buf = sparrow::buffer<T>;
constexpr size_t N = SX_BOUND(5, 7);      // elements in the pre-state
constexpr size_t K = SX_BOUND(3, 5);      // inserted elements
using M = model::seq<T, 2 * (N + K) + 4>;

static T val() { return sx::sym<T>("v"); }

// an arbitrary reachable pre-state: size 0..N, spare capacity 0..2, arbitrary contents
static void make(buf& b, M& m, size_t maxn = N)
{
    size_t n = sx::choose("n", 0, maxn);
    size_t spare = sx::choose("spare", 0, 2);
    b.reserve(n + spare);
    for (size_t i = 0; i < n; ++i)
    {
        T x = val();
        b.push_back(x);
        m.push(x);
    }
}

template <size_t CAP>
static void check(const buf& b, const model::seq<T, CAP>& m)
{
    SX_ASSERT(b.size() == m.n, "size");
    SX_ASSERT(b.empty() == (m.n == 0), "empty");
    SX_ASSERT(b.size() <= b.capacity(), "size <= capacity");
    SX_ASSERT(static_cast<size_t>(b.cend() - b.cbegin()) == m.n, "end - begin");
    for (size_t i = 0; i < m.n; ++i)
    {
        SX_ASSERT(b[i] == m.v[i], "element");
        SX_ASSERT(b.data()[i] == m.v[i], "data()");
        sx::observe(b[i]);
    }
    auto it = b.begin();
    for (size_t i = 0; i < m.n; ++i, ++it) SX_ASSERT(*it == m.v[i], "forward iteration");
    SX_ASSERT(it == b.end(), "end of iteration");
    auto rit = b.rbegin();
    for (size_t i = m.n; i-- > 0; ++rit) SX_ASSERT(*rit == m.v[i], "reverse iteration");
    SX_ASSERT(rit == b.rend(), "end of reverse iteration");
    if (m.n)
    {
        SX_ASSERT(b.front() == m.v[0], "front");
        SX_ASSERT(b.back() == m.v[m.n - 1], "back");
    }
    sx::observe(b.size());
}

SX_ENTRY(c01_construct, quick, "n<=4 symbolic u32 elements; every constructor")
{
    size_t n = sx::choose("n", 0, N);
    M m;
    T src[N + 1];
    for (size_t i = 0; i < n; ++i) { src[i] = val(); m.push(src[i]); }
    switch (sx::choose("ctor", 0, 6))
    {
        case 0: { buf b(src, src + n); check(b, m); SX_REACH("range ctor"); break; }
        case 1: { std::vector<T> v(src, src + n); buf b(v); check(b, m); break; }
        case 2:
        {
            T x = val();
            buf b(n, x);
            m.n = 0;
            m.resize(n, x);
            check(b, m);
            break;
        }
        case 3:
        {
            buf b(n);
            m.n = 0;
            m.resize(n, 0);
            check(b, m);
            break;
        }
        case 4:
        {
            sparrow::any_allocator<T> a;
            T* p = a.allocate(n);
            for (size_t i = 0; i < n; ++i) p[i] = src[i];
            buf b(p, n, a);
            check(b, m);
            break;
        }
        case 5:
        {
            T x = val(), y = val(), z = val();
            buf b({x, y, z});
            m.n = 0;
            m.push(x); m.push(y); m.push(z);
            check(b, m);
            b = {z, x};
            m.n = 0;
            m.push(z); m.push(x);
            check(b, m);
            break;
        }
        case 6:
        {
            buf b;
            m.n = 0;
            check(b, m);
            buf c(std::allocator<T>{});
            check(c, m);
            break;
        }
    }
}

SX_ENTRY(c01_copy_move, quick, "two buffers of n<=4/n<=3 elements with spare capacity; copy/move construction and assignment")
{
    buf a, b;
    M ma, mb;
    make(a, ma);
    make(b, mb, 3);
    switch (sx::choose("op", 0, 6))
    {
        case 0: { buf c(a); check(c, ma); check(a, ma); if (ma.n) { c[0] = val(); check(a, ma); } break; }
        case 1: { buf c(std::move(a)); check(c, ma); break; }
        case 2: { b = a; check(b, ma); check(a, ma); if (ma.n) { b[0] = val(); check(a, ma); } break; }
        case 3: { b = std::move(a); check(b, ma); a.clear(); M e; check(a, e); break; }
        case 4: { a.swap(b); check(a, mb); check(b, ma); break; }
        case 5: { a = *&a; check(a, ma); break; }
        case 6:
        {
            bool eq = ma.n == mb.n;
            if (eq)
                for (size_t i = 0; i < ma.n; ++i) eq = eq & (ma.v[i] == mb.v[i]);
            SX_ASSERT((a == b) == eq, "operator== is element-wise equality");
            break;
        }
    }
    SX_REACH("copy/move");
}

SX_ENTRY(c01_insert_one, quick, "n<=4, spare<=2, every position, symbolic values; insert/emplace/push_back, value possibly an element of the buffer")
{
    buf b;
    M m;
    make(b, m);
    size_t pos = sx::choose("pos", 0, m.n);
    T x = val();
    buf::iterator it;
    switch (sx::choose("op", 0, 3))
    {
        case 0: it = b.insert(b.cbegin() + pos, x); break;
        case 1: { T y = x; it = b.insert(b.cbegin() + pos, std::move(y)); break; }
        case 2: it = b.emplace(b.cbegin() + pos, x); break;
        case 3:
        {
            b.push_back(x);
            pos = m.n;
            it = b.begin() + m.n;
            break;
        }
    }
    m.insert(pos, x);
    SX_ASSERT(static_cast<size_t>(it - b.begin()) == pos, "insert returns the position of the new element");
    check(b, m);
    SX_REACH("insert one");
}

SX_ENTRY(c01_insert_alias, quick, "n<=4, spare<=2: inserting a copy of one of the buffer's own elements")
{
    buf b;
    M m;
    make(b, m);
    sx::assume(m.n > 0);
    size_t src = sx::choose("src", 0, m.n - 1), pos = sx::choose("pos", 0, m.n);
    T x = m.v[src];
    switch (sx::choose("op", 0, 4))
    {
        case 0: b.insert(b.cbegin() + pos, b[src]); m.insert(pos, x); break;
        case 1: b.push_back(b[src]); m.push(x); break;
        case 2: b.emplace(b.cbegin() + pos, b[src]); m.insert(pos, x); break;
        case 3: { size_t c = sx::choose("count", 0, K); b.insert(b.cbegin() + pos, c, b[src]); m.insert(pos, x, c); break; }
        case 4: { size_t c = sx::choose("count", 0, K); b.resize(m.n + c, b[src]); m.resize(m.n + c, x); break; }
    }
    check(b, m);
    SX_REACH("alias");
}

SX_ENTRY(c01_insert_many, quick, "n<=4, spare<=2, count<=3, every position; insert count / iterator range / range / list")
{
    buf b;
    M m;
    make(b, m);
    size_t pos = sx::choose("pos", 0, m.n);
    size_t c = sx::choose("count", 0, K);
    T src[K + 1];
    for (size_t i = 0; i < c; ++i) src[i] = val();
    buf::iterator it;
    switch (sx::choose("op", 0, 4))
    {
        case 0:
        {
            T x = val();
            it = b.insert(b.cbegin() + pos, c, x);
            m.insert(pos, x, c);
            break;
        }
        case 1: it = b.insert(b.cbegin() + pos, src, src + c); m.insert_range(pos, src, c); break;
        case 2:
        {
            std::vector<T> v(src, src + c);
            it = b.insert(b.cbegin() + pos, v);
            m.insert_range(pos, src, c);
            break;
        }
        case 3:
        {
            it = b.insert(b.cbegin() + pos, std::make_move_iterator(src), std::make_move_iterator(src + c));
            m.insert_range(pos, src, c);
            break;
        }
        case 4:
        {
            T l[2] = {val(), val()};
            it = b.insert(b.cbegin() + pos, {l[0], l[1]});
            m.insert_range(pos, l, 2);
            break;
        }
    }
    SX_ASSERT(static_cast<size_t>(it - b.begin()) == pos, "insert returns the position of the first new element");
    check(b, m);
    SX_REACH("insert many");
}

SX_ENTRY(c01_erase, quick, "n<=4, spare<=2, every position / range; erase, pop_back, clear")
{
    buf b;
    M m;
    make(b, m);
    sx::assume(m.n > 0);
    size_t first = sx::choose("first", 0, m.n - 1);
    buf::iterator it;
    switch (sx::choose("op", 0, 3))
    {
        case 0: it = b.erase(b.cbegin() + first); m.erase(first, first + 1); SX_ASSERT(static_cast<size_t>(it - b.begin()) == first, "erase returns the position after"); break;
        case 1:
        {
            size_t last = sx::choose("last", first, m.n);
            it = b.erase(b.cbegin() + first, b.cbegin() + last);
            m.erase(first, last);
            SX_ASSERT(static_cast<size_t>(it - b.begin()) == first, "erase returns the position after");
            break;
        }
        case 2: b.clear(); m.n = 0; break;
        case 3: b.pop_back(); m.n--; break;
    }
    check(b, m);
    SX_REACH("erase");
}

SX_ENTRY(c01_resize, quick, "n<=4, spare<=2, new size <=7; resize, reserve, shrink_to_fit")
{
    buf b;
    M m;
    make(b, m);
    size_t k = sx::choose("k", 0, N + K);
    switch (sx::choose("op", 0, 3))
    {
        case 0: b.resize(k); m.resize(k, 0); break;
        case 1: { T x = val(); b.resize(k, x); m.resize(k, x); break; }
        case 2: b.reserve(k); SX_ASSERT(b.capacity() >= k, "capacity after reserve"); break;
        case 3: b.shrink_to_fit(); SX_ASSERT(b.capacity() == b.size(), "capacity after shrink_to_fit"); break;
    }
    check(b, m);
    SX_REACH("resize");
}

SX_ENTRY(c01_access, quick, "n<=4, symbolic 64-bit index below size; reads and writes through operator[], data, iterators")
{
    buf b;
    M m;
    make(b, m);
    sx::assume(m.n > 0);
    uint64_t i = sx::sym<uint64_t>("i");
    sx::assume(i < m.n);
    T x = val();
    switch (sx::choose("op", 0, 4))
    {
        case 0: b[i] = x; break;
        case 1: b.data()[i] = x; break;
        case 2: *(b.begin() + i) = x; break;
        case 3: i = 0; b.front() = x; break;
        case 4: i = m.n - 1; b.back() = x; break;
    }
    m.v[i] = x;
    check(b, m);
    SX_REACH("access");
}

SX_ENTRY(c01_sequence, quick, "2 (thorough 3) arbitrary operations from the empty buffer, symbolic values")
{
    buf b;
    M m;
    for (int s = 0; s < SX_BOUND(3, 5); ++s)
    {
        if (m.n > 4) return;
        T x = val();
        switch (sx::choose("op", 0, 5))
        {
            case 0: b.push_back(x); m.push(x); break;
            case 1: { size_t p = sx::choose("pos", 0, m.n); b.insert(b.cbegin() + p, 2, x); m.insert(p, x, 2); break; }
            case 2: if (m.n) { size_t p = sx::choose("pos", 0, m.n - 1); b.erase(b.cbegin() + p); m.erase(p, p + 1); } break;
            case 3: { size_t k = sx::choose("k", 0, 4); b.resize(k, x); m.resize(k, x); break; }
            case 4: { buf c(b); b = std::move(c); break; }
            case 5: b.shrink_to_fit(); break;
        }
        check(b, m);
    }
    SX_REACH("sequence");
}

// elements that own memory: every element is constructed before it is used and destroyed exactly once
struct owner
{
    static inline int live = 0;
    static constexpr uint32_t ALIVE = 0x600d600d;
    uint32_t state = ALIVE;
    T* p;
    owner() : p(new T(0)) { ++live; }
    explicit owner(T x) : p(new T(x)) { ++live; }
    owner(const owner& o) : p(o.p ? new T(*o.value()) : nullptr) { ++live; }
    owner(owner&& o) noexcept : p(o.value()) { o.p = nullptr; ++live; }
    owner& operator=(const owner& o)
    {
        T* q = o.value() ? new T(*o.p) : nullptr;
        delete value();
        p = q;
        return *this;
    }
    owner& operator=(owner&& o) noexcept
    {
        T* q = o.value();
        o.p = nullptr;
        delete value();
        p = q;
        return *this;
    }
    ~owner()
    {
        SX_ASSERT(state == ALIVE, "a live element is destroyed");
        state = 0;
        delete p;
        --live;
    }
    T* value() const
    {
        SX_ASSERT(state == ALIVE, "a live element is used");
        return p;
    }
};
using obuf = sparrow::buffer<owner>;
static void check(const obuf& b, const M& m)
{
    SX_ASSERT(b.size() == m.n, "size");
    SX_ASSERT(owner::live == static_cast<int>(m.n), "as many elements are alive as the buffer has");
    for (size_t i = 0; i < m.n; ++i) SX_ASSERT(b[i].value() && *b[i].p == m.v[i], "element");
}
SX_ENTRY(c01_objects, quick, "buffers of 0..3 elements that own memory, spare capacity 0..1: every operation, with own elements as arguments too; each element is destroyed once")
{
    {
        obuf b;
        M m;
        const size_t n = sx::choose("n", 0, 3);
        b.reserve(n + sx::choose("spare", 0, 1));
        for (size_t i = 0; i < n; ++i) { T x = val(); b.push_back(owner(x)); m.push(x); }
        check(b, m);
        const size_t pos = sx::choose("pos", 0, n), c = sx::choose("count", 0, 2);
        const T y[3] = {val(), val(), val()};
        auto fresh = [&] { std::vector<owner> v; for (size_t i = 0; i < c; ++i) v.emplace_back(y[i]); return v; };
        switch (sx::choose("op", 0, 18))
        {
            case 0: b.insert(b.cbegin() + pos, owner(y[0])); m.insert(pos, y[0]); break;
            case 1: { const owner o(y[0]); b.insert(b.cbegin() + pos, o); m.insert(pos, y[0]); break; }
            case 2: { const owner o(y[0]); b.insert(b.cbegin() + pos, c, o); m.insert(pos, y[0], c); break; }
            case 3: { auto v = fresh(); b.insert(b.cbegin() + pos, v.begin(), v.end()); m.insert_range(pos, y, c); break; }
            case 4: { auto v = fresh(); b.insert(b.cbegin() + pos, std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); m.insert_range(pos, y, c); break; }
            case 5: b.emplace(b.cbegin() + pos, y[0]); m.insert(pos, y[0]); break;
            case 6: if (pos < n) { b.erase(b.cbegin() + pos); m.erase(pos, pos + 1); } break;
            case 7: if (pos + c <= n) { b.erase(b.cbegin() + pos, b.cbegin() + pos + c); m.erase(pos, pos + c); } break;
            case 8: if (n) { b.pop_back(); m.n--; } break;
            case 9: b.clear(); m.n = 0; break;
            case 10: b.resize(pos + c); m.resize(pos + c, 0); break;
            case 11: { const owner o(y[0]); b.resize(pos + c, o); m.resize(pos + c, y[0]); break; }
            case 12: b.shrink_to_fit(); break;
            case 13: b.reserve(n + c); break;
            case 14: if (pos < n) { T x = m.v[pos]; b.insert(b.cbegin(), c, b[pos]); m.insert(0, x, c); } break;
            case 15: if (pos < n) { T x = m.v[pos]; b.push_back(b[pos]); m.push(x); } break;
            case 16: if (pos < n) { T x = m.v[pos]; b.emplace(b.cbegin(), b[pos]); m.insert(0, x); } break;
            case 17: if (pos < n) { T x = m.v[pos]; b.resize(n + c, b[pos]); m.resize(n + c, x); } break;
            default: if (pos < n) { *b[pos].value() = y[0]; m.v[pos] = y[0]; b = *&b; }
        }
        check(b, m);
        b.push_back(owner(y[2]));
        m.push(y[2]);
        check(b, m);
    }
    SX_ASSERT(owner::live == 0, "every element is destroyed");
    SX_REACH("objects");
}
SX_ENTRY(c01_object_copies, quick, "two buffers of 0..3 and 0..2 elements that own memory: construction by copy, move, count, range, with an allocator; assignment of a copy, a move, a list; swap")
{
    {
        obuf a, b;
        M ma, mb;
        const size_t n = sx::choose("n", 0, 3), k = sx::choose("k", 0, 2);
        a.reserve(n + sx::choose("spare", 0, 1));
        for (size_t i = 0; i < n; ++i) { T x = val(); a.push_back(owner(x)); ma.push(x); }
        for (size_t i = 0; i < k; ++i) { T x = val(); b.push_back(owner(x)); mb.push(x); }
        auto is = [](const obuf& o, const M& m)
        {
            SX_ASSERT(o.size() == m.n, "size");
            for (size_t i = 0; i < m.n; ++i) SX_ASSERT(o[i].value() && *o[i].p == m.v[i], "element");
        };
        int extra = 0;
        switch (sx::choose("op", 0, 11))
        {
            case 0: { obuf c(a); is(c, ma); break; }
            case 1: { obuf c(std::move(a)); is(c, ma); ma.n = 0; break; }
            case 2: { obuf c(a, std::allocator<owner>()); is(c, ma); break; }
            case 3: { obuf c(std::move(a), std::allocator<owner>()); is(c, ma); ma.n = 0; break; }
            case 4: { obuf c(k); SX_ASSERT(c.size() == k, "count"); for (auto& o : c) SX_ASSERT(*o.value() == 0, "count"); break; }
            case 5: { const T x = val(); obuf c(k, owner(x)); SX_ASSERT(c.size() == k, "count and value"); for (auto& o : c) SX_ASSERT(*o.value() == x, "count and value"); break; }
            case 6: { obuf c(b.begin(), b.end()); is(c, mb); break; }
            case 7: a = b; ma = mb; is(a, mb); break;
            case 8: a = std::move(b); is(a, mb); b = obuf(); ma = mb; mb.n = 0; break;
            case 9: a.swap(b); is(a, mb); is(b, ma); { M t = ma; ma = mb; mb = t; } break;
            case 10: { const T x = val(); a = {owner(x), owner(x + 1)}; ma.n = 0; ma.push(x); ma.push(x + 1); is(a, ma); break; }
            default: { const obuf c(a); SX_ASSERT(c.size() == a.size(), "copy"); b = c; mb = ma; is(b, mb); }
        }
        SX_ASSERT(owner::live == static_cast<int>(ma.n + mb.n) + extra, "as many elements are alive as the buffers have");
        is(a, ma);
        is(b, mb);
        a.push_back(owner(1));
        b.push_back(owner(2));
        ma.push(1);
        mb.push(2);
        is(a, ma);
        is(b, mb);
    }
    SX_ASSERT(owner::live == 0, "every element is destroyed");
    SX_REACH("object copies");
}
SX_ENTRY(c01_too_large, quick, "a buffer of 0..2 elements: construction, reserve and resize with any count above max_size() throw std::length_error and change nothing")
{
    buf b;
    M m;
    make(b, m, 2);
    const uint64_t n = sx::sym<uint64_t>("n");
    sx::assume(n > b.max_size());
    bool threw = false;
    try
    {
        switch (sx::choose("op", 0, 3))
        {
            case 0: b.reserve(n); break;
            case 1: b.resize(n); break;
            case 2: b.resize(n, 7u); break;
            default: buf c(static_cast<size_t>(n), T(1));
        }
    }
    catch (const std::length_error&) { threw = true; }
    SX_ASSERT(threw, "more elements than max_size() are refused");
    check(b, m);
    SX_REACH("too large");
}

SX_ENTRY(c01_long, quick, "buffers of 16, 17, 64, 100 or 257 elements, exact or with spare capacity: one operation of every kind at either end, in the middle or next to element 64, with 1, 2, 40 or 200 elements, then one more")
{
    using L = model::seq<T, 800>;
    static const size_t sizes[] = {16, 17, 64, 100, 257}, counts[] = {1, 2, 40, 200};
    L m;
    const size_t n = sizes[sx::choose("size", 0, 4)];
    buf b;
    if (sx::choose("spare", 0, 1)) b.reserve(n + 41);
    const T base = val();
    for (size_t i = 0; i < n; ++i) { const T x = base + static_cast<T>(i); b.push_back(x); m.push(x); }
    if (sx::choose("exact", 0, 1)) b.shrink_to_fit();
    check(b, m);
    const size_t pos = model::spot("pos", n);
    const T x = val();
    buf::iterator it = b.begin() + pos;
    switch (sx::choose("op", 0, 13))
    {
        case 0: it = b.insert(b.cbegin() + pos, x); m.insert(pos, x); break;
        case 1: { const size_t c = counts[sx::choose("c", 0, 3)]; it = b.insert(b.cbegin() + pos, c, x); m.insert(pos, x, c); break; }
        case 2:
        {
            const size_t c = counts[sx::choose("c", 0, 3)];
            std::vector<T> v;
            for (size_t i = 0; i < c; ++i) v.push_back(x ^ static_cast<T>(i));
            it = b.insert(b.cbegin() + pos, v.begin(), v.end());
            m.insert_range(pos, v.data(), c);
            break;
        }
        case 3: if (pos < n) { it = b.erase(b.cbegin() + pos); m.erase(pos, pos + 1); } break;
        case 4: { const size_t l = pos + (n - pos) / 2; it = b.erase(b.cbegin() + pos, b.cbegin() + l); m.erase(pos, l); break; }
        case 5: it = b.erase(b.cbegin() + pos, b.cend()); m.erase(pos, n); break;
        case 6: { const size_t c = counts[sx::choose("c", 0, 3)]; b.resize(n + c, x); m.resize(n + c, x); it = b.begin() + pos; break; }
        case 7: { const size_t c = counts[sx::choose("c", 0, 3)]; b.resize(n + c); m.resize(n + c, 0); it = b.begin() + pos; break; }
        case 8: b.resize(pos); m.resize(pos, 0); break;
        case 9: { buf c(b); check(c, m); b = c; it = b.begin() + pos; break; }
        case 10: { buf c{T(1), T(2)}; c = b; check(c, m); b = std::move(c); it = b.begin() + pos; break; }
        case 11: { const T y = m.v[n - 1]; it = b.insert(b.cbegin() + pos, 40, b.back()); m.insert(pos, y, 40); break; }
        case 12: { const T y = m.v[n - 1]; it = b.emplace(b.cbegin() + pos, b.back()); m.insert(pos, y); break; }
        default: { const T y = m.v[0]; b.push_back(b.front()); m.push(y); it = b.begin() + pos; }
    }
    SX_ASSERT(static_cast<size_t>(it - b.begin()) == pos, "the position returned");
    check(b, m);
    b.push_back(x);
    m.push(x);
    check(b, m);
    SX_REACH("long");
}
