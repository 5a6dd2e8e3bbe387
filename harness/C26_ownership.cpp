// C26: ownership wrappers have value semantics.
#include "sx.hpp"
#include <memory>
#include <utility>
#include "sparrow/buffer/allocator.hpp"
#include "sparrow/buffer/buffer.hpp"
#include "sparrow/utils/memory.hpp"

using sparrow::any_allocator;
using sparrow::cloning_ptr;
using sparrow::value_ptr;

// an object that knows how many of its kind live, and clones as what it is
static int live = 0;
struct base
{
    int v;
    explicit base(int x) : v(x) { ++live; }
    base(const base& o) : v(o.v) { ++live; }
    base& operator=(const base&) = default;
    virtual ~base() { --live; v = -1; }
    virtual int kind() const { return 0; }
    virtual std::unique_ptr<base> clone() const { return std::make_unique<base>(*this); }
};
struct derived : base
{
    int w;
    derived(int x, int y) : base(x), w(y) {}
    int kind() const override { return 1; }
    std::unique_ptr<base> clone() const override { return std::make_unique<derived>(*this); }
};
struct model
{
    bool has = false;
    int v = 0, w = 0, k = 0;
};
template <class P>
static void is(const P& p, const model& m, const char* l)
{
    SX_ASSERT(static_cast<bool>(p) == m.has && (p.get() != nullptr) == m.has, l);
    if (!m.has) return;
    SX_ASSERT((*p).v == m.v && p->v == m.v && p.get()->v == m.v && p->kind() == m.k, l);
    if (m.k == 1) SX_ASSERT(static_cast<const derived&>(*p).w == m.w, l);
}
constexpr size_t N = 2;
SX_ENTRY(c26_cloning_ptr, quick, "every sequence of 3 of 14 operations (construct, copy, move, assign, self-assign, null, reset, release, swap) on two cloning_ptr of base or derived objects with any values")
{
    live = 0;
    {
        cloning_ptr<base> p[N];
        model m[N];
        for (size_t step = 0; step < SX_BOUND(3, 4); ++step)
        {
            const size_t i = sx::choose("i", 0, 1), j = 1 - i;
            const int v = sx::sym<int>("v"), w = sx::sym<int>("w");
            switch (sx::choose("op", 0, 13))
            {
                case 0: p[i] = cloning_ptr<base>(new base(v)); m[i] = {true, v, 0, 0}; break;
                case 1: p[i] = cloning_ptr<derived>(new derived(v, w)); m[i] = {true, v, w, 1}; break;
                case 2: p[i] = p[j]; m[i] = m[j]; if (m[i].has) SX_ASSERT(p[i].get() != p[j].get(), "a copy is another object"); break;
                case 3: { base* o = p[j].get(); p[i] = std::move(p[j]); m[i] = m[j]; m[j] = {}; SX_ASSERT(p[i].get() == o, "a move keeps the object"); break; }
                case 4: p[i] = *&p[i]; break;
                case 5: p[i] = nullptr; m[i] = {}; break;
                case 6: p[i].reset(); m[i] = {}; break;
                case 7: { base* o = new derived(v, w); p[i].reset(o); m[i] = {true, v, w, 1}; SX_ASSERT(p[i].get() == o, "reset takes the object"); break; }
                case 8: { base* o = p[i].release(); is(std::unique_ptr<base>(o), m[i], "release gives the object"); m[i] = {}; break; }
                case 9: p[i].swap(p[j]); std::swap(m[i], m[j]); break;
                case 10: { using std::swap; swap(p[i], p[j]); std::swap(m[i], m[j]); break; }
                case 11: { const cloning_ptr<base> c(p[i]); is(c, m[i], "copy"); if (m[i].has) { p[i]->v = v; is(c, m[i], "a copy is independent"); m[i].v = v; } break; }
                case 12: { cloning_ptr<base> c(std::move(p[i])); is(c, m[i], "moved"); is(p[i], {}, "moves leave the source empty"); p[i] = std::move(c); break; }
                default:
                {
                    cloning_ptr<derived> d = sparrow::make_cloning_ptr<derived>(v, w);
                    derived* o = d.get();
                    cloning_ptr<base> c(std::move(d));
                    SX_ASSERT(c.get() == o && !d, "conversion moves the object");
                    p[i] = c;
                    m[i] = {true, v, w, 1};
                }
            }
            int expected = 0;
            for (size_t x = 0; x < N; ++x)
            {
                is(p[x], m[x], "value");
                expected += m[x].has;
                SX_ASSERT((p[x] == nullptr) == !m[x].has, "comparison with null");
            }
            SX_ASSERT(live == expected, "objects are freed exactly once");
            SX_ASSERT((p[0] == p[1]) == (!m[0].has && !m[1].has), "pointers are equal exactly when they own the same");
        }
    }
    SX_ASSERT(live == 0, "everything is freed");
}
SX_ENTRY(c26_value_ptr, quick, "every sequence of 3 of 11 operations on two value_ptr with any values")
{
    live = 0;
    {
        value_ptr<base> p[N];
        model m[N];
        for (size_t step = 0; step < SX_BOUND(3, 4); ++step)
        {
            const size_t i = sx::choose("i", 0, 1), j = 1 - i;
            const int v = sx::sym<int>("v");
            switch (sx::choose("op", 0, 10))
            {
                case 0: p[i] = value_ptr<base>(base(v)); m[i] = {true, v, 0, 0}; break;
                case 1: { base o(v); p[i] = value_ptr<base>(&o); o.v = 0; m[i] = {true, v, 0, 0}; SX_ASSERT(p[i].get() != &o, "a pointer's object is copied"); break; }
                case 2: p[i] = p[j]; m[i] = m[j]; if (m[i].has) SX_ASSERT(p[i].get() != p[j].get(), "a copy is another object"); break;
                case 3: { base* o = p[j].get(); p[i] = std::move(p[j]); m[i] = m[j]; m[j] = {}; SX_ASSERT(p[i].get() == o, "a move keeps the object"); break; }
                case 4: p[i] = *&p[i]; break;
                case 5: p[i] = nullptr; m[i] = {}; break;
                case 6: p[i].reset(); m[i] = {}; break;
                case 7: std::swap(p[i], p[j]); std::swap(m[i], m[j]); break;
                case 8: { const value_ptr<base> c(p[i]); is(c, m[i], "copy"); if (m[i].has) { p[i]->v = v; is(c, m[i], "a copy is independent"); m[i].v = v; } break; }
                case 9: { value_ptr<base> c(std::move(p[i])); is(c, m[i], "moved"); is(p[i], {}, "moves leave the source empty"); p[i] = std::move(c); break; }
                default: p[i] = value_ptr<base>(static_cast<base*>(nullptr)); m[i] = {};
            }
            int expected = 0;
            for (size_t x = 0; x < N; ++x)
            {
                is(p[x], m[x], "value");
                SX_ASSERT(p[x].has_value() == m[x].has, "has_value");
                expected += m[x].has;
            }
            SX_ASSERT(live == expected, "objects are freed exactly once");
        }
    }
    SX_ASSERT(live == 0, "everything is freed");
}

// an allocator with an identity: memory carries the identity of the arena it came from
struct arena
{
    int blocks = 0;
    size_t bytes = 0;
};
template <class T>
struct tagged
{
    using value_type = T;
    arena* a;
    explicit tagged(arena* x) : a(x) {}
    T* allocate(size_t n)
    {
        ++a->blocks;
        a->bytes += n * sizeof(T);
        char* p = static_cast<char*>(::operator new(16 + n * sizeof(T)));
        std::memcpy(p, &a, sizeof a);
        std::memcpy(p + 8, &n, sizeof n);
        return reinterpret_cast<T*>(p + 16);
    }
    void deallocate(T* t, size_t n)
    {
        if (t == nullptr) return;
        char* p = reinterpret_cast<char*>(t) - 16;
        arena* from;
        size_t size;
        std::memcpy(&from, p, sizeof from);
        std::memcpy(&size, p + 8, sizeof size);
        SX_ASSERT(from == a, "memory goes back to the allocator it came from");
        SX_ASSERT(size == n, "memory goes back with its size");
        --a->blocks;
        a->bytes -= n * sizeof(T);
        ::operator delete(p);
    }
    bool operator==(const tagged& o) const { return a == o.a; }
};
// a second type of allocator
template <class T>
struct other : tagged<T>
{
    using tagged<T>::tagged;
    bool operator==(const other& o) const { return this->a == o.a; }
};
// a memory resource over an arena
struct resource : std::pmr::memory_resource
{
    tagged<char> t;
    explicit resource(arena* a) : t(a) {}
    void* do_allocate(size_t n, size_t) override { return t.allocate(n); }
    void do_deallocate(void* p, size_t n, size_t) override { t.deallocate(static_cast<char*>(p), n); }
    bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { return this == &o; }
};
using A = any_allocator<int>;
static A make_allocator(size_t kind, arena* x, arena* y, resource* r)
{
    switch (kind)
    {
        case 0: return A();
        case 1: return A(std::allocator<int>());
        case 2: { std::allocator<int> s; return A(s); }
        case 3: { const std::allocator<int> s; return A(s); }
        case 4: return A(tagged<int>(x));
        case 5: { tagged<int> t(y); return A(t); }
        case 6: return A(other<int>(x));
        case 7: return A(std::pmr::polymorphic_allocator<int>(r));
        default: { const std::pmr::polymorphic_allocator<int> t(r); return A(t); }
    }
}
static int identity(size_t kind) { return kind < 4 ? 0 : kind == 8 ? 7 : static_cast<int>(kind); }
SX_ENTRY(c26_any_allocator, quick, "pairs of 9 allocators (standard ones constructed 4 ways, two with identities, one of another type, polymorphic ones constructed 2 ways): equality, copies, moves, memory freed through copies")
{
    arena x, y, z;
    resource r(&z);
    {
        const size_t k = sx::choose("k", 0, 8), l = sx::choose("l", 0, 8);
        const A a = make_allocator(k, &x, &y, &r), b = make_allocator(l, &x, &y, &r);
        const bool e = identity(k) == identity(l);
        SX_ASSERT((a == b) == e && (b == a) == e && (a != b) == !e, "allocators are equal exactly when the allocators they hold are");
        A c(a);
        SX_ASSERT(c == a, "a copy is equal");
        const size_t n = sx::choose("n", 1, 3);
        int* p = c.allocate(n);
        const int v = sx::sym<int>("v");
        for (size_t i = 0; i < n; ++i) p[i] = v;
        A d(a.select_on_container_copy_construction());
        SX_ASSERT(d == c && d == a, "a copy is equal");
        A f(std::move(c));
        SX_ASSERT(f == d, "moves keep the allocator");
        for (size_t i = 0; i < n; ++i) SX_ASSERT(p[i] == v, "memory");
        int* q = d.allocate(2);
        q[1] = 1;
        switch (sx::choose("by", 0, 2))
        {
            case 0: d.deallocate(p, n); f.deallocate(q, 2); break;
            case 1: f.deallocate(p, n); d.deallocate(q, 2); break;
            default: { A g(f); f.deallocate(q, 2); g.deallocate(p, n); }
        }
    }
    SX_ASSERT(x.blocks == 0 && x.bytes == 0 && y.blocks == 0 && y.bytes == 0 && z.blocks == 0 && z.bytes == 0, "all memory went back");
}
SX_ENTRY(c26_buffers, quick, "two buffers with allocators with different identities, 0..3 elements: copies, moves, assignments, swaps, growth, use of the source of a move")
{
    arena x, y;
    {
        using B = sparrow::buffer<int>;
        const size_t n = sx::choose("n", 0, 3), m = sx::choose("m", 0, 2);
        int u[3], w[3];
        for (int& e : u) e = sx::sym<int>("u");
        for (int& e : w) e = sx::sym<int>("w");
        B a(u, u + n, tagged<int>(&x)), b(w, w + m, tagged<int>(&y));
        auto is = [](const B& c, const int* p, size_t k)
        {
            SX_ASSERT(c.size() == k, "size");
            for (size_t i = 0; i < k && i < c.size(); ++i) SX_ASSERT(c[i] == p[i], "element");
        };
        switch (sx::choose("op", 0, 8))
        {
            case 0: { B c(a); c.push_back(1); is(a, u, n); SX_ASSERT(c.size() == n + 1, "a copy"); c.pop_back(); is(c, u, n); break; }
            case 1: { B c(std::move(a)); is(c, u, n); c.push_back(7); break; }
            case 2: { B c(a, tagged<int>(&y)); is(c, u, n); is(a, u, n); break; }
            case 3: { B c(std::move(a), tagged<int>(&y)); is(c, u, n); break; }
            case 4: a = b; is(a, w, m); is(b, w, m); a.push_back(3); break;
            case 5: a = std::move(b); is(a, w, m); a.push_back(3); break;
            case 6: a.reserve(8); a.shrink_to_fit(); is(a, u, n); a.clear(); a.resize(2, u[0]); break;
            case 7: { B c(std::move(a)); a = b; is(a, w, m); is(c, u, n); a = std::move(c); is(a, u, n); break; }
            default: { B c(b); c = a; is(c, u, n); c = B(w, w + m, tagged<int>(&x)); is(c, w, m); }
        }
    }
    SX_ASSERT(x.blocks == 0 && x.bytes == 0 && y.blocks == 0 && y.bytes == 0, "all memory went back");
}
