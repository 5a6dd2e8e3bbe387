// C05: a primitive array built in any of the supported ways reads back exactly the values and validity given to it.
#include "arr.hpp"
#include "offset.hpp"
#include <deque>
#include "wide.hpp"

constexpr size_t N = SX_BOUND(18, 34);
using namespace arr;

template <class T>
static void by_flags()
{
    size_t n = sx::choose("n", 0, N);
    M<T> m;
    fill(m, n);
    std::vector<T> v = values(m);
    std::vector<bool> f;
    for (size_t i = 0; i < n; ++i) f.push_back(m.v[i].has);
    sparrow::primitive_array<T> a(v, f);
    check<T>(a, m);
    check_more<T>(a, m);
    SX_REACH("flags");
}
SX_ENTRY(c05_flags_i32, quick, "int32, n in 0..N, values and validity flags symbolic; range + range of bool") { by_flags<int32_t>(); }
SX_ENTRY(c05_flags_u8, quick, "uint8, n in 0..N, values and validity flags symbolic") { by_flags<uint8_t>(); }
SX_ENTRY(c05_flags_i64, thorough, "int64, n in 0..N, values and validity flags symbolic") { by_flags<int64_t>(); }
SX_ENTRY(c05_flags_f64, quick, "double (all bit patterns), n in 0..N, values and validity flags symbolic") { by_flags<double>(); }
SX_ENTRY(c05_flags_u16, thorough, "uint16, n in 0..N, values and validity flags symbolic") { by_flags<uint16_t>(); }
SX_ENTRY(c05_flags_f32, thorough, "float (all bit patterns), n in 0..N, values and validity flags symbolic") { by_flags<float>(); }

SX_ENTRY(c05_bool, quick, "bool, n in 0..N, values and validity flags symbolic, read in place")
{
    size_t n = sx::choose("n", 0, N);
    M<bool> m;
    fill(m, n);
    std::vector<bool> v, f;
    for (size_t i = 0; i < n; ++i) { v.push_back(m.v[i].x); f.push_back(m.v[i].has); }
    sparrow::primitive_array<bool> a(v, f);
    check<bool>(a, m);
    SX_REACH("bool");
}
SX_ENTRY(c05_float16, quick, "float16 (all bit patterns), n in 0..N, values and validity flags symbolic")
{
    using T = sparrow::float16_t;
    size_t n = sx::choose("n", 0, N);
    M<T> m;
    std::vector<T> v;
    std::vector<bool> f;
    for (size_t i = 0; i < n; ++i)
    {
        uint16_t bits = sx::sym<uint16_t>("x");
        T t;
        std::memcpy(&t, &bits, 2);
        m.push({t, sx::flag("valid")});
        v.push_back(t);
        f.push_back(m.v[i].has);
    }
    sparrow::primitive_array<T> a(v, f);
    check<T>(a, m);
}
SX_ENTRY(c05_indices, quick, "int32, n in 1..N, up to 3 symbolic null positions (duplicates allowed), as vector<size_t>")
{
    size_t n = sx::choose("n", 1, N), k = sx::choose("k", 0, 3);
    M<int32_t> m;
    for (size_t i = 0; i < n; ++i) m.push({sx::sym<int32_t>("x"), true});
    std::vector<size_t> pos;
    for (size_t j = 0; j < k; ++j)
    {
        size_t p = sx::range("pos", 0, n - 1);
        pos.push_back(p);
        for (size_t i = 0; i < n; ++i) m.v[i].has = m.v[i].has & (i != p);
    }
    std::vector<int32_t> v = values(m);
    sparrow::primitive_array<int32_t> a(v, pos);
    check<int32_t>(a, m);
    SX_REACH("indices");
}
SX_ENTRY(c05_bitmap, quick, "int16, n in 0..N, validity_bitmap built bit by bit and moved or copied in")
{
    size_t n = sx::choose("n", 0, N);
    M<int16_t> m;
    fill(m, n);
    std::vector<int16_t> v = values(m);
    sparrow::validity_bitmap b = bitmap(m);
    if (sx::choose("how", 0, 1))
    {
        sparrow::primitive_array<int16_t> a(v, std::move(b));
        check<int16_t>(a, m);
    }
    else
    {
        sparrow::primitive_array<int16_t> a(v, b);
        check<int16_t>(a, m);
    }
    SX_REACH("bitmap");
}
SX_ENTRY(c05_ways, quick, "int32, n in 0..N: values only; (n, value); vector<nullable>; u8_buffer; list; transform view; initializer list")
{
    using P = sparrow::primitive_array<int32_t>;
    size_t n = sx::choose("n", 0, N);
    M<int32_t> m;
    switch (sx::choose("how", 0, 7))
    {
        case 0:
        {
            for (size_t i = 0; i < n; ++i) m.push({sx::sym<int32_t>("x"), true});
            std::vector<int32_t> v = values(m);
            P a(v);
            check<int32_t>(a, m);
            SX_REACH("values only");
            break;
        }
        case 1:
        {
            int32_t x = sx::sym<int32_t>("x");
            for (size_t i = 0; i < n; ++i) m.push({x, true});
            P a(n, x);
            check<int32_t>(a, m);
            break;
        }
        case 2:
        {
            fill(m, n);
            std::vector<sparrow::nullable<int32_t>> v;
            for (size_t i = 0; i < n; ++i) v.push_back(sparrow::nullable<int32_t>(m.v[i].x, m.v[i].has));
            P a(v);
            check<int32_t>(a, m);
            SX_REACH("nullable");
            break;
        }
        case 3:
        {
            fill(m, n);
            std::vector<int32_t> v = values(m);
            sparrow::u8_buffer<int32_t> b(v);
            P a(std::move(b), bitmap(m));
            check<int32_t>(a, m);
            SX_REACH("u8_buffer");
            break;
        }
        case 4:
        {
            fill(m, n);
            std::deque<int32_t> l;
            for (size_t i = 0; i < n; ++i) l.push_back(m.v[i].x);
            P a(l, bitmap(m));
            check<int32_t>(a, m);
            break;
        }
        case 5:
        {
            int32_t k = sx::sym<int32_t>("k");
            for (size_t i = 0; i < n; ++i) m.push({static_cast<int32_t>(static_cast<uint32_t>(i) ^ static_cast<uint32_t>(k)), true});
            auto view = std::views::iota(size_t(0), n)
                        | std::views::transform([k](size_t i) { return static_cast<int32_t>(static_cast<uint32_t>(i) ^ static_cast<uint32_t>(k)); });
            P a(view);
            check<int32_t>(a, m);
            SX_REACH("view");
            break;
        }
        case 6:
        {
            sx::assume(n == 3);
            for (size_t i = 0; i < 3; ++i) m.push({sx::sym<int32_t>("x"), true});
            P a{m.v[0].x, m.v[1].x, m.v[2].x};
            check<int32_t>(a, m);
            SX_REACH("init list");
            break;
        }
        case 7:
        {
            // values of another type are converted
            for (size_t i = 0; i < n; ++i) m.push({0, true});
            std::vector<int8_t> v;
            for (size_t i = 0; i < n; ++i) { int8_t x = sx::sym<int8_t>("x"); v.push_back(x); m.v[i].x = x; }
            P a(v);
            check<int32_t>(a, m);
            break;
        }
    }
}
SX_ENTRY(c05_sequences, quick, "int32, n in 0..6: copy, move and assignment of the array keep the sequence")
{
    using P = sparrow::primitive_array<int32_t>;
    size_t n = sx::choose("n", 0, 6), k = sx::choose("k", 0, 2);
    M<int32_t> m, o;
    fill(m, n);
    fill(o, k);
    std::vector<int32_t> v = values(m), w = values(o);
    P a(v, bitmap(m)), b(w, bitmap(o));
    switch (sx::choose("op", 0, 3))
    {
        case 0: { P c(a); check<int32_t>(c, m); check<int32_t>(a, m); SX_ASSERT(c == a, "copy is equal"); SX_REACH("copy"); break; }
        case 1: { P c(std::move(a)); check<int32_t>(c, m); break; }
        case 2: { b = a; check<int32_t>(b, m); check<int32_t>(a, m); break; }
        case 3: { b = std::move(a); check<int32_t>(b, m); SX_REACH("move assign"); break; }
    }
}

SX_ENTRY(c05_long, quick, "64, 65, 130 or 300 elements of int32, uint8, double or bool, chosen contents but for the first and last validity bit: built from flags, null positions in any order, a bitmap, nullables; copied")
{
    auto run = [&]<class T>(T)
    {
        static const size_t sizes[] = {64, 65, 130, 300};
        const size_t n = sizes[sx::choose("size", 0, 3)];
        M<T, 304> m;
        const T x = sx::sym<T>("x");
        for (size_t i = 0; i < n; ++i) m.push({i % 11 == 3 ? x : static_cast<T>(i * 37 % 256), i % 5 != 2 && i % 64 != 63});
        std::vector<T> v;
        for (size_t i = 0; i < n; ++i) v.push_back(m.v[i].x);
        using P = sparrow::primitive_array<T>;
        auto both = [&](const P& a)
        {
            check<T>(a, m);
            if constexpr (!std::is_same_v<T, bool>) check_more<T>(a, m);
            const P b(a);
            check<T>(b, m);
        };
        switch (sx::choose("how", 0, 3))
        {
            case 0:
            {
                m.v[n - 1].has = sx::flag("last");
                std::vector<bool> f;
                for (size_t i = 0; i < n; ++i) f.push_back(m.v[i].has);
                both(P(v, f));
                break;
            }
            case 1:
            {
                std::vector<size_t> pos;
                for (size_t i = n; i-- > 0;)
                    if (!m.v[i].has) { pos.push_back(i); if (i % 3 == 0) pos.push_back(i); }
                both(P(v, pos));
                break;
            }
            case 2: m.v[0].has = sx::flag("first"); both(P(v, bitmap(m))); break;
            default:
            {
                std::vector<sparrow::nullable<T>> o;
                for (size_t i = 0; i < n; ++i) o.push_back(sparrow::nullable<T>(m.v[i].x, m.v[i].has));
                both(P(o));
            }
        }
        SX_REACH("long");
    };
    switch (sx::choose("type", 0, 3))
    {
        case 0: run(int32_t()); break;
        case 1: run(uint8_t()); break;
        case 2: run(double()); break;
        default: run(bool());
    }
}
SX_ENTRY(c05_offset, quick, "primitive arrays over structures of another producer with 0..2 elements at offset 1, 2 or 9 (children have offsets of their own), validity omitted, counted or with null count -1, symbolic buffers: elements and iteration of the array, its copy, the array assigned from it and the type-erased copy")
{
    foreign::at_offset({foreign::P_I32, foreign::P_U8, foreign::P_F64});
}
SX_ENTRY(c05_wide_offset, quick, "primitive arrays over structures of another producer with 300 elements of chosen contents at offset 0, 1 or 257: elements, iteration, copy, a slice")
{
    foreign::wide({foreign::P_I32, foreign::P_U8, foreign::P_F64});
}
SX_ENTRY(c05_wide, quick, "int32, uint8 and double arrays of 257 and 300 elements of chosen contents (a byte of some of them symbolic), few or most of them null: elements, iteration, structures, of the array, its copy and after a move")
{
    zoo::owned_wide({zoo::P_I32, zoo::P_U8, zoo::P_F64});
}
