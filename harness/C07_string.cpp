// C07: string and binary arrays read back exactly the byte strings and validity they were built from.
#include "strarr.hpp"
#include "offset.hpp"
#include "wide.hpp"

using namespace arr;
constexpr size_t N = SX_BOUND(5, 6);
constexpr size_t L = 2;
using string_array = sparrow::string_array;
using binary_array = sparrow::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, std::int32_t>;

template <class A, class T>
static void all(A& a, const SM<>& m)
{
    check_str(a, m);
    check_str_values(a, m);
    check_str_more(a, m);
}

SX_ENTRY(c07_string, quick, "string_array, n in 0..N, every length 0..2 per element, symbolic bytes and validity; from vector<string> + vector<bool>; const and mutable access")
{
    SM<> m;
    fill_str(m, sx::choose("n", 0, N), L);
    std::vector<bool> f;
    for (size_t i = 0; i < m.n; ++i) f.push_back(m.v[i].has);
    string_array a(str_values<std::string>(m), f);
    all<string_array, std::string>(a, m);
    check_str_mutable(a, m);
    SX_REACH("string");
}
SX_ENTRY(c07_binary, quick, "binary array, n in 0..N, every length 0..2 per element, symbolic bytes and validity")
{
    SM<> m;
    fill_str(m, sx::choose("n", 0, N), L);
    binary_array a(str_values<std::vector<std::byte>>(m), bitmap(m));
    all<binary_array, std::vector<std::byte>>(a, m);
    check_str_mutable(a, m);
    SX_REACH("binary");
}
SX_ENTRY(c07_long, quick, "string_array of 0..18 elements, lengths 0..4 by a fixed pattern, symbolic bytes and validity")
{
    SM<> m;
    fill_str_pattern(m, sx::choose("n", 0, 18), 5);
    string_array a(str_values<std::string>(m), bitmap(m));
    check_str(a, m);
    check_str_mutable(a, m);
}
SX_ENTRY(c07_ways, quick, "string_array, n in 0..3, lengths 0..2: values only; null positions; vector<nullable<string>>; data + offset buffers; string_view values")
{
    SM<> m;
    size_t n = sx::choose("n", 0, 3);
    fill_str(m, n, L);
    switch (sx::choose("how", 0, 5))
    {
        case 0:
        {
            for (size_t i = 0; i < n; ++i) m.v[i].has = true;
            string_array a(str_values<std::string>(m));
            all<string_array, std::string>(a, m);
            SX_REACH("values only");
            break;
        }
        case 1:
        {
            std::vector<size_t> pos;
            for (size_t i = 0; i < n; ++i) m.v[i].has = true;
            if (n)
            {
                size_t p = sx::choose("null", 0, n - 1);
                pos.push_back(p);
                m.v[p].has = false;
            }
            string_array a(str_values<std::string>(m), pos);
            all<string_array, std::string>(a, m);
            break;
        }
        case 2:
        {
            std::vector<sparrow::nullable<std::string>> v;
            for (size_t i = 0; i < n; ++i) v.push_back(sparrow::nullable<std::string>(to_string(m.v[i].x), m.v[i].has));
            string_array a(v);
            all<string_array, std::string>(a, m);
            SX_REACH("nullable");
            break;
        }
        case 3:
        {
            std::vector<char> d;
            std::vector<size_t> sizes;
            for (size_t i = 0; i < n; ++i)
            {
                for (size_t j = 0; j < m.v[i].x.n; ++j) d.push_back(static_cast<char>(m.v[i].x.c[j]));
                sizes.push_back(m.v[i].x.n);
            }
            sparrow::u8_buffer<char> data(d);
            string_array a(std::move(data), string_array::offset_from_sizes(sizes), bitmap(m));
            all<string_array, std::string>(a, m);
            SX_REACH("buffers");
            break;
        }
        case 4:
        {
            std::vector<std::string> keep = str_values<std::string>(m);
            std::vector<std::string_view> v(keep.begin(), keep.end());
            string_array a(v, bitmap(m));
            all<string_array, std::string>(a, m);
            break;
        }
        case 5:
        {
            string_array b(str_values<std::string>(m), bitmap(m));
            string_array a(b);
            all<string_array, std::string>(a, m);
            string_array c(std::move(b));
            all<string_array, std::string>(c, m);
            SX_ASSERT(a == c, "copy equals original");
            break;
        }
    }
}
SX_ENTRY(c07_symbolic_offsets, quick, "string_array of 3 (thorough 4) elements over 6 data bytes, offsets symbolic and non-decreasing from 0")
{
    constexpr size_t n = SX_BOUND(3, 4), D = 6;
    unsigned char bytes[D];
    for (auto& b : bytes) b = sx::sym<unsigned char>("b");
    size_t off[n + 1] = {0};
    for (size_t i = 1; i <= n; ++i)
    {
        off[i] = sx::range("off", 0, D);
        sx::assume(off[i] >= off[i - 1]);
    }
    sparrow::u8_buffer<char> data(D);
    for (size_t i = 0; i < D; ++i) data[i] = static_cast<char>(bytes[i]);
    sparrow::u8_buffer<int32_t> offsets(n + 1);
    for (size_t i = 0; i <= n; ++i) offsets[i] = static_cast<int32_t>(off[i]);
    const string_array a(std::move(data), std::move(offsets));
    for (size_t i = 0; i < n; ++i)
    {
        auto r = a[i];
        SX_ASSERT(r.has_value(), "valid");
        auto v = r.get();
        SX_ASSERT(v.size() == off[i + 1] - off[i], "length");
        size_t k = sx::range("k", 0, D - 1);
        if (k < v.size()) SX_ASSERT(static_cast<unsigned char>(v[k]) == bytes[off[i] + k], "byte");
    }
    SX_REACH("offsets");
}
template <class A>
static void big_strings()
{
    constexpr size_t BIG[] = {127, 255, 256, 32767, 40000, 65535, 65536, 70000};
    const size_t len[4] = {BIG[sx::choose("big", 0, 7)], 3, sx::choose("empty", 0, 1) ? 0u : 300u, 2};
    unsigned char fill[4];
    std::vector<std::string> v;
    std::vector<uint8_t> ok;
    for (size_t i = 0; i < 4; ++i)
    {
        fill[i] = sx::sym<unsigned char>("fill");
        v.push_back(std::string(len[i], 'x'));
        if (len[i]) v[i][0] = v[i][len[i] - 1] = static_cast<char>(fill[i]);
        ok.push_back(sx::flag("valid"));
    }
    A a(v, sparrow::validity_bitmap(ok));
    const A& c = a;
    for (size_t i = 0; i < 4; ++i)
    {
        auto r = c[i];
        SX_ASSERT(r.has_value() == static_cast<bool>(ok[i]), "validity");
        SX_ASSERT(r.get().size() == len[i], "length");
        if (len[i])
        {
            SX_ASSERT(static_cast<unsigned char>(r.get()[0]) == fill[i], "first byte");
            SX_ASSERT(static_cast<unsigned char>(r.get()[len[i] - 1]) == fill[i], "last byte");
            if (len[i] > 2) SX_ASSERT(r.get()[len[i] / 2] == 'x', "middle byte");
        }
        auto w = a[i];
        SX_ASSERT(w.get().size() == len[i], "length through the mutable reference");
    }
    SX_REACH("big");
}
SX_ENTRY(c07_big, quick, "4 strings, the first of 127, 255, 256, 32767, 40000, 65535, 65536 or 70000 bytes, symbolic first and last bytes and validity")
{
    big_strings<string_array>();
}
SX_ENTRY(c07_offset, quick, "string arrays over structures of another producer with 0..2 elements at offset 1, 2 or 9 (children have offsets of their own), validity omitted, counted or with null count -1, symbolic buffers: elements and iteration of the array, its copy, the array assigned from it and the type-erased copy")
{
    foreign::at_offset({foreign::L_STR});
}
SX_ENTRY(c07_wide_offset, quick, "string arrays over structures of another producer with 300 elements of chosen contents at offset 0, 1 or 257: elements, iteration, copy, a slice")
{
    foreign::wide({foreign::L_STR});
}
SX_ENTRY(c07_wide, quick, "string arrays of 257 and 300 elements of chosen contents (a byte of some of them symbolic), few or most of them null: elements, iteration, structures, of the array, its copy and after a move")
{
    zoo::owned_wide({zoo::L_STR});
}
