// C09: string view / binary view arrays read back exactly what they were built from, inline or out of line.
#include "strarr.hpp"
#include "offset.hpp"
#include "sparrow/layout/variable_size_binary_view_array.hpp"

using namespace arr;
using string_view_array = sparrow::string_view_array;
using binary_view_array = sparrow::binary_view_array;
constexpr size_t LENS[] = {0, 4, 11, 12, 13, 15, 3, 16};

static void fill_view(SM<>& m, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        m.push({sym_bytes(LENS[sx::choose("len", 0, SX_BOUND(5, 7))]), sx::flag("valid")});
}

// the raw 16-byte views: length, then the bytes, or the prefix and a place in a data buffer
template <class A>
static void check_views(const A& a, const SM<>& m)
{
    const auto& p = sparrow::detail::array_access::get_arrow_proxy(a);
    const uint8_t* views = p.buffers()[1].template data<const uint8_t>();
    for (size_t i = 0; i < m.n; ++i)
    {
        const uint8_t* v = views + 16 * i;
        int32_t len;
        std::memcpy(&len, v, 4);
        const S& s = m.v[i].x;
        SX_ASSERT(len == static_cast<int32_t>(s.n), "length of the view");
        size_t in_view = s.n <= 12 ? s.n : 4;
        for (size_t j = 0; j < in_view; ++j) SX_ASSERT(v[4 + j] == s.c[j], "bytes or prefix in the view");
    }
}
template <class A>
static void check_view(A& a, const SM<>& m)
{
    check_str(a, m);
    check_str_values(a, m);
    check_str_more(a, m);
    check_str_mutable(a, m);
    check_views(a, m);
}

SX_ENTRY(c09_string, quick, "n in 0..3 strings, each of length 0, 4, 11, 12, 13 or 15 (thorough also 3, 16), symbolic bytes and validity")
{
    SM<> m;
    fill_view(m, sx::choose("n", 0, 3));
    string_view_array a(str_values<std::string>(m), bitmap(m));
    check_view(a, m);
    SX_ASSERT(std::string_view(sparrow::get_arrow_schema(a)->format) == "vu", "format of a string view");
    SX_REACH("string view");
}
SX_ENTRY(c09_binary, quick, "as c09_string for binary views")
{
    SM<> m;
    fill_view(m, sx::choose("n", 0, 2));
    std::vector<std::vector<std::byte>> keep = str_values<std::vector<std::byte>>(m);
    std::vector<std::span<const std::byte>> v;
    for (auto& k : keep) v.push_back(std::span<const std::byte>(k.data(), k.size()));
    binary_view_array a(v, bitmap(m));
    check_view(a, m);
    SX_ASSERT(std::string_view(sparrow::get_arrow_schema(a)->format) == "vz", "format of a binary view");
    SX_REACH("binary view");
}
SX_ENTRY(c09_ways, quick, "n in 0..2 strings of length 0, 4, 11..13 or 15: without validity, with null positions, from string_view, copied, moved")
{
    SM<> m;
    size_t n = sx::choose("n", 0, 2);
    fill_view(m, n);
    switch (sx::choose("how", 0, 3))
    {
        case 0:
        {
            for (size_t i = 0; i < n; ++i) m.v[i].has = true;
            string_view_array a(str_values<std::string>(m));
            check_view(a, m);
            break;
        }
        case 1:
        {
            std::vector<size_t> pos;
            for (size_t i = 0; i < n; ++i) m.v[i].has = true;
            if (n)
            {
                size_t p = sx::choose("null", 0, n - 1);
                pos.push_back(p);
                m.v[p].has = false;
            }
            string_view_array a(str_values<std::string>(m), pos);
            check_view(a, m);
            break;
        }
        case 2:
        {
            std::vector<std::string> keep = str_values<std::string>(m);
            std::vector<std::string_view> v(keep.begin(), keep.end());
            string_view_array a(v, bitmap(m));
            check_view(a, m);
            break;
        }
        case 3:
        {
            string_view_array a(str_values<std::string>(m), bitmap(m));
            string_view_array b(a);
            check_view(b, m);
            string_view_array c(std::move(a));
            check_view(c, m);
            SX_ASSERT(b == c, "copy equals original");
            b = c;
            check_view(b, m);
            SX_REACH("copies");
            break;
        }
    }
}
SX_ENTRY(c09_symbolic_length, quick, "2 strings whose lengths are symbolic in 10..14 (over the inline limit), symbolic bytes")
{
    SM<> m;
    for (size_t i = 0; i < 2; ++i)
    {
        S s = sym_bytes(14);
        s.n = sx::choose("len", 10, 14);
        m.push({s, sx::flag("valid")});
    }
    string_view_array a(str_values<std::string>(m), bitmap(m));
    check_view(a, m);
}
SX_ENTRY(c09_many, quick, "7..9 strings of lengths cycling through 0, 4, 11, 12, 13, 15, 3, 16, symbolic bytes and validity")
{
    SM<> m;
    size_t n = sx::choose("n", 7, 9), s = sx::choose("shift", 0, 3);
    for (size_t i = 0; i < n; ++i) m.push({sym_bytes(LENS[(i + s) % 8]), sx::flag("valid")});
    string_view_array a(str_values<std::string>(m), bitmap(m));
    check_view(a, m);
}
SX_ENTRY(c09_big, quick, "4 strings, the first of 12, 13, 255, 256, 32767, 40000, 65535 or 70000 bytes (stored before the others), symbolic first bytes, last byte and validity")
{
    constexpr size_t BIG[] = {12, 13, 255, 256, 32767, 40000, 65535, 70000};
    const size_t len[4] = {BIG[sx::choose("big", 0, 7)], 20, sx::choose("small", 0, 1) ? 3u : 300u, 14};
    unsigned char fill[4];
    std::vector<std::string> v;
    std::vector<uint8_t> ok;
    for (size_t i = 0; i < 4; ++i)
    {
        fill[i] = sx::sym<unsigned char>("fill");
        v.push_back(std::string(len[i], 'x'));
        v[i][1] = v[i][len[i] - 1] = static_cast<char>(fill[i]);
        ok.push_back(sx::flag("valid"));
    }
    string_view_array a(v, sparrow::validity_bitmap(ok));
    const string_view_array& c = a;
    for (size_t i = 0; i < 4; ++i)
    {
        auto r = c[i];
        SX_ASSERT(r.has_value() == static_cast<bool>(ok[i]), "validity");
        SX_ASSERT(r.get().size() == len[i], "length");
        SX_ASSERT(r.get()[0] == 'x' && static_cast<unsigned char>(r.get()[1]) == fill[i], "first bytes");
        SX_ASSERT(static_cast<unsigned char>(r.get()[len[i] - 1]) == fill[i], "last byte");
        if (len[i] > 6) SX_ASSERT(r.get()[len[i] / 2] == 'x', "middle byte");
    }
    SX_REACH("big");
}
SX_ENTRY(c09_foreign, quick, "3 string views of another producer at offset 0 or 1, inline or in the first or last of 2 or 6 data buffers, any validity, symbolic bytes") { foreign::string_view_import(); }
