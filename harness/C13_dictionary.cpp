// C13: a dictionary encoded array yields, for each valid key, the value it designates.
#include "elem.hpp"
#include "offset.hpp"
#include "wide.hpp"

using namespace arr;
using sparrow::dictionary_encoded_array;

struct dict
{
    size_t n = 0;
    child c;
    struct { size_t key; bool has; } v[12];
};
static sparrow::validity_bitmap bits(const dict& d)
{
    sparrow::validity_bitmap b(d.n, true);
    for (size_t i = 0; i < d.n; ++i) b.set(i, d.v[i].has);
    return b;
}
template <class T>
static bool is_null_of(const elem_t& e)
{
    using R = sparrow::nullable<T>;
    const R* r = get_alt<R>(e);
    return r && !r->has_value();
}
// a null of the type of the values
static bool null_elem(const elem_t& e, const child& c)
{
    if (e.has_value()) return false;
    switch (c.k)
    {
        case STR: return is_null_of<std::string_view>(e);
        case F64: return is_null_of<const double&>(e);
        case U8: return is_null_of<const uint8_t&>(e);
        default: return is_null_of<const int32_t&>(e);
    }
}
static bool good(const elem_t& e, const dict& d, size_t i)
{
    return d.v[i].has ? is(e, d.c, d.v[i].key) : null_elem(e, d.c);
}
template <class A>
static void check_dict(const A& a, const dict& d)
{
    SX_ASSERT(a.size() == d.n, "size");
    for (size_t i = 0; i < d.n; ++i) SX_ASSERT(good(a[i], d, i), "operator[]");
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i)
    {
        SX_ASSERT(i < d.n, "iteration length");
        SX_ASSERT(good(*it, d, i), "iteration");
    }
    SX_ASSERT(i == d.n, "iteration visits all");
    SX_ASSERT(a.cend() - a.cbegin() == static_cast<std::ptrdiff_t>(d.n), "iterator distance");
}
template <class IT>
static sparrow::u8_buffer<IT> keys(const dict& d)
{
    sparrow::u8_buffer<IT> k(d.n);
    for (size_t i = 0; i < d.n; ++i) k[i] = static_cast<IT>(d.v[i].key);
    return k;
}
template <class IT>
static void entry(size_t maxn, size_t kinds)
{
    using A = dictionary_encoded_array<IT>;
    dict d;
    size_t nv = sx::choose("values", 1, 3);
    d.c = choose_child(nv, kinds);
    d.n = sx::choose("n", 0, maxn);
    for (size_t i = 0; i < d.n; ++i) d.v[i] = {sx::choose("key", 0, nv - 1), sx::flag("valid")};
    A a(keys<IT>(d), to_array(d.c), bits(d));
    check_dict(a, d);
    A b(a);
    check_dict(b, d);
    A c(std::move(a));
    check_dict(c, d);
    A e(keys<IT>(d), to_array(d.c));
    e = b;
    check_dict(e, d);
    b = std::move(c);
    check_dict(b, d);
}
SX_ENTRY(c13_int32, quick, "int32 keys: 0..3 keys over 1..3 values of int32, string or double, every key sequence, symbolic values and validity of keys and values; copied, moved, assigned")
{
    entry<int32_t>(3, 3);
    SX_REACH("int32");
}
SX_ENTRY(c13_int8, quick, "as c13_int32 for int8 keys, 0..2 keys") { entry<int8_t>(2, 2); }
SX_ENTRY(c13_uint8, quick, "as c13_int32 for uint8 keys, 0..2 keys") { entry<uint8_t>(2, 2); }
SX_ENTRY(c13_int16, quick, "as c13_int32 for int16 keys, 0..2 keys") { entry<int16_t>(2, 1); }
SX_ENTRY(c13_uint16, quick, "as c13_int32 for uint16 keys, 0..2 keys") { entry<uint16_t>(2, 1); }
SX_ENTRY(c13_uint32, quick, "as c13_int32 for uint32 keys, 0..2 keys") { entry<uint32_t>(2, 1); }
SX_ENTRY(c13_int64, quick, "as c13_int32 for int64 keys, 0..2 keys") { entry<int64_t>(2, 1); }
SX_ENTRY(c13_uint64, quick, "as c13_int32 for uint64 keys, 0..2 keys") { entry<uint64_t>(2, 1); }
SX_ENTRY(c13_symbolic_keys, quick, "4 symbolic keys (thorough 6) over 5 symbolic int32 values, symbolic validity of both")
{
    constexpr size_t n = SX_BOUND(4, 6), nv = 5;
    child c = make_child(I32, nv);
    size_t k[n];
    bool h[n];
    sparrow::u8_buffer<uint8_t> kb(n);
    sparrow::validity_bitmap b(n, true);
    for (size_t i = 0; i < n; ++i)
    {
        k[i] = sx::range("key", 0, nv - 1);
        h[i] = sx::flag("valid");
        kb[i] = static_cast<uint8_t>(k[i]);
        b.set(i, h[i]);
    }
    const dictionary_encoded_array<uint8_t> a(std::move(kb), to_array(c), std::move(b));
    for (size_t i = 0; i < n; ++i)
    {
        elem_t e = a[i];
        SX_ASSERT(e.has_value() == (h[i] && c.i.v[k[i]].has), "null exactly when the key or its value is");
        if (h[i]) SX_ASSERT(is_prim<int32_t>(e, c.i.v[k[i]]), "the value of the key");
    }
    SX_REACH("symbolic keys");
}
SX_ENTRY(c13_two, quick, "two arrays with the same key type and values of different types (int32, string, double, uint8): the nulls of each have the type of its values")
{
    size_t ka = sx::choose("ka", 0, 3), kb = sx::choose("kb", 0, 3);
    dict p, q;
    p.c = make_child(static_cast<kind>(ka), 1);
    q.c = make_child(static_cast<kind>(kb), 1);
    p.n = q.n = 2;
    for (size_t i = 0; i < 2; ++i)
    {
        p.v[i] = {0, sx::flag("valid")};
        q.v[i] = {0, sx::flag("valid")};
    }
    dictionary_encoded_array<int16_t> a(keys<int16_t>(p), to_array(p.c), bits(p));
    dictionary_encoded_array<int16_t> b(keys<int16_t>(q), to_array(q.c), bits(q));
    check_dict(a, p);
    check_dict(b, q);
    check_dict(a, p);
    SX_REACH("two");
}
SX_ENTRY(c13_big_dictionary, quick, "uint8 and int8 keys reaching 127, 128 and 255: dictionary of 256 uint8 values, 2 keys")
{
    static const size_t pos[] = {0, 1, 127, 128, 254, 255};
    M<uint8_t, 24> few;
    std::vector<uint8_t> v(256);
    for (size_t i = 0; i < 256; ++i) v[i] = static_cast<uint8_t>(255 - i);
    size_t k[2] = {pos[sx::choose("k0", 0, 5)], pos[sx::choose("k1", 0, 5)]};
    sparrow::u8_buffer<uint8_t> kb(2);
    for (size_t i = 0; i < 2; ++i) kb[i] = static_cast<uint8_t>(k[i]);
    const dictionary_encoded_array<uint8_t> a(std::move(kb), array(sparrow::primitive_array<uint8_t>(v)));
    for (size_t i = 0; i < 2; ++i) SX_ASSERT(is_prim<uint8_t>(a[i], opt<uint8_t>{static_cast<uint8_t>(255 - k[i]), true}), "value");
}
SX_ENTRY(c13_list_values, quick, "int32 keys over a dictionary of lists of int32: 0..2 keys over 2 lists of length 0..2")
{
    size_t l0 = sx::choose("l0", 0, 2), l1 = sx::choose("l1", 0, 2), n = sx::choose("n", 0, 2);
    child c = make_child(I32, l0 + l1);
    sparrow::u8_buffer<int32_t> o(3);
    o[0] = 0; o[1] = static_cast<int32_t>(l0); o[2] = static_cast<int32_t>(l0 + l1);
    size_t k[2];
    sparrow::u8_buffer<int32_t> kb(n);
    for (size_t i = 0; i < n; ++i) kb[i] = static_cast<int32_t>(k[i] = sx::choose("key", 0, 1));
    dictionary_encoded_array<int32_t> a(std::move(kb), array(sparrow::list_array(to_array(c), std::move(o))));
    dictionary_encoded_array<int32_t> b(a);
    for (const auto* x : {&a, &b})
        for (size_t i = 0; i < n; ++i)
        {
            elem_t e = (*x)[i];
            const auto* l = get_alt<sparrow::nullable<sparrow::list_value>>(e);
            SX_ASSERT(l && l->has_value(), "a list");
            size_t at = k[i] ? l0 : 0;
            SX_ASSERT(l->get().size() == (k[i] ? l1 : l0), "list size");
            for (size_t j = 0; j < l->get().size(); ++j) SX_ASSERT(is(l->get()[j], c, at + j), "list element");
        }
}
template <class IT>
static void huge_dictionary(const huge& h)
{
    IT k[2];
    sparrow::u8_buffer<IT> kb(2);
    for (size_t i = 0; i < 2; ++i)
    {
        k[i] = sx::sym<IT>("key");
        sx::assume((k[i] >= IT(0)) & (static_cast<uint64_t>(k[i]) < huge::SIZE));
        kb[i] = k[i];
    }
    const dictionary_encoded_array<IT> a(std::move(kb), h.make());
    const dictionary_encoded_array<IT> b(a);
    const size_t i = sx::choose("i", 0, 1);
    SX_ASSERT(h.is_at(a[i], static_cast<uint64_t>(k[i])), "the value of the key");
    SX_ASSERT(h.is_at(b[i], static_cast<uint64_t>(k[i])), "the value of the key in the copy");
    SX_ASSERT(h.is_at(*(a.cbegin() + static_cast<std::ptrdiff_t>(i)), static_cast<uint64_t>(k[i])), "the value of the key through an iterator");
}
SX_ENTRY(c13_huge, quick, "2 symbolic keys of every integer type, over its whole non-negative range below 2^62, into a (run-end encoded) dictionary of 2^62 values; also the copy")
{
    huge h;
    switch (sx::choose("type", 0, 7))
    {
        case 0: huge_dictionary<uint8_t>(h); break;
        case 1: huge_dictionary<int8_t>(h); break;
        case 2: huge_dictionary<uint16_t>(h); break;
        case 3: huge_dictionary<int16_t>(h); break;
        case 4: huge_dictionary<uint32_t>(h); break;
        case 5: huge_dictionary<int32_t>(h); break;
        case 6: huge_dictionary<uint64_t>(h); break;
        default: huge_dictionary<int64_t>(h);
    }
    SX_REACH("huge");
}
SX_ENTRY(c13_assign, quick, "copy and move assignment between two arrays of the same key type with dictionaries of different types and sizes (int32, string, double, uint8) and 0..2 keys")
{
    dict p, q;
    p.c = make_child(static_cast<kind>(sx::choose("ka", 0, 3)), 1);
    q.c = make_child(static_cast<kind>(sx::choose("kb", 0, 3)), 2);
    p.n = sx::choose("np", 0, 2);
    q.n = sx::choose("nq", 0, 2);
    for (size_t i = 0; i < p.n; ++i) p.v[i] = {0, sx::flag("valid")};
    for (size_t i = 0; i < q.n; ++i) q.v[i] = {1 - i, sx::flag("valid")};
    dictionary_encoded_array<uint32_t> a(keys<uint32_t>(p), to_array(p.c), bits(p));
    dictionary_encoded_array<uint32_t> b(keys<uint32_t>(q), to_array(q.c), bits(q));
    switch (sx::choose("how", 0, 3))
    {
        case 0: a = b; check_dict(a, q); check_dict(b, q); break;
        case 1: a = std::move(b); check_dict(a, q); break;
        case 2: b = a; check_dict(b, p); check_dict(a, p); break;
        default: std::swap(a, b); check_dict(a, q); check_dict(b, p);
    }
    SX_REACH("assign");
}
SX_ENTRY(c13_offset, quick, "dictionary arrays over structures of another producer with 0..2 elements at offset 1, 2 or 9 (children have offsets of their own), validity omitted, counted or with null count -1, symbolic buffers: elements and iteration of the array, its copy, the array assigned from it and the type-erased copy")
{
    foreign::at_offset({foreign::L_DICT});
}
SX_ENTRY(c13_wide_offset, quick, "dictionary arrays over structures of another producer with 300 elements of chosen contents at offset 0, 1 or 257: elements, iteration, copy, a slice")
{
    foreign::wide({foreign::L_DICT});
}
SX_ENTRY(c13_wide, quick, "dictionary-encoded arrays of 257 and 300 elements of chosen contents (a byte of some of them symbolic), few or most of them null: elements, iteration, structures, of the array, its copy and after a move")
{
    zoo::owned_wide({zoo::L_DICT});
}
