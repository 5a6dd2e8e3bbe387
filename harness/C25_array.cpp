// C25: the type-erased array agrees with the typed array it wraps; equality.
#include "sx.hpp"
#include <memory>
#include "zoo.hpp"

using namespace zoo;
using sparrow::data_type;

static data_type type_of(layout l)
{
    switch (l)
    {
        case P_U8: return data_type::UINT8;
        case P_F64: return data_type::DOUBLE;
        case L_STR: return data_type::STRING;
        case L_LIST: return data_type::LIST;
        case L_BIGLIST: return data_type::LARGE_LIST;
        case L_LISTVIEW: return data_type::LIST_VIEW;
        case L_BIGLISTVIEW: return data_type::LARGE_LIST_VIEW;
        case L_FIXED: return data_type::FIXED_SIZED_LIST;
        case L_STRUCT: case L_DEEP: return data_type::STRUCT;
        case L_SPARSE: return data_type::SPARSE_UNION;
        case L_DENSE: return data_type::DENSE_UNION;
        case L_DICT: return data_type::INT8;
        case L_RUN: return data_type::RUN_ENCODED;
        case L_NULL: return data_type::NA;
        default: return data_type::INT32;
    }
}
// a agrees with t
template <class T>
static void agree(const array& a, const T& t, data_type d)
{
    const size_t n = t.size();
    SX_ASSERT(a.size() == n && a.empty() == (n == 0), "size");
    SX_ASSERT(a.data_type() == d, "data type");
    for (size_t i = 0; i < n; ++i)
    {
        const elem_t e(t[i]);
        SX_ASSERT(deep(a[i], e) && deep(a.at(i), e), "element access");
    }
    if (n)
    {
        SX_ASSERT(deep(a.front(), elem_t(t[0])), "front");
        SX_ASSERT(deep(a.back(), elem_t(t[n - 1])), "back");
    }
    SX_THROWS(std::out_of_range, a.at(n), "at(size()) throws");
    size_t calls = 0;
    const bool same_type = a.visit(
        [&](const auto& v) -> bool
        {
            ++calls;
            if constexpr (std::is_same_v<std::remove_cvref_t<decltype(v)>, T>)
            {
                bool ok = v.size() == n;
                for (size_t i = 0; i < n; ++i) ok &= deep(elem_t(v[i]), elem_t(t[i]));
                return ok;
            }
            else return false;
        });
    SX_ASSERT(calls == 1 && same_type, "visit calls the function with the wrapped array");
}
SX_ENTRY(c25_agree, quick, "all 16 layouts of 0..2 elements (int8 keys, 2 list lengths), every value and validity: owned, shared and referenced typed arrays, copies and moves of the array")
{
    const layout l = choose_layout();
    const size_t n = sx::choose("n", 0, SX_BOUND(2, 3));
    const data_type d = type_of(l);
    with(l, n,
         [&](auto&& t)
         {
             using T = std::remove_cvref_t<decltype(t)>;
             const T c(t);
             switch (sx::choose("how", 0, 4))
             {
                 case 0: { array a(std::move(t)); agree(a, c, d); break; }
                 case 1:
                 {
                     array a(&t);
                     agree(a, c, d);
                     a.visit([&](const auto& v) { SX_ASSERT(static_cast<const void*>(&v) == static_cast<const void*>(&t), "a referenced array is visited itself"); });
                     const array b(a);
                     agree(b, c, d);
                     break;
                 }
                 case 2:
                 {
                     auto p = std::make_shared<T>(std::move(t));
                     array a(p);
                     a.visit([&](const auto& v) { SX_ASSERT(static_cast<const void*>(&v) == static_cast<const void*>(p.get()), "a shared array is visited itself"); });
                     p.reset();
                     agree(a, c, d);
                     auto b = std::make_unique<array>(a);
                     a = array(T(c));
                     agree(*b, c, d);
                     break;
                 }
                 case 3:
                 {
                     auto a = std::make_unique<array>(std::move(t));
                     const array b(*a);
                     a.reset();
                     agree(b, c, d);
                     break;
                 }
                 default:
                 {
                     array a(std::move(t));
                     array b(std::move(a));
                     agree(b, c, d);
                     a = b;
                     agree(a, c, d);
                     b = std::move(a);
                     agree(b, c, d);
                 }
             }
         });
}
template <class T, class E>
static void agree_values(data_type d)
{
    const size_t n = sx::choose("n", 0, 2);
    M<T, 24> m;
    fill(m, n);
    sparrow::primitive_array<E> t(values(m), bitmap(m));
    const sparrow::primitive_array<E> c(t);
    const array a(std::move(t));
    agree(a, c, d);
}
SX_ENTRY(c25_types, quick, "primitive arrays of every remaining element type, 0..2 elements")
{
    switch (sx::choose("type", 0, 7))
    {
        case 0: agree_values<int8_t, int8_t>(data_type::INT8); break;
        case 1: agree_values<int16_t, int16_t>(data_type::INT16); break;
        case 2: agree_values<uint16_t, uint16_t>(data_type::UINT16); break;
        case 3: agree_values<uint32_t, uint32_t>(data_type::UINT32); break;
        case 4: agree_values<int64_t, int64_t>(data_type::INT64); break;
        case 5: agree_values<uint64_t, uint64_t>(data_type::UINT64); break;
        case 6: agree_values<float, float>(data_type::FLOAT); break;
        default: agree_values<bool, bool>(data_type::BOOL);
    }
}
template <class K>
static void agree_keys(data_type d)
{
    const size_t n = sx::choose("n", 0, 2);
    sparrow::u8_buffer<K> keys(n);
    for (size_t i = 0; i < n; ++i) keys[i] = static_cast<K>((i + 1) % 2);
    sparrow::dictionary_encoded_array<K> t(std::move(keys), values_of(STR, 2), sym_bits(n));
    const sparrow::dictionary_encoded_array<K> c(t);
    const array a(std::move(t));
    agree(a, c, d);
}
SX_ENTRY(c25_keys, quick, "dictionary-encoded arrays with keys of every integer type, 0..2 elements")
{
    switch (sx::choose("type", 0, 6))
    {
        case 0: agree_keys<uint8_t>(data_type::UINT8); break;
        case 1: agree_keys<int16_t>(data_type::INT16); break;
        case 2: agree_keys<uint16_t>(data_type::UINT16); break;
        case 3: agree_keys<int32_t>(data_type::INT32); break;
        case 4: agree_keys<uint32_t>(data_type::UINT32); break;
        case 5: agree_keys<int64_t>(data_type::INT64); break;
        default: agree_keys<uint64_t>(data_type::UINT64);
    }
}
static bool same_elements(const array& a, const array& b)
{
    if (a.size() != b.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); ++i) ok &= deep(a[i], b[i]);
    return ok;
}
static void relate(const array& a, const array& b, bool e)
{
    SX_ASSERT((a == b) == e, "equality is equality of type, size and elements");
    SX_ASSERT((b == a) == e && (a != b) == !e, "symmetry, inequality");
}
SX_ENTRY(c25_equality, quick, "pairs of arrays of the same layout (all but double), 0..2 elements each, every value and validity")
{
    const layout l = choose_layout();
    if (l == P_F64) return;
    const size_t n = sx::choose("n", 0, 2), m = sx::choose("m", 0, 2);
    const array a = make(l, n), b = make(l, m);
    relate(a, b, same_elements(a, b));
    SX_ASSERT(a == a, "reflexivity");
    SX_ASSERT(a == array(a), "a copy is equal");
}
SX_ENTRY(c25_equality_double, quick, "pairs of arrays of doubles, 0..3 elements each, every value (NaN too) and validity")
{
    M<double, 40> x, y;
    fill(x, sx::choose("n", 0, 3));
    fill(y, sx::choose("m", 0, 3));
    bool e = x.n == y.n;
    if (e)
        for (size_t i = 0; i < x.n; ++i) e &= (x.v[i].has == y.v[i].has) & (!x.v[i].has | (x.v[i].x == y.v[i].x));
    relate(prim(x), prim(y), e);
}
SX_ENTRY(c25_equality_slices, quick, "a slice of an array of 3 elements against a slice of another at another offset, all layouts but double: equality of the elements in the slices")
{
    const layout l = choose_layout();
    if (l == P_F64) return;
    const array a = make(l, 3), b = make(l, 3);
    const size_t n = sx::choose("n", 0, 2);
    const array x = a.slice(1, 1 + n), y = b.slice_view(0, n);
    relate(x, y, same_elements(x, y));
    SX_ASSERT(x == a.slice_view(1, 1 + n), "slices of the same elements are equal");
}
SX_ENTRY(c25_equality_types, quick, "pairs of arrays of different layouts, 0..1 elements each: never equal")
{
    const layout l = choose_layout(), k = choose_layout();
    if (l == k || (l == L_STRUCT && k == L_DEEP) || (l == L_DEEP && k == L_STRUCT)) return;
    const size_t n = sx::choose("n", 0, 1);
    const array a = make(l, n), b = make(k, n);
    relate(a, b, false);
}
SX_ENTRY(c25_default, quick, "default-constructed arrays are empty")
{
    const array a;
    SX_ASSERT(a.size() == 0 && a.empty(), "empty");
    SX_THROWS(std::out_of_range, a.at(sx::sym<size_t>("i")), "at throws");
    array b(a);
    SX_ASSERT(b.empty(), "a copy is empty");
    b = make(P_I32, 1);
    SX_ASSERT(b.size() == 1 && !b.empty(), "assignment");
    b = a;
    SX_ASSERT(b.empty(), "assignment");
}
SX_ENTRY(c25_long, quick, "all 16 layouts of 9 elements (validity bits of dictionaries and nested structs partly fixed): the array agrees with the typed array, and (uint8, int32, strings) equals another of the same layout exactly when all elements do")
{
    const layout l = choose_layout();
    sparse_bits = l == L_DICT || l == L_DEEP;
    with(l, 9,
         [&](auto&& t)
         {
             using T = std::remove_cvref_t<decltype(t)>;
             const array a{T(t)};
             SX_ASSERT(a.size() == 9, "size");
             for (size_t i = 0; i < 9; ++i) SX_ASSERT(deep(a[i], elem_t(std::as_const(t)[i])), "element access");
         });
    if (l == P_I32 || l == P_U8 || l == L_STR)
    {
        const array a = make(l, 9), b = make(l, 9);
        relate(a, b, same_elements(a, b));
        SX_ASSERT(a == array(a), "a copy is equal");
    }
    SX_REACH("long");
}
SX_ENTRY(c25_wide, quick, "all 16 layouts of 300 elements of chosen contents: the array agrees with the typed array, equals its copy and no array that differs in its last elements")
{
    const layout l = choose_layout();
    plain = true;
    with(l, 300,
         [&](auto&& t)
         {
             using T = std::remove_cvref_t<decltype(t)>;
             const array a{T(t)};
             SX_ASSERT(a.size() == 300, "size");
             for (size_t i = 0; i < 300; ++i) SX_ASSERT(deep(a[i], elem_t(std::as_const(t)[i])), "element access");
         });
    const array a = make(l, 300);
    SX_ASSERT(a == array(a), "a copy is equal");
    SX_ASSERT(!(a == make(l, 299)) && !(make(l, 44) == a), "of another size");
    if (l != L_NULL) SX_ASSERT(!(a.slice(0, 298) == a.slice(2, 300)), "of other elements");
    const array b = a.slice(290, 300);
    SX_ASSERT(b == a.slice(290, 300) && b.slice(4, 10) == a.slice(294, 300), "offsets do not matter");
    SX_REACH("wide");
}
