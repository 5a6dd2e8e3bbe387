// C12: union arrays dispatch each element to the child named by its type id.
#include "elem.hpp"
#include "offset.hpp"
#include "wide.hpp"

using namespace arr;
using sparrow::dense_union_array;
using sparrow::sparse_union_array;

struct pick { size_t child, at; };
struct model_union
{
    size_t n = 0, k = 0;
    child c[3];
    pick v[8];
};
template <class A>
static void check_union(const A& a, const model_union& m)
{
    SX_ASSERT(a.size() == m.n, "size");
    for (size_t i = 0; i < m.n; ++i)
    {
        elem_t e = a[i];
        SX_ASSERT(is(e, m.c[m.v[i].child], m.v[i].at), "operator[]");
    }
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i)
    {
        SX_ASSERT(i < m.n, "iteration length");
        SX_ASSERT(is(*it, m.c[m.v[i].child], m.v[i].at), "iteration");
    }
    SX_ASSERT(i == m.n, "iteration visits all");
    SX_ASSERT(a.cend() - a.cbegin() == static_cast<std::ptrdiff_t>(m.n), "iterator distance");
}
template <class A>
static void check_copies(A& a, const model_union& m)
{
    check_union(a, m);
    A b(a);
    check_union(b, m);
    A c(std::move(b));
    check_union(c, m);
    a = c;
    check_union(a, m);
    SX_ASSERT(a[0 < m.n ? 0 : 0].has_value() || true, "mutable access");
}
static std::vector<array> children(const model_union& m)
{
    std::vector<array> v;
    for (size_t i = 0; i < m.k; ++i) v.push_back(to_array(m.c[i]));
    return v;
}
// child -> type id: the identity, a permutation, or sparse ids
static std::vector<uint8_t> mapping(size_t k, size_t how)
{
    static const uint8_t perm[] = {2, 0, 1}, swapped[] = {1, 0}, far[] = {255, 7, 100}, tens[] = {10, 42, 5};
    std::vector<uint8_t> v;
    for (size_t i = 0; i < k; ++i)
        v.push_back(how == 1 ? (k == 3 ? perm[i] : k == 2 ? swapped[i] : 0) : how == 2 ? far[i] : how == 3 ? tens[i] : static_cast<uint8_t>(i));
    return v;
}

SX_ENTRY(c12_sparse, quick, "sparse union of 0..3 elements over 1..3 children (int32, string, double), every type-id sequence, 4 type-id mappings (implicit, permuted, two sparse ones), symbolic contents and validity; copied, moved, assigned")
{
    model_union m;
    m.n = sx::choose("n", 0, SX_BOUND(3, 4));
    m.k = sx::choose("children", 1, 3);
    static const kind kinds[] = {I32, STR, F64};
    size_t shift = sx::choose("shift", 0, 2);
    for (size_t i = 0; i < m.k; ++i) m.c[i] = make_child(kinds[(i + shift) % 3], m.n);
    size_t how = sx::choose("mapping", 0, 3);
    std::vector<uint8_t> map = mapping(m.k, how);
    sparrow::u8_buffer<uint8_t> ids(m.n);
    for (size_t i = 0; i < m.n; ++i)
    {
        m.v[i] = {sx::choose("child", 0, m.k - 1), i};
        ids[i] = map[m.v[i].child];
    }
    if (how == 0)
    {
        sparse_union_array a(children(m), std::move(ids));
        if (m.n) check_copies(a, m); else check_union(a, m);
        SX_REACH("sparse, no mapping");
    }
    else
    {
        sparse_union_array a(children(m), std::move(ids), map);
        if (m.n) check_copies(a, m); else check_union(a, m);
        SX_REACH("sparse, mapping");
    }
}
SX_ENTRY(c12_dense, quick, "dense union of 0..2 elements over 1..3 children of 2 elements each, every type-id sequence and every offset, 4 type-id mappings, symbolic contents and validity; copied, moved, assigned")
{
    model_union m;
    m.n = sx::choose("n", 0, SX_BOUND(2, 3));
    m.k = sx::choose("children", 1, 3);
    static const kind kinds[] = {I32, STR, F64};
    size_t shift = sx::choose("shift", 0, 2);
    for (size_t i = 0; i < m.k; ++i) m.c[i] = make_child(kinds[(i + shift) % 3], 2);
    size_t how = sx::choose("mapping", 0, 3);
    std::vector<uint8_t> map = mapping(m.k, how);
    sparrow::u8_buffer<uint8_t> ids(m.n);
    sparrow::u8_buffer<uint32_t> offs(m.n);
    for (size_t i = 0; i < m.n; ++i)
    {
        m.v[i] = {sx::choose("child", 0, m.k - 1), sx::choose("at", 0, 1)};
        ids[i] = map[m.v[i].child];
        offs[i] = static_cast<uint32_t>(m.v[i].at);
    }
    if (how == 0)
    {
        dense_union_array a(children(m), std::move(ids), std::move(offs));
        if (m.n) check_copies(a, m); else check_union(a, m);
        SX_REACH("dense, no mapping");
    }
    else
    {
        dense_union_array a(children(m), std::move(ids), std::move(offs), map);
        if (m.n) check_copies(a, m); else check_union(a, m);
        SX_REACH("dense, mapping");
    }
}
SX_ENTRY(c12_symbolic_map, quick, "sparse and dense unions of 2 children whose two distinct type ids are chosen among 0, 1, 9, 10, 99, 127, 128, 200, 255; type ids and dense offsets symbolic")
{
    static const uint8_t ids_of[] = {0, 1, 9, 10, 99, 127, 128, 200, 255};
    size_t p = sx::choose("id0", 0, 8), q = sx::choose("id1", 0, 8);
    sx::assume(p != q);
    std::vector<uint8_t> map{ids_of[p], ids_of[q]};
    model_union m;
    m.n = 2;
    m.k = 2;
    m.c[0] = make_child(I32, 2);
    m.c[1] = make_child(F64, 2);
    bool dense = sx::flag("dense");
    bool second[2];
    size_t at[2];
    sparrow::u8_buffer<uint8_t> ids(2);
    sparrow::u8_buffer<uint32_t> offs(2);
    for (size_t i = 0; i < 2; ++i)
    {
        second[i] = sx::flag("second");
        at[i] = dense ? sx::range("at", 0, 1) : i;
        ids[i] = second[i] ? map[1] : map[0];
        offs[i] = static_cast<uint32_t>(at[i]);
    }
    auto check = [&](const auto& a)
    {
        for (size_t i = 0; i < 2; ++i)
        {
            elem_t e = a[i];
            if (second[i]) SX_ASSERT(is_prim<double>(e, m.c[1].d.v[at[i]]), "second child");
            else SX_ASSERT(is_prim<int32_t>(e, m.c[0].i.v[at[i]]), "first child");
        }
    };
    if (dense) { dense_union_array a(children(m), std::move(ids), std::move(offs), map); check(a); SX_REACH("dense"); }
    else { sparse_union_array a(children(m), std::move(ids), map); check(a); SX_REACH("sparse"); }
}
SX_ENTRY(c12_invalid_map, quick, "a type-id mapping whose size differs from the number of children is refused")
{
    model_union m;
    m.n = 1;
    m.k = 2;
    for (size_t i = 0; i < 2; ++i) m.c[i] = make_child(I32, 1);
    m.v[0] = {0, 0};
    std::vector<uint8_t> map{0, 1};
    if (sx::flag("more")) map.push_back(2); else map.pop_back();
    sparrow::u8_buffer<uint8_t> ids(1, uint8_t(0));
    SX_THROWS(std::invalid_argument, sparse_union_array(children(m), std::move(ids), map), "wrong mapping throws");
}
// unions that differ in everything but their class
static model_union some_union(size_t shape, std::vector<uint8_t>& map, bool dense)
{
    static const kind kinds[] = {I32, STR, F64, U8};
    model_union m;
    m.n = 3 - shape % 2;
    m.k = shape == 2 ? 3 : 2;
    for (size_t i = 0; i < m.k; ++i) m.c[i] = make_child(kinds[(i + shape) % 4], m.n);
    map = mapping(m.k, shape);
    for (size_t i = 0; i < m.n; ++i) m.v[i] = {(i + shape) % m.k, dense ? (i * 2 + shape) % m.n : i};
    return m;
}
template <class A>
static A build_union(const model_union& m, const std::vector<uint8_t>& map)
{
    sparrow::u8_buffer<uint8_t> ids(m.n);
    sparrow::u8_buffer<uint32_t> offs(m.n);
    for (size_t i = 0; i < m.n; ++i)
    {
        ids[i] = map[m.v[i].child];
        offs[i] = static_cast<uint32_t>(m.v[i].at);
    }
    if constexpr (std::is_same_v<A, dense_union_array>) return A(children(m), std::move(ids), std::move(offs), map);
    else return A(children(m), std::move(ids), map);
}
template <class A>
static void assign_unions()
{
    constexpr bool dense = std::is_same_v<A, dense_union_array>;
    std::vector<uint8_t> ma, mb;
    const model_union p = some_union(sx::choose("a", 0, 3), ma, dense), q = some_union(sx::choose("b", 0, 3), mb, dense);
    A a = build_union<A>(p, ma), b = build_union<A>(q, mb);
    switch (sx::choose("how", 0, 3))
    {
        case 0: a = b; check_union(a, q); check_union(b, q); break;
        case 1: a = std::move(b); check_union(a, q); break;
        case 2: { A c(a); a = b; b = c; check_union(a, q); check_union(b, p); break; }
        default: std::swap(a, b); check_union(a, q); check_union(b, p);
    }
    SX_REACH("assign");
}
SX_ENTRY(c12_assign, quick, "copy and move assignment and swap between two sparse or two dense unions of 4 shapes (2 or 3 children of different types, 4 type-id mappings, 2 or 3 elements), symbolic contents")
{
    if (sx::choose("dense", 0, 1)) assign_unions<dense_union_array>();
    else assign_unions<sparse_union_array>();
}
SX_ENTRY(c12_many, quick, "unions of 12 children (int32) under the identity, a reversed and a spread type-id mapping; 9 (thorough 17) elements, one of which has an arbitrary child; copied")
{
    constexpr size_t K = 12, n = SX_BOUND(9, 17);
    std::vector<uint8_t> map;
    const size_t how = sx::choose("mapping", 0, 2);
    for (size_t i = 0; i < K; ++i) map.push_back(static_cast<uint8_t>(how == 0 ? i : how == 1 ? K - 1 - i : 255 - 11 * i));
    const bool dense = sx::choose("dense", 0, 1);
    const size_t rows = dense ? 2 : n;
    std::vector<child> c;
    for (size_t i = 0; i < K; ++i) c.push_back(make_child(U8, rows));
    size_t pick[n], at[n];
    sparrow::u8_buffer<uint8_t> ids(n);
    sparrow::u8_buffer<uint32_t> offs(n);
    const size_t special = sx::choose("special", 0, n - 1), which = sx::choose("which", 0, K - 1);
    for (size_t i = 0; i < n; ++i)
    {
        pick[i] = i == special ? which : (5 * i + 1) % K;
        at[i] = dense ? (i / 3) % 2 : i;
        ids[i] = map[pick[i]];
        offs[i] = static_cast<uint32_t>(at[i]);
    }
    std::vector<array> ch;
    for (auto& x : c) ch.push_back(to_array(x));
    auto check = [&](const auto& a)
    {
        SX_ASSERT(a.size() == n, "size");
        for (size_t i = 0; i < n; ++i) SX_ASSERT(is(a[i], c[pick[i]], at[i]), "operator[]");
    };
    if (dense)
    {
        const dense_union_array a(std::move(ch), std::move(ids), std::move(offs), map);
        check(a);
        check(dense_union_array(a));
    }
    else
    {
        const sparse_union_array a(std::move(ch), std::move(ids), map);
        check(a);
        check(sparse_union_array(a));
    }
    SX_REACH("many");
}
SX_ENTRY(c12_huge, quick, "dense union of 2 elements over int32 and a (run-end encoded) child of 2^62 elements, symbolic offsets in 0..2^31-1")
{
    huge h;
    child c = make_child(I32, 2);
    std::vector<array> ch;
    const bool first = sx::choose("first", 0, 1);
    ch.push_back(first ? h.make() : to_array(c));
    ch.push_back(first ? to_array(c) : h.make());
    sparrow::u8_buffer<uint8_t> ids(2, static_cast<uint8_t>(first ? 0 : 1));
    sparrow::u8_buffer<uint32_t> offs(2);
    uint64_t at[2];
    for (size_t i = 0; i < 2; ++i)
    {
        at[i] = sx::sym<uint64_t>("at");
        sx::assume(at[i] < (uint64_t(1) << 31));
        offs[i] = static_cast<uint32_t>(at[i]);
    }
    const dense_union_array a(std::move(ch), std::move(ids), std::move(offs));
    const size_t i = sx::choose("i", 0, 1);
    SX_ASSERT(h.is_at(a[i], at[i]), "operator[]");
    const dense_union_array b(a);
    SX_ASSERT(h.is_at(b[i], at[i]), "operator[] of the copy");
    SX_REACH("huge");
}
SX_ENTRY(c12_offset, quick, "sparse and dense union arrays over structures of another producer with 0..2 elements at offset 1, 2 or 9 (children have offsets of their own), validity omitted, counted or with null count -1, symbolic buffers: elements and iteration of the array, its copy, the array assigned from it and the type-erased copy")
{
    foreign::at_offset({foreign::L_SPARSE, foreign::L_DENSE});
}
SX_ENTRY(c12_wide_offset, quick, "sparse and dense union arrays over structures of another producer with 300 elements of chosen contents at offset 0, 1 or 257: elements, iteration, copy, a slice")
{
    foreign::wide({foreign::L_SPARSE, foreign::L_DENSE});
}
SX_ENTRY(c12_wide, quick, "sparse and dense union arrays of 257 and 300 elements of chosen contents (a byte of some of them symbolic), few or most of them null: elements, iteration, structures, of the array, its copy and after a move")
{
    zoo::owned_wide({zoo::L_SPARSE, zoo::L_DENSE});
}
