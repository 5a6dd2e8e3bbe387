// C11: a struct array combines the i-th elements of its children.
#include "elem.hpp"
#include "offset.hpp"
#include "wide.hpp"

using namespace arr;
using sparrow::struct_array;
using sparrow::struct_value;

struct fields
{
    size_t n = 0, k = 0;    // elements, children
    child c[3];
    bool has[12];
};
static sparrow::validity_bitmap bits(const fields& f)
{
    sparrow::validity_bitmap b(f.n, true);
    for (size_t i = 0; i < f.n; ++i) b.set(i, f.has[i]);
    return b;
}
static fields choose_fields(size_t n, size_t k)
{
    fields f;
    f.n = n;
    f.k = k;
    for (size_t i = 0; i < k; ++i) f.c[i] = choose_child(n, 3);
    for (size_t i = 0; i < n; ++i) f.has[i] = sx::flag("svalid");
    return f;
}
static std::vector<array> children(const fields& f)
{
    std::vector<array> v;
    for (size_t i = 0; i < f.k; ++i) v.push_back(to_array(f.c[i]));
    return v;
}
static void check_value(const struct_value& v, const fields& f, size_t i)
{
    SX_ASSERT(v.size() == f.k, "one field per child");
    for (size_t j = 0; j < f.k; ++j) SX_ASSERT(is(v[j], f.c[j], i), "field");
}
static void check_struct(const struct_array& a, const fields& f)
{
    SX_ASSERT(a.size() == f.n, "size");
    SX_ASSERT(a.empty() == (f.n == 0), "empty");
    int64_t nulls = 0;
    for (size_t i = 0; i < f.n; ++i)
    {
        auto r = a[i];
        nulls += f.has[i] ? 0 : 1;
        SX_ASSERT(r.has_value() == f.has[i], "validity");
        check_value(r.get(), f, i);
    }
    SX_ASSERT(null_count(a) == nulls, "null_count");
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i)
    {
        SX_ASSERT(i < f.n, "iteration length");
        auto r = *it;
        SX_ASSERT(r.has_value() == f.has[i], "iteration validity");
        check_value(r.get(), f, i);
    }
    SX_ASSERT(i == f.n, "iteration visits all");
    i = 0;
    for (auto&& v : a.values())
    {
        SX_ASSERT(i < f.n, "values() length");
        check_value(v, f, i++);
    }
    SX_ASSERT(i == f.n, "values() visits all");
    for (size_t x = 0; x + 1 < f.n; ++x)
    {
        auto p = a[x].get(), q = a[x + 1].get();
        bool eq_fields = true;
        for (size_t j = 0; j < f.k; ++j) eq_fields = eq_fields && p[j] == q[j];
        SX_ASSERT((p == q) == eq_fields, "equality of struct values");
    }
}
SX_ENTRY(c11_struct, quick, "struct_array of 1..3 children (int32, string, double in any combination), 0..3 elements, symbolic contents and validity of children and struct; also copied, moved, assigned")
{
    fields f = choose_fields(sx::choose("n", 0, 3), sx::choose("children", 1, SX_BOUND(2, 3)));
    struct_array a(children(f), bits(f));
    check_struct(a, f);
    struct_array b(a);
    check_struct(b, f);
    bool floats = false;    // NaN differs from itself
    for (size_t i = 0; i < f.k; ++i) floats = floats || f.c[i].k == F64;
    if (!floats) SX_ASSERT(a == b, "copy equals original");
    struct_array c(std::move(b));
    check_struct(c, f);
    a = c;
    check_struct(a, f);
    SX_REACH("struct");
}
SX_ENTRY(c11_many, quick, "struct_array of 2 children of fixed kinds, 7..10 elements, symbolic contents and validity")
{
    fields f;
    f.n = sx::choose("n", 7, 10);
    f.k = 2;
    f.c[0] = make_child(I32, f.n);
    f.c[1] = make_child(STR, f.n);
    for (size_t i = 0; i < f.n; ++i) f.has[i] = sx::flag("svalid");
    struct_array a(children(f), bits(f));
    check_struct(a, f);
}
SX_ENTRY(c11_novalidity, quick, "struct_array built without validity, or from null positions, 0..3 elements")
{
    fields f = choose_fields(sx::choose("n", 0, 3), 2);
    for (size_t i = 0; i < f.n; ++i) f.has[i] = true;
    if (sx::flag("positions"))
    {
        std::vector<size_t> pos;
        if (f.n)
        {
            pos.push_back(sx::choose("null", 0, f.n - 1));
            f.has[pos[0]] = false;
        }
        struct_array a(children(f), pos);
        check_struct(a, f);
    }
    else
    {
        struct_array a(children(f));
        check_struct(a, f);
    }
}
SX_ENTRY(c11_two_equal, quick, "struct values of two arrays with the same or different contents: equality is field-wise")
{
    fields f = choose_fields(2, 2), g = f;
    // change one field of g, or none
    size_t w = sx::choose("what", 0, 3);
    for (size_t j = 0; j < 2; ++j)
    {
        child& c = g.c[j];
        if (w == j + 1)
        {
            switch (c.k)
            {
                case I32: c.i.v[1] = {sx::sym<int32_t>("x"), sx::flag("v")}; break;
                case F64: c.d.v[1] = {sx::sym<double>("x"), sx::flag("v")}; break;
                default: c.s.v[1] = {sym_bytes(sx::choose("len", 0, 1)), sx::flag("v")}; break;
            }
        }
    }
    if (w == 3) g.has[0] = sx::flag("v");
    const struct_array a(children(f), bits(f)), b(children(g), bits(g));
    bool all = true;
    for (size_t i = 0; i < 2; ++i)
    {
        bool e = true;
        for (size_t j = 0; j < 2; ++j)
        {
            const child &p = f.c[j], &q = g.c[j];
            bool same_field = has(p, i) == has(q, i);
            if (has(p, i) && has(q, i))
            {
                if (p.k == I32) same_field = p.i.v[i].x == q.i.v[i].x;
                else if (p.k == F64) same_field = p.d.v[i].x == q.d.v[i].x;
                else same_field = eq(std::string_view(reinterpret_cast<const char*>(p.s.v[i].x.c), p.s.v[i].x.n), q.s.v[i].x);
            }
            e = e && same_field;
        }
        SX_ASSERT((a[i].get() == b[i].get()) == e, "equality is field-wise");
        all = all && f.has[i] == g.has[i] && (!f.has[i] || e);
    }
    SX_ASSERT((a == b) == all, "equality of struct arrays");
    SX_REACH("equality");
}
SX_ENTRY(c11_nested, quick, "structs holding a struct and a list: 0..2 elements, symbolic contents and validity at every level")
{
    fields in = choose_fields(sx::choose("n", 0, 2), 1);
    child items = make_child(I32, 2 * in.n);
    bool lv[4], sv[4];
    sparrow::u8_buffer<int32_t> offs(in.n + 1);
    offs[0] = 0;
    sparrow::validity_bitmap lb(in.n, true), sb(in.n, true);
    for (size_t i = 0; i < in.n; ++i)
    {
        offs[i + 1] = static_cast<int32_t>(2 * i + 2);
        lb.set(i, lv[i] = sx::flag("lvalid"));
        sb.set(i, sv[i] = sx::flag("ovalid"));
    }
    std::vector<array> ch;
    ch.push_back(array(struct_array(children(in), bits(in))));
    ch.push_back(array(sparrow::list_array(to_array(items), std::move(offs), std::move(lb))));
    struct_array a(std::move(ch), std::move(sb));
    struct_array b(a);
    for (const struct_array* p : {&a, &b})
    {
        SX_ASSERT(p->size() == in.n, "size");
        for (size_t i = 0; i < in.n; ++i)
        {
            auto r = (*p)[i];
            SX_ASSERT(r.has_value() == sv[i], "outer validity");
            struct_value v = r.get();
            SX_ASSERT(v.size() == 2, "two fields");
            elem_t e0 = v[0], e1 = v[1];
            const auto* s = get_alt<sparrow::nullable<struct_value>>(e0);
            const auto* l = get_alt<sparrow::nullable<sparrow::list_value>>(e1);
            SX_ASSERT(s && l, "types of the fields");
            SX_ASSERT(s->has_value() == in.has[i], "inner struct validity");
            check_value(s->get(), in, i);
            SX_ASSERT(l->has_value() == lv[i], "inner list validity");
            SX_ASSERT(l->get().size() == 2, "inner list size");
            for (size_t j = 0; j < 2; ++j) SX_ASSERT(is(l->get()[j], items, 2 * i + j), "inner list element");
        }
    }
    SX_REACH("nested");
}
SX_ENTRY(c11_assign, quick, "two struct arrays of 1..3 children of different types and 1 or 2 elements: equality of their values (also with different numbers of fields), copy and move assignment, swap")
{
    static const kind kinds[] = {I32, STR, U8, F64};
    auto some = [](size_t shape)
    {
        fields f;
        f.n = 1 + shape / 3;
        f.k = 1 + shape % 3;
        for (size_t i = 0; i < f.k; ++i) f.c[i] = make_child(kinds[i], f.n);
        for (size_t i = 0; i < f.n; ++i) f.has[i] = sx::flag("svalid");
        return f;
    };
    const size_t sp = sx::choose("a", 0, 5), sq = sx::choose("b", 0, 5);
    const fields p = some(sp);
    fields q = some(sq);
    const bool prefix = sx::choose("prefix", 0, 1);
    if (prefix)
        for (size_t i = 0; i < p.k && i < q.k && p.n == q.n; ++i) q.c[i] = p.c[i];
    struct_array a(children(p), bits(p)), b(children(q), bits(q));
    if (p.k != q.k)
    {
        SX_ASSERT(!(a[0].get() == b[0].get()) && !(b[0].get() == a[0].get()), "values with different numbers of fields differ");
        SX_REACH("different numbers of fields");
    }
    if (p.n != q.n) SX_ASSERT(!(a == b), "arrays of different sizes differ");
    switch (sx::choose("how", 0, 3))
    {
        case 0: a = b; check_struct(a, q); check_struct(b, q); break;
        case 1: a = std::move(b); check_struct(a, q); break;
        case 2: b = a; check_struct(b, p); check_struct(a, p); break;
        default: std::swap(a, b); check_struct(a, q); check_struct(b, p);
    }
    SX_REACH("assign");
}
SX_ENTRY(c11_wide, quick, "a struct of 12 uint8 children and 2 elements (thorough 20 children), symbolic contents; copied")
{
    constexpr size_t K = SX_BOUND(12, 20);
    std::vector<child> c;
    std::vector<array> ch;
    for (size_t i = 0; i < K; ++i) { c.push_back(make_child(U8, 2)); ch.push_back(to_array(c[i])); }
    const struct_array a(std::move(ch));
    const struct_array b(a);
    for (const struct_array* x : {&a, &b})
        for (size_t i = 0; i < 2; ++i)
        {
            const struct_value v = (*x)[i].get();
            SX_ASSERT(v.size() == K, "one field per child");
            for (size_t j = 0; j < K; ++j) SX_ASSERT(is(v[j], c[j], i), "field");
        }
    SX_REACH("wide");
}
SX_ENTRY(c11_offset, quick, "struct arrays over structures of another producer with 0..2 elements at offset 1, 2 or 9 (children have offsets of their own), validity omitted, counted or with null count -1, symbolic buffers: elements and iteration of the array, its copy, the array assigned from it and the type-erased copy")
{
    foreign::at_offset({foreign::L_STRUCT, foreign::L_DEEP});
}
SX_ENTRY(c11_wide_offset, quick, "struct arrays over structures of another producer with 300 elements of chosen contents at offset 0, 1 or 257: elements, iteration, copy, a slice")
{
    foreign::wide({foreign::L_STRUCT, foreign::L_DEEP});
}
SX_ENTRY(c11_wide_owned, quick, "struct arrays of 257 and 300 elements of chosen contents (a byte of some of them symbolic), few or most of them null: elements, iteration, structures, of the array, its copy and after a move")
{
    zoo::owned_wide({zoo::L_STRUCT, zoo::L_DEEP});
}
