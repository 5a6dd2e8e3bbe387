// C19: arrays over structures of another producer read exactly the elements they encode.
#include "offset.hpp"

using namespace foreign;

static layout L;
static node* choose_node(size_t maxn, size_t maxoff)
{
    L = choose_layout();
    size_t n = sx::choose("n", 0, maxn), off = sx::choose("offset", 0, maxoff);
    auto v = static_cast<validity>(sx::choose("validity", 0, VALIDITIES - 1));
    auto cv = static_cast<validity>(sx::choose("cvalidity", 0, 1));
    return make(L, n, off, v, cv);
}
SX_ENTRY(c19_owned, quick, "every layout (16) with 0..2 elements (thorough 3), offset 0..1 (thorough 0..2; children have offsets of their own), validity buffer omitted, counted or with null count -1, symbolic buffers of exactly the prescribed size: elements, copy, release")
{
    node* f = choose_node(SX_BOUND(2, 3), SX_BOUND(1, 2));
    ArrowArray fa = f->a;
    ArrowSchema fs = f->s;
    {
        array a(std::move(fa), std::move(fs));
        SX_ASSERT(fa.release == nullptr && fs.release == nullptr, "the moved structures are left empty");
        check_elements(a, f->a, f->s);
        array b(a);
        check_elements(b, f->a, f->s);
        array c(std::move(a));
        check_elements(c, f->a, f->s);
        {
            array d = c.slice(0, c.size());
            check_elements(d, f->a, f->s);
        }
        array keep(b);
        c = array();
        SX_ASSERT(f->ra == 1 && f->rs == 1, "released with the array");
        SX_ASSERT(b.size() == keep.size(), "the copy outlives the producer's structures");
        for (size_t i = 0; i < b.size(); ++i) SX_ASSERT(deep(b[i], keep[i]), "the copy outlives the producer's structures");
    }
    destroy(f, 1);
    SX_REACH("owned");
}
SX_ENTRY(c19_borrowed, quick, "typed arrays of every layout over borrowed structures (same shapes as c19_owned): elements by iteration and through a type-erased copy; the structures are unchanged and not released")
{
    node* f = choose_node(SX_BOUND(2, 3), 1);
    const record r = save(f);
    typed(L, f, [&](auto&& t)
    {
        using A = std::remove_cvref_t<decltype(t)>;
        SX_ASSERT(static_cast<int64_t>(t.size()) == f->a.length, "length");
        {
            array c{A(t)};    // a deep copy
            check_elements(c, f->a, f->s);
        }
        size_t i = 0;
        for (auto it = t.begin(); it != t.end(); ++it, ++i)
        {
            SX_ASSERT(i < t.size(), "iteration length");
            if constexpr (requires { elem_t(*it); })
                SX_ASSERT(is(f->a, f->s, static_cast<int64_t>(i), elem_t(*it)), "iteration");
            else if constexpr (requires { (*it).has_value(); })
                if (L != L_DICT && L != L_RUN && L != L_SPARSE && L != L_DENSE && L != L_NULL)
                    SX_ASSERT((*it).has_value() == valid(f->a, f->s, static_cast<int64_t>(i)), "iteration validity");
        }
        SX_ASSERT(i == t.size(), "iteration visits all");
        array v(std::move(t));    // still borrowed
        check_elements(v, f->a, f->s);
        SX_ASSERT(!sparrow::owns_arrow_array(v) && !sparrow::owns_arrow_schema(v), "not owned");
    });
    SX_ASSERT(unchanged(f, r), "borrowed structures are not modified");
    destroy(f, 0);
    SX_REACH("borrowed");
}
SX_ENTRY(c19_slices, quick, "slices and slice views of foreign arrays of every layout with 3 elements and offset 1")
{
    L = choose_layout();
    node* f = make(L, 3, 1, static_cast<validity>(sx::choose("validity", 0, VALIDITIES - 1)), OMITTED);
    size_t b = sx::choose("start", 0, 3), c = sx::choose("count", 0, 3 - b);
    {
        ArrowArray fa = f->a;
        ArrowSchema fs = f->s;
        array a(std::move(fa), std::move(fs));
        array s = sx::flag("view") ? a.slice_view(b, b + c) : a.slice(b, b + c);
        SX_ASSERT(s.size() == c, "size");
        for (size_t i = 0; i < c; ++i) SX_ASSERT(is(f->a, f->s, static_cast<int64_t>(b + i), s[i]), "element of the slice");
    }
    destroy(f, 1);
    SX_REACH("slices");
}
template <class T>
static void prim_entry(const char* fmt)
{
    size_t n = sx::choose("n", 0, SX_BOUND(3, 9)), off = sx::choose("offset", 0, SX_BOUND(3, 9));
    node* f = prim(fmt, sizeof(T), n, off, static_cast<validity>(sx::choose("validity", 0, VALIDITIES - 1)));
    {
        const sparrow::primitive_array<T> t(sparrow::arrow_proxy(&f->a, &f->s));
        SX_ASSERT(t.size() == n, "size");
        for (size_t i = 0; i < n; ++i)
        {
            auto r = t[i];
            SX_ASSERT(r.has_value() == valid(f->a, f->s, static_cast<int64_t>(i)), "validity");
            SX_ASSERT(same<T>(r.get(), load<T>(f->a.buffers[1], static_cast<int64_t>(i + off))), "value");
        }
        size_t i = 0;
        for (auto&& b : t.bitmap()) { SX_ASSERT(i < n && bool(b) == valid(f->a, f->s, static_cast<int64_t>(i)), "bitmap()"); ++i; }
        SX_ASSERT(i == n, "bitmap() visits all");
    }
    {
        ArrowArray fa = f->a;
        ArrowSchema fs = f->s;
        array a(std::move(fa), std::move(fs));
        check_elements(a, f->a, f->s);
    }
    destroy(f, 1);
}
SX_ENTRY(c19_primitives, quick, "the other integer and floating point formats with 0..3 elements and offset 0..3 (thorough 0..9), any validity")
{
    switch (sx::choose("type", 0, 7))
    {
        case 0: prim_entry<int8_t>("c"); break;
        case 1: prim_entry<int16_t>("s"); break;
        case 2: prim_entry<uint16_t>("S"); break;
        case 3: prim_entry<uint32_t>("I"); break;
        case 4: prim_entry<int64_t>("l"); break;
        case 5: prim_entry<uint64_t>("L"); break;
        case 6: prim_entry<int32_t>("i"); break;
        default: prim_entry<float>("f");
    }
    SX_REACH("primitives");
}
SX_ENTRY(c19_empty_strings, quick, "string arrays of 0..2 empty strings whose data buffer is omitted")
{
    size_t n = sx::choose("n", 0, 2);
    node* f = str<int32_t>("u", n, sx::choose("offset", 0, 1), COUNTED, 0, 1);
    {
        ArrowArray fa = f->a;
        ArrowSchema fs = f->s;
        array a(std::move(fa), std::move(fs));
        check_elements(a, f->a, f->s);
        array b(a);
        check_elements(b, f->a, f->s);
    }
    destroy(f, 1);
    SX_REACH("empty strings");
}
SX_ENTRY(c19_unsupported, quick, "formats sparrow does not support: an exception, and the structures are released")
{
    static const char* const formats[] = {"d:19,10", "w:4", "tsn:", "+x", "ii", "z", "Z", "U", "?"};
    const size_t which = sx::choose("format", 0, 8);
    const char* fmt = formats[which];
    const bool binary = which >= 5 && which <= 7;
    node* f = make_node(fmt, 1, 0, binary ? 3 : 2);
    unsigned char* b = buf(f, 1, 16);
    std::memset(b, 0, 16);
    if (binary) sym_buf(f, 2, 4);
    bool thrown = false;
    {
        ArrowArray fa = f->a;
        ArrowSchema fs = f->s;
        try { array a(std::move(fa), std::move(fs)); }
        catch (const std::exception&) { thrown = true; }
    }
    SX_ASSERT(thrown, "unsupported formats are rejected");
    destroy(f, 1);
}
SX_ENTRY(c19_string_view, quick, "string view arrays of 3 elements, offset 0..1, inline or in the first or last of 2 or 6 data buffers, any validity, symbolic bytes") { foreign::string_view_import(); }
SX_ENTRY(c19_bool, finding, "bool arrays of 1..9 elements packed as the format prescribes")
{
    size_t n = sx::choose("n", 1, 9);
    node* f = make_node("b", static_cast<int64_t>(n), 0, 2);
    sym_buf(f, 1, (n + 7) / 8);
    {
        const sparrow::primitive_array<bool> t(sparrow::arrow_proxy(&f->a, &f->s));
        for (size_t i = 0; i < n; ++i)
            SX_ASSERT(t[i].get() == (((f->own[1][i / 8] >> (i % 8)) & 1) != 0), "bool value");
    }
    destroy(f, 0);
}
SX_ENTRY(c19_long, quick, "every layout (16) with 10 elements and offset 0, 7 or 9, validity omitted, counted or with null count -1, symbolic buffers of exactly the prescribed size (validity bits of dictionaries and nested structs fixed): elements, copy, slices")
{
    L = choose_layout();
    concrete_validity = L == L_DICT || L == L_DEEP;
    static const size_t offs[] = {0, 7, 9};
    const size_t n = 10, off = offs[sx::choose("offset", 0, 2)];
    const auto v = static_cast<validity>(sx::choose("validity", 0, VALIDITIES - 1));
    node* f = make(L, n, off, v, v == OMITTED ? COUNTED : OMITTED);
    ArrowArray fa = f->a;
    ArrowSchema fs = f->s;
    {
        array a(std::move(fa), std::move(fs));
        check_elements(a, f->a, f->s);
        const array b(a);
        check_elements(b, f->a, f->s);
        const size_t from = sx::choose("from", 0, 1) * 6 + 1;
        const array s = sx::choose("view", 0, 1) ? a.slice_view(from, 9) : a.slice(from, 9);
        SX_ASSERT(s.size() == 9 - from, "size of the slice");
        for (size_t i = from; i < 9; ++i) SX_ASSERT(is(f->a, f->s, static_cast<int64_t>(i), s[i - from]), "element of the slice");
    }
    destroy(f, 1);
    SX_REACH("long");
}
SX_ENTRY(c19_wide, quick, "every layout (16) with 300 elements of chosen contents at offset 0, 1 or 257 (children have offsets of their own), validity omitted, counted or with null count -1: elements, iteration, copy, a slice")
{
    wide({P_I32, P_U8, P_F64, L_STR, L_LIST, L_BIGLIST, L_LISTVIEW, L_BIGLISTVIEW, L_FIXED, L_STRUCT, L_SPARSE, L_DENSE, L_DICT, L_RUN, L_NULL, L_DEEP});
}
