// C18: the structures obtained from an array conform to the Arrow C data interface and encode its elements.
#include "spec.hpp"

using namespace spec;
using binary_array = sparrow::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, std::int32_t>;

static const char* format_of(layout l)
{
    switch (l)
    {
        case P_I32: return "i";
        case P_U8: return "C";
        case P_F64: return "g";
        case L_STR: return "u";
        case L_LIST: return "+l";
        case L_BIGLIST: return "+L";
        case L_LISTVIEW: return "+vl";
        case L_BIGLISTVIEW: return "+vL";
        case L_FIXED: return "+w:2";
        case L_STRUCT: case L_DEEP: return "+s";
        case L_SPARSE: return "+us:0,1";
        case L_DENSE: return "+ud:0,1";
        case L_DICT: return "c";
        case L_RUN: return "+r";
        default: return "n";
    }
}
static void check_export(const array& a, ArrowArray* arr, ArrowSchema* sch, layout l)
{
    SX_ASSERT(std::strcmp(sch->format, format_of(l)) == 0, "format");
    SX_ASSERT((sch->dictionary != nullptr) == (l == L_DICT), "dictionary");
    if (l == L_DICT) SX_ASSERT(std::strcmp(sch->dictionary->format, "u") == 0, "format of the dictionary");
    check_conforms(*arr, *sch);
    check_elements(a, *arr, *sch);
}
SX_ENTRY(c18_layouts, quick, "every layout (16) with 0..3 elements (thorough 5), symbolic contents and validity: the structures of the array, of its copy and those extracted from it; releasing them")
{
    layout l = choose_layout();
    size_t n = sx::choose("n", 0, SX_BOUND(3, 5));
    array a = make(l, n);
    {
        auto [arr, sch] = sparrow::get_arrow_structures(a);
        check_export(a, arr, sch, l);
        SX_ASSERT(sparrow::owns_arrow_array(a) && sparrow::owns_arrow_schema(a), "owned");
    }
    array b(a);
    {
        auto [arr, sch] = sparrow::get_arrow_structures(b);
        check_export(b, arr, sch, l);
    }
    auto [arr, sch] = sparrow::extract_arrow_structures(std::move(b));
    check_export(a, &arr, &sch, l);
    arr.release(&arr);
    sch.release(&sch);
    SX_ASSERT(arr.release == nullptr && sch.release == nullptr, "marked released");
    SX_REACH("layouts");
}
SX_ENTRY(c18_slices, quick, "the structures of slices and slice views of every layout with 3 elements, every bounds")
{
    layout l = choose_layout();
    size_t n = 3, b = sx::choose("start", 0, n), c = sx::choose("count", 0, n - b);
    array a = make(l, n);
    array s = sx::flag("view") ? a.slice_view(b, b + c) : a.slice(b, b + c);
    auto [arr, sch] = sparrow::get_arrow_structures(s);
    check_export(s, arr, sch, l);
    for (size_t i = 0; i < c; ++i) SX_ASSERT(is(*arr, *sch, static_cast<int64_t>(i), a[b + i]), "element of the original");
    SX_REACH("slices");
}
template <class T>
static void prim(const char* f, size_t n)
{
    M<T> m;
    fill(m, n);
    sparrow::primitive_array<T> t(values(m), bitmap(m));
    ArrowArray* arr = sparrow::get_arrow_array(t);
    ArrowSchema* sch = sparrow::get_arrow_schema(t);
    SX_ASSERT(std::strcmp(sch->format, f) == 0, "format");
    check_conforms(*arr, *sch);
    SX_ASSERT(arr->length == static_cast<int64_t>(n), "length");
    for (size_t i = 0; i < n; ++i)
    {
        SX_ASSERT(valid(*arr, *sch, static_cast<int64_t>(i)) == m.v[i].has, "validity bit");
        SX_ASSERT(same<T>(load<T>(arr->buffers[1], arr->offset + static_cast<int64_t>(i)), m.v[i].x), "value");
    }
}
SX_ENTRY(c18_primitives, quick, "the 10 integer and floating point types with 0..9 elements")
{
    size_t n = sx::choose("n", 0, 9);
    switch (sx::choose("type", 0, 9))
    {
        case 0: prim<int8_t>("c", n); break;
        case 1: prim<uint8_t>("C", n); break;
        case 2: prim<int16_t>("s", n); break;
        case 3: prim<uint16_t>("S", n); break;
        case 4: prim<int32_t>("i", n); break;
        case 5: prim<uint32_t>("I", n); break;
        case 6: prim<int64_t>("l", n); break;
        case 7: prim<uint64_t>("L", n); break;
        case 8: prim<float>("f", n); break;
        default: prim<double>("g", n);
    }
    SX_REACH("primitives");
}
SX_ENTRY(c18_half, quick, "half precision arrays of 0..3 elements")
{
    size_t n = sx::choose("n", 0, 3);
    std::vector<sparrow::float16_t> v;
    uint16_t x[3];
    for (size_t i = 0; i < n; ++i)
    {
        x[i] = sx::sym<uint16_t>("x");
        sparrow::float16_t h;
        std::memcpy(&h, &x[i], 2);
        v.push_back(h);
    }
    sparrow::primitive_array<sparrow::float16_t> t(v);
    ArrowArray* arr = sparrow::get_arrow_array(t);
    ArrowSchema* sch = sparrow::get_arrow_schema(t);
    SX_ASSERT(std::strcmp(sch->format, "e") == 0, "format");
    check_conforms(*arr, *sch);
    for (size_t i = 0; i < n; ++i) SX_ASSERT(load<uint16_t>(arr->buffers[1], static_cast<int64_t>(i)) == x[i], "value");
    SX_REACH("half");
}
SX_ENTRY(c18_no_nulls, quick, "int32 arrays of 0..9 elements built without validity, from a count and a value, from a buffer")
{
    size_t n = sx::choose("n", 0, 9);
    int32_t x[9];
    std::vector<int32_t> v;
    sparrow::u8_buffer<int32_t> buf(n);
    for (size_t i = 0; i < n; ++i) { x[i] = sx::sym<int32_t>("x"); v.push_back(x[i]); buf[i] = x[i]; }
    size_t how = sx::choose("how", 0, 2);
    using A = sparrow::primitive_array<int32_t>;
    A t = how == 0 ? A(v) : how == 1 ? A(std::move(buf)) : A(n, n ? x[0] : 0);
    ArrowArray* arr = sparrow::get_arrow_array(t);
    ArrowSchema* sch = sparrow::get_arrow_schema(t);
    check_conforms(*arr, *sch);
    SX_ASSERT(arr->null_count == 0 || arr->null_count == -1, "no null");
    for (size_t i = 0; i < n; ++i)
    {
        SX_ASSERT(valid(*arr, *sch, static_cast<int64_t>(i)), "valid");
        SX_ASSERT(load<int32_t>(arr->buffers[1], static_cast<int64_t>(i)) == (how == 2 ? x[0] : x[i]), "value");
    }
    SX_REACH("no nulls");
}
// bytes of element i per the specification
template <class A>
static void check_binary(A& t, const SM<12>& m, const char* f)
{
    ArrowArray* arr = sparrow::get_arrow_array(t);
    ArrowSchema* sch = sparrow::get_arrow_schema(t);
    SX_ASSERT(std::strcmp(sch->format, f) == 0, "format");
    check_conforms(*arr, *sch);
    SX_ASSERT(arr->length == static_cast<int64_t>(m.n), "length");
    SX_ASSERT(load<int32_t>(arr->buffers[1], 0) == 0, "first offset");
    for (size_t i = 0; i < m.n; ++i)
    {
        const int64_t at = static_cast<int64_t>(i) + arr->offset;
        SX_ASSERT(valid(*arr, *sch, static_cast<int64_t>(i)) == m.v[i].has, "validity bit");
        const int32_t b = load<int32_t>(arr->buffers[1], at), e = load<int32_t>(arr->buffers[1], at + 1);
        SX_ASSERT(b >= 0 && e >= b, "offsets");
        if (m.v[i].has)
        {
            SX_ASSERT(static_cast<size_t>(e - b) == m.v[i].x.n, "length of the element");
            for (size_t k = 0; k < m.v[i].x.n; ++k)
                SX_ASSERT(static_cast<const unsigned char*>(arr->buffers[2])[static_cast<size_t>(b) + k] == m.v[i].x.c[k], "byte");
        }
    }
}
SX_ENTRY(c18_strings, quick, "string and binary arrays of 0..2 elements of 0..2 bytes (thorough 3 elements), also after push_back, an element assignment and an erasure")
{
    SM<12> m;
    fill_str(m, sx::choose("n", 0, SX_BOUND(2, 3)), 2);
    if (sx::flag("binary"))
    {
        binary_array t(str_values<std::vector<std::byte>>(m), bitmap(m));
        check_binary(t, m, "z");
        SX_REACH("binary");
    }
    else
    {
        sparrow::string_array t(str_values<std::string>(m), bitmap(m));
        check_binary(t, m, "u");
        S s = sym_bytes(2);
        t.push_back(sparrow::make_nullable<std::string>(to_string(s)));
        m.push({s, true});
        check_binary(t, m, "u");
        S r = sym_bytes(1);
        t[0] = sparrow::make_nullable<std::string>(to_string(r), bool(m.v[0].has));  // null count: findings of C06
        m.v[0].x = r;
        check_binary(t, m, "u");
        t.erase(t.cbegin());
        for (size_t i = 0; i + 1 < m.n; ++i) m.v[i] = m.v[i + 1];
        --m.n;
        check_binary(t, m, "u");
        SX_REACH("string");
    }
}
SX_ENTRY(c18_mutated, quick, "int32 array of 0..9 elements after each of push_back, insert, erase, resize, element assignment: the structures describe the mutated array")
{
    M<int32_t> m;
    fill(m, sx::choose("n", 0, SX_BOUND(9, 17)));
    using A = sparrow::primitive_array<int32_t>;
    A t(values(m), bitmap(m));
    opt<int32_t> x{sx::sym<int32_t>("y"), sx::flag("v")};
    const sparrow::nullable<int32_t> nx(x.x, x.has);
    switch (sx::choose("op", 0, 4))
    {
        case 0: t.push_back(nx); m.push(x); break;
        case 1:
        {
            size_t p = sx::choose("p", 0, m.n);
            t.insert(sparrow::next(t.cbegin(), static_cast<std::ptrdiff_t>(p)), nx);
            m.push(x);
            for (size_t i = m.n - 1; i > p; --i) m.v[i] = m.v[i - 1];
            m.v[p] = x;
            break;
        }
        case 2:
            if (m.n)
            {
                size_t p = sx::choose("p", 0, m.n - 1);
                t.erase(sparrow::next(t.cbegin(), static_cast<std::ptrdiff_t>(p)));
                for (size_t i = p; i + 1 < m.n; ++i) m.v[i] = m.v[i + 1];
                --m.n;
            }
            break;
        case 3:
        {
            size_t k = sx::choose("k", 0, m.n + 2);
            t.resize(k, nx);
            while (m.n < k) m.push(x);
            m.n = k;
            break;
        }
        default:
            if (m.n)
            {
                // the null count of an array after element assignment: see the findings of C06
                x.has = m.v[0].has;
                t[0].get() = x.x;
                m.v[0] = x;
            }
    }
    ArrowArray* arr = sparrow::get_arrow_array(t);
    ArrowSchema* sch = sparrow::get_arrow_schema(t);
    check_conforms(*arr, *sch);
    SX_ASSERT(arr->length == static_cast<int64_t>(m.n), "length");
    for (size_t i = 0; i < m.n; ++i)
    {
        SX_ASSERT(valid(*arr, *sch, static_cast<int64_t>(i)) == m.v[i].has, "validity bit");
        SX_ASSERT(load<int32_t>(arr->buffers[1], arr->offset + static_cast<int64_t>(i)) == m.v[i].x, "value");
    }
    SX_REACH("mutated");
}
SX_ENTRY(c18_string_view, quick, "string view arrays of 2 elements of length 0, 3, 12, 13 or 15: views, prefixes, data buffers and the sizes buffer")
{
    SM<12> m;
    static const size_t len[] = {0, 3, 12, 13, 15};
    for (size_t i = 0; i < 2; ++i) m.push({sym_bytes(len[sx::choose("len", 0, 4)]), sx::flag("valid")});
    sparrow::string_view_array t(str_values<std::string>(m), bitmap(m));
    if (sx::flag("copy"))
    {
        sparrow::string_view_array u(t);
        t = std::move(u);
    }
    ArrowArray* arr = sparrow::get_arrow_array(t);
    ArrowSchema* sch = sparrow::get_arrow_schema(t);
    SX_ASSERT(std::strcmp(sch->format, "vu") == 0, "format");
    SX_ASSERT(arr->n_buffers >= 3, "number of buffers");
    const int64_t data = arr->n_buffers - 3;
    int64_t nulls = 0;
    for (size_t i = 0; i < m.n; ++i)
    {
        nulls += m.v[i].has ? 0 : 1;
        SX_ASSERT(valid(*arr, *sch, static_cast<int64_t>(i)) == m.v[i].has, "validity bit");
        const auto* view = static_cast<const unsigned char*>(arr->buffers[1]) + 16 * i;
        const S& x = m.v[i].x;
        if (!m.v[i].has) continue;
        SX_ASSERT(load<int32_t>(view, 0) == static_cast<int32_t>(x.n), "length of the view");
        if (x.n <= 12)
            for (size_t k = 0; k < x.n; ++k) SX_ASSERT(view[4 + k] == x.c[k], "inline byte");
        else
        {
            for (size_t k = 0; k < 4; ++k) SX_ASSERT(view[4 + k] == x.c[k], "prefix");
            const int32_t b = load<int32_t>(view, 2), o = load<int32_t>(view, 3);
            SX_ASSERT(b >= 0 && b < data, "buffer index");
            SX_ASSERT(o >= 0 && o + static_cast<int64_t>(x.n) <= load<int64_t>(arr->buffers[arr->n_buffers - 1], b), "buffer offset");
            for (size_t k = 0; k < x.n; ++k)
                SX_ASSERT(static_cast<const unsigned char*>(arr->buffers[2 + b])[static_cast<size_t>(o) + k] == x.c[k], "byte");
        }
    }
    SX_ASSERT(arr->null_count == nulls || arr->null_count == -1, "null count");
    SX_REACH("string view");
}
SX_ENTRY(c18_bool, finding, "bool arrays of 1..9 elements: the values as bits, least significant first")
{
    M<bool> m;
    fill(m, sx::choose("n", 1, 9));
    std::vector<bool> v;
    for (size_t i = 0; i < m.n; ++i) v.push_back(m.v[i].x);
    sparrow::primitive_array<bool> t(v, bitmap(m));
    ArrowArray* arr = sparrow::get_arrow_array(t);
    ArrowSchema* sch = sparrow::get_arrow_schema(t);
    SX_ASSERT(std::strcmp(sch->format, "b") == 0, "format");
    check_conforms(*arr, *sch);
    for (size_t i = 0; i < m.n; ++i)
        SX_ASSERT(((static_cast<const unsigned char*>(arr->buffers[1])[i / 8] >> (i % 8)) & 1) == m.v[i].x, "bool value as a bit");
}
SX_ENTRY(c18_long, quick, "every layout (16) with 9 or 17 elements (validity bits of dictionaries and nested structs partly fixed): the structures of the array, of its copy, and of its slices [1, 9), [8, n)")
{
    layout l = choose_layout();
    sparse_bits = l == L_DICT || l == L_DEEP;
    const size_t n = sx::choose("n", 0, 1) ? 17 : 9;
    array a = make(l, n);
    array x = a;
    size_t b = 0, e = n;
    switch (sx::choose("what", 0, 3))
    {
        case 0: break;
        case 1: x = array(a); break;
        case 2: b = 1; e = 9; x = a.slice(b, e); break;
        default: b = 8; x = a.slice(b, e);
    }
    auto [arr, sch] = sparrow::get_arrow_structures(x);
    check_export(x, arr, sch, l);
    for (size_t i = b; i < e; ++i) SX_ASSERT(is(*arr, *sch, static_cast<int64_t>(i - b), a[i]), "element of the original");
    SX_REACH("long");
}
SX_ENTRY(c18_wide, quick, "every layout with 300 elements of chosen contents, few or most of them null: the structures of the array, of its copy, and of its slices [1, 300) and [257, 299)")
{
    const layout l = choose_layout();
    plain = true;
    rare = sx::choose("rare", 0, 1);
    const array a = make(l, 300);
    array x = a;
    size_t b = 0, e = 300;
    switch (sx::choose("what", 0, 2))
    {
        case 0: break;
        case 1: b = 1; x = a.slice(b, e); break;
        default: b = 257; e = 299; x = a.slice(b, e);
    }
    auto [arr, sch] = sparrow::get_arrow_structures(x);
    check_export(x, arr, sch, l);
    for (size_t i = b; i < e; ++i) SX_ASSERT(is(*arr, *sch, static_cast<int64_t>(i - b), a[i]), "element of the original");
    SX_REACH("wide");
}
