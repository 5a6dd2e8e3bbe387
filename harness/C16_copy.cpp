// C16: copies of arrays are deep, equal and independent; moves transfer the contents.
#include "zoo.hpp"
#include "foreign.hpp"

using namespace zoo;
using binary_array = sparrow::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, std::int32_t>;

// no buffer, child or dictionary structure in common
static void check_disjoint(const ArrowArray& a, const ArrowArray& b)
{
    SX_ASSERT(a.n_buffers == b.n_buffers && a.n_children == b.n_children, "same shape");
    for (int64_t i = 0; i < a.n_buffers; ++i)
        SX_ASSERT(a.buffers[i] == nullptr || a.buffers[i] != b.buffers[i], "buffers are not shared");
    SX_ASSERT(a.buffers == nullptr || a.buffers != b.buffers, "table of buffers not shared");
    for (int64_t i = 0; i < a.n_children; ++i)
    {
        SX_ASSERT(a.children[i] != b.children[i], "children are not shared");
        check_disjoint(*a.children[i], *b.children[i]);
    }
    SX_ASSERT((a.dictionary == nullptr) == (b.dictionary == nullptr), "same dictionary shape");
    if (a.dictionary)
    {
        SX_ASSERT(a.dictionary != b.dictionary, "dictionary is not shared");
        check_disjoint(*a.dictionary, *b.dictionary);
    }
}
static void check_disjoint(const ArrowSchema& a, const ArrowSchema& b)
{
    SX_ASSERT(std::strcmp(a.format, b.format) == 0, "same format");
    SX_ASSERT(a.flags == b.flags, "same flags");
    SX_ASSERT(a.format != b.format, "format is not shared");
    SX_ASSERT((a.name == nullptr) == (b.name == nullptr), "same name");
    if (a.name)
    {
        SX_ASSERT(std::strcmp(a.name, b.name) == 0, "same name");
        SX_ASSERT(a.name != b.name, "name is not shared");
    }
    SX_ASSERT(a.n_children == b.n_children, "same number of children");
    for (int64_t i = 0; i < a.n_children; ++i)
    {
        SX_ASSERT(a.children[i] != b.children[i], "children are not shared");
        check_disjoint(*a.children[i], *b.children[i]);
    }
    SX_ASSERT((a.dictionary == nullptr) == (b.dictionary == nullptr), "same dictionary shape");
    if (a.dictionary) check_disjoint(*a.dictionary, *b.dictionary);
}
static void check_equal(const array& a, const array& b)
{
    SX_ASSERT(a.data_type() == b.data_type(), "type");
    SX_ASSERT(a.size() == b.size(), "size");
    for (size_t i = 0; i < a.size(); ++i) SX_ASSERT(deep(a[i], b[i]), "element");
    SX_ASSERT(proxy(a).null_count() == proxy(b).null_count(), "null_count");
}
static void check_copy(array& a, array& b)
{
    check_equal(a, b);
    check_disjoint(*sparrow::get_arrow_array(a), *sparrow::get_arrow_array(b));
    check_disjoint(*sparrow::get_arrow_schema(a), *sparrow::get_arrow_schema(b));
}
SX_ENTRY(c16_erased, quick, "sparrow::array of every layout (16) with 0..3 elements, copy-constructed, copy-assigned over an array of any layout, self-assigned, moved; equal, no storage in common, alive after the source is destroyed or overwritten")
{
    layout l = choose_layout();
    size_t n = sx::choose("n", 0, SX_BOUND(2, 3));
    array* a = new array(make(l, n));
    array snapshot(*a);
    check_copy(*a, snapshot);
    array b(*a);
    check_copy(*a, b);
    array c = make(l == P_U8 ? L_STRUCT : P_U8, 1);
    c = *a;
    check_copy(*a, c);
    c = *&c;
    check_equal(c, snapshot);
    *a = make(L_STR, 1);
    check_equal(b, snapshot);
    check_equal(c, snapshot);
    *a = b;
    check_copy(*a, b);
    delete a;
    check_equal(b, snapshot);
    array d(std::move(b));
    check_equal(d, snapshot);
    b = c;
    check_copy(b, c);
    c = std::move(d);
    check_equal(c, snapshot);
    check_copy(b, c);
    d = c;
    check_equal(d, snapshot);
    SX_REACH("erased");
}
// more than one byte of bitmap, arrays which start in the middle of their buffers
SX_ENTRY(c16_long, quick, "sparrow::array of every layout with 18 elements, whole or sliced from 1, 7, 9 or 15 on: copies are equal, deep and independent")
{
    static const size_t starts[] = {0, 1, 7, 9, 15};
    layout l = choose_layout();
    sparse_bits = l == L_DICT || l == L_DEEP;
    size_t n = 18, b = starts[sx::choose("start", 0, 4)];
    array whole = make(l, n);
    array a = b ? whole.slice(b, n) : array(whole);
    array c(a);
    check_copy(a, c);
    SX_ASSERT(c.size() == n - b, "size");
    for (size_t i = b; i < n; ++i) SX_ASSERT(deep(c[i - b], whole[i]), "element");
    array d = make(L_STR, 1);
    d = a;
    check_copy(a, d);
    // independent of the source
    a = make(P_U8, 1);
    check_equal(c, d);
    SX_REACH("long");
}
SX_ENTRY(c16_typed, quick, "typed arrays of every layout with 0..2 elements: copy construction and assignment (also over a longer and a shorter array), self-assignment, move construction and assignment")
{
    layout l = choose_layout();
    size_t n = sx::choose("n", 0, 2), n2 = sx::choose("n2", 0, 1) ? 3 : 0;
    with(l, n, [&](auto&& t)
    {
        using A = std::remove_cvref_t<decltype(t)>;
        array ref(A(static_cast<const A&>(t)));
        A b(static_cast<const A&>(t));
        check_disjoint(proxy(b).array(), proxy(t).array());
        check_disjoint(proxy(b).schema(), proxy(t).schema());
        // a target of the same layout
        with(l, n2, [&](auto&& u)
        {
            if constexpr (std::is_same_v<std::remove_cvref_t<decltype(u)>, A>)
            {
                A c(std::move(u));
                c = static_cast<const A&>(t);
                check_disjoint(proxy(c).array(), proxy(t).array());
                c = *&c;
                {
                    array r{A(static_cast<const A&>(c))};
                    check_equal(r, ref);
                }
                A d(std::move(c));
                c = static_cast<const A&>(d);
                {
                    A e(std::move(d));
                    d = std::move(e);
                }
                {
                    array r{std::move(d)};
                    check_equal(r, ref);
                }
                array r{std::move(c)};
                check_equal(r, ref);
            }
            return 0;
        });
        array rb(std::move(b)), rt(std::move(t));
        check_equal(rb, ref);
        check_equal(rt, ref);
        return 0;
    });
    SX_REACH("typed");
}
// one mutation of a
template <class A, class V, class Mod>
static void mutate(A& a, Mod& m, const V& x, const typename std::remove_cvref_t<decltype(m.v[0])>& mx)
{
    switch (sx::choose("op", 0, 5))
    {
        case 0: a.push_back(x); m.push(mx); break;
        case 1:
            if (m.n)
            {
                a.pop_back();
                --m.n;
            }
            break;
        case 2:
        {
            a.insert(a.cbegin(), x);
            m.push(mx);
            for (size_t i = m.n - 1; i > 0; --i) m.v[i] = m.v[i - 1];
            m.v[0] = mx;
            break;
        }
        case 3:
            if (m.n)
            {
                a.erase(a.cbegin());
                for (size_t i = 0; i + 1 < m.n; ++i) m.v[i] = m.v[i + 1];
                --m.n;
            }
            break;
        case 4:
            if (m.n)
            {
                a[m.n - 1] = x;
                m.v[m.n - 1] = mx;
            }
            break;
        default:
            a.resize(m.n + 2, x);
            m.push(mx);
            m.push(mx);
    }
}
SX_ENTRY(c16_mutate_primitive, quick, "int32 array of 0..3 elements: mutating the copy (6 operations) leaves the original unchanged and the reverse, symbolic values")
{
    M<int32_t> m;
    fill(m, sx::choose("n", 0, 3));
    using A = sparrow::primitive_array<int32_t>;
    A a(values(m), bitmap(m));
    A b(a);
    if (sx::flag("assigned"))
    {
        b.push_back(sparrow::nullable<int32_t>(1));
        b = a;
    }
    M<int32_t> mb = m;
    opt<int32_t> x{sx::sym<int32_t>("y"), sx::flag("v")};
    const sparrow::nullable<int32_t> nx(x.x, x.has);
    if (sx::flag("copy")) mutate(b, mb, nx, x);
    else mutate(a, m, nx, x);
    // null counts after element assignment: see the findings of C06
    check(a, m, false);
    check(b, mb, false);
    SX_REACH("primitive mutated");
}
SX_ENTRY(c16_mutate_string, quick, "as c16_mutate_primitive for string arrays of 0..2 elements")
{
    SM<12> m;
    fill_str_pattern(m, sx::choose("n", 0, 2), 3);
    using A = sparrow::string_array;
    A a(str_values<std::string>(m), bitmap(m));
    A b(a);
    if (sx::flag("assigned"))
    {
        b.push_back(sparrow::nullable<std::string>("z"));
        b = a;
    }
    SM<12> mb = m;
    opt<S> x{sym_bytes(2), sx::flag("v")};
    const sparrow::nullable<std::string> nx(to_string(x.x), x.has);
    if (sx::flag("copy")) mutate(b, mb, nx, x);
    else mutate(a, m, nx, x);
    check_str(a, m, false);
    check_str(b, mb, false);
    SX_REACH("string mutated");
}
SX_ENTRY(c16_binary_views, quick, "binary, string view and binary view arrays (2 elements of 1..14 bytes): copies and assignments are equal and share no buffer")
{
    SM<12> m;
    for (size_t i = 0; i < 2; ++i) m.push({sym_bytes(sx::flag("long") ? 14 : 1), sx::flag("valid")});
    auto go = [&](auto a)
    {
        using A = decltype(a);
        A b(a);
        check_disjoint(proxy(b).array(), proxy(a).array());
        A c(b);
        c = a;
        check_disjoint(proxy(c).array(), proxy(a).array());
        check_str(b, m, false);
        a = A(b);
        c = std::move(b);
        check_str(a, m, false);
        check_str(c, m, false);
    };
    switch (sx::choose("which", 0, 2))
    {
        case 0: go(binary_array(str_values<std::vector<std::byte>>(m), bitmap(m))); break;
        case 1: go(sparrow::string_view_array(str_values<std::string>(m), bitmap(m))); break;
        default: go(sparrow::binary_view_array(str_values<std::vector<std::byte>>(m), bitmap(m)));
    }
    SX_REACH("binary and views");
}
SX_ENTRY(c16_bool, quick, "bool arrays of 0..9 elements: copied, assigned, sliced (copied), type-erased")
{
    M<bool> m;
    fill(m, sx::choose("n", 0, 9));
    using A = sparrow::primitive_array<bool>;
    auto vals = [&] { std::vector<bool> v; for (size_t i = 0; i < m.n; ++i) v.push_back(m.v[i].x); return v; };
    A a(vals(), bitmap(m));
    auto check_bool = [&](const A& c, size_t from, size_t to)
    {
        SX_ASSERT(c.size() == to - from, "size");
        for (size_t i = from; i < to; ++i)
        {
            auto r = c[i - from];
            SX_ASSERT(r.has_value() == m.v[i].has, "validity");
            SX_ASSERT(r.get() == m.v[i].x, "value");
        }
    };
    A b(a);
    check_bool(b, 0, m.n);
    A c(std::vector<bool>{true});
    c = b;
    check_bool(c, 0, m.n);
    size_t s = m.n / 2;
    A d = a.slice(s, m.n);
    check_bool(d, s, m.n);
    array e(std::move(c));
    array f(e);
    for (size_t i = 0; i < m.n; ++i) SX_ASSERT(is_prim<bool>(f[i], m.v[i]), "type-erased element");
    SX_REACH("bool");
}
SX_ENTRY(c16_bool_slice_view, finding, "copies of slice views of bool arrays of 9 elements")
{
    M<bool> m;
    fill(m, 9);
    using A = sparrow::primitive_array<bool>;
    std::vector<bool> v;
    for (size_t i = 0; i < m.n; ++i) v.push_back(m.v[i].x);
    A a(v, bitmap(m));
    A s = a.slice_view(0, 9);
    A b(s);
    for (size_t i = 0; i < m.n; ++i) SX_ASSERT(b[i].get() == m.v[i].x, "value");
}
// hundreds of elements
SX_ENTRY(c16_wide, quick, "sparrow::array of every layout with 300 elements of chosen contents, whole or sliced from 1 or 257 on: copies are equal, deep and independent")
{
    static const size_t starts[] = {0, 1, 257};
    const layout l = choose_layout();
    plain = true;
    const size_t n = 300, b = starts[sx::choose("start", 0, 2)];
    const array whole = make(l, n);
    array a = b ? whole.slice(b, n) : array(whole);
    array c(a);
    check_copy(a, c);
    array d = make(L_STR, 1);
    d = c;
    SX_ASSERT(c.size() == n - b && d.size() == n - b, "size");
    a = make(P_U8, 1);
    for (size_t i = b; i < n; ++i) SX_ASSERT(deep(c[i - b], whole[i]) & deep(d[i - b], whole[i]), "element");
    SX_REACH("wide");
}
// the structures of a copy against those of another producer
static void decorate(foreign::node* f, size_t& k)
{
    static const char* const names[] = {"a name", nullptr, "", "a name of more than fifteen characters"};
    static const int64_t flags[] = {2, 0, 3, 7, 1, 6};
    f->s.name = names[k % 4];
    f->s.metadata = names[(k + 1 + k / 4) % 4];
    f->s.flags = flags[k % 6];
    ++k;
    for (auto* c : f->kid)
        if (c) decorate(c, k);
    if (f->dict) decorate(f->dict, k);
}
static bool same_text(const char* a, const char* b) { return a == nullptr || b == nullptr ? a == b : a != b && std::strcmp(a, b) == 0; }
static void check_node(const foreign::node* f, const ArrowArray* a, const ArrowSchema* s)
{
    if (s)
    {
        SX_ASSERT(same_text(f->fmt, s->format), "format");
        SX_ASSERT(same_text(f->s.name, s->name), "name");
        SX_ASSERT(same_text(f->s.metadata, s->metadata), "metadata");
        SX_ASSERT(s->flags == f->s.flags, "flags");
        SX_ASSERT(s->n_children == f->s.n_children && (s->dictionary != nullptr) == (f->dict != nullptr), "shape of the schema");
        SX_ASSERT(s->release != nullptr && s->private_data != f, "released on its own");
    }
    if (a)
    {
        SX_ASSERT(a->length == f->a.length && a->offset == f->a.offset, "length and offset");
        SX_ASSERT(a->null_count == f->a.null_count || (f->a.null_count == -1 && a->null_count == spec::nulls_of(f->a, f->s)), "null count");
        SX_ASSERT(a->n_buffers == f->a.n_buffers && a->n_children == f->a.n_children && (a->dictionary != nullptr) == (f->dict != nullptr), "shape of the array");
        for (int64_t i = 0; i < a->n_buffers; ++i)
        {
            if (f->own[i] == nullptr) continue;
            SX_ASSERT(a->buffers[i] != nullptr && a->buffers[i] != f->own[i], "a buffer of its own");
            bool ok = true;
            for (size_t k = 0; k < f->size[i]; ++k) ok &= static_cast<const unsigned char*>(a->buffers[i])[k] == f->own[i][k];
            SX_ASSERT(ok, "content of the buffer");
        }
        SX_ASSERT(a->release != nullptr && a->private_data != f, "released on its own");
    }
    for (int64_t i = 0; i < f->a.n_children; ++i) check_node(f->kid[i], a ? a->children[i] : nullptr, s ? s->children[i] : nullptr);
    if (f->dict) check_node(f->dict, a ? a->dictionary : nullptr, s ? s->dictionary : nullptr);
}
static foreign::node* other_format(size_t n, size_t off, foreign::validity v)
{
    struct fixed { const char* format; size_t width; };
    static const fixed formats[] = {{"c", 1}, {"s", 2}, {"S", 2}, {"e", 2}, {"I", 4}, {"f", 4}, {"l", 8}, {"L", 8}, {"tss:", 8}, {"tsn:UTC", 8}, {"d:19,10", 16},
                                    {"d:9,2,32", 4}, {"d:18,2,64", 8}, {"d:38,1,128", 16}, {"d:60,1,256", 32}, {"w:1", 1}, {"w:3", 3}, {"w:42", 42}};
    const size_t k = sx::choose("format", 0, 22);
    switch (k)
    {
        case 18: return foreign::str<int64_t>("U", n, off, v);
        case 19: return foreign::str<int32_t>("z", n, off, v);
        case 20: return foreign::str<int64_t>("Z", n, off, v);
        case 21:
        {
            foreign::node* f = foreign::make_node("b", static_cast<int64_t>(n), static_cast<int64_t>(off), 2);
            foreign::sym_buf(f, 1, (n + off + 7) / 8);
            foreign::make_validity(f, v);
            return f;
        }
        case 22:
        {
            foreign::node* f = foreign::make_node("+m", static_cast<int64_t>(n), static_cast<int64_t>(off), 2);
            unsigned char* o = foreign::buf(f, 1, (n + off + 1) * 4);
            for (size_t i = 0; i <= n + off; ++i) foreign::put<int32_t>(o, i, static_cast<int32_t>(i));
            foreign::add(f, foreign::make(foreign::L_STRUCT, n + off, 0, foreign::OMITTED, foreign::OMITTED), 0);
            foreign::make_validity(f, v);
            return f;
        }
        default: return foreign::prim(formats[k].format, formats[k].width, n, off, v);
    }
}
SX_ENTRY(c16_structures, quick, "structures of another producer with 0, 1 or 9 elements at offset 0, 1 or 8, every layout and 23 other formats (decimals, byte strings of fixed width, timestamps, maps, large strings), with names, metadata and flags at every level, symbolic buffers: copies of arrays, proxies and single structures are the same in every field and byte, and share nothing")
{
    static const size_t sizes[] = {0, 1, 9}, offs[] = {0, 1, 8};
    const size_t n = sizes[sx::choose("n", 0, 2)], off = offs[sx::choose("offset", 0, 2)];
    const auto v = static_cast<foreign::validity>(sx::choose("validity", 0, foreign::VALIDITIES - 1));
    const bool other = sx::choose("other", 0, 1);
    foreign::concrete_validity = true;
    foreign::layout l = other ? foreign::P_I32 : spec::choose_layout();
    foreign::node* f = other ? other_format(n, off, v) : foreign::make(l, n, off, v, v == foreign::OMITTED ? foreign::COUNTED : foreign::OMITTED);
    size_t k = sx::choose("decoration", 0, 1) * 5;
    decorate(f, k);
    const auto r = foreign::save(f);
    switch (sx::choose("copy", 0, other ? 2 : 3))
    {
        case 0:
        {
            ArrowArray a = sparrow::copy_array(f->a, f->s);
            ArrowSchema s = sparrow::copy_schema(f->s);
            check_node(f, &a, &s);
            a.release(&a);
            check_node(f, nullptr, &s);
            s.release(&s);
            break;
        }
        case 1:
        {
            const sparrow::arrow_proxy p(&f->a, &f->s);
            sparrow::arrow_proxy q(p);
            check_node(f, &q.array(), &q.schema());
            const sparrow::arrow_proxy x(q);
            check_node(f, &x.array(), &x.schema());
            break;
        }
        case 2:
        {
            const sparrow::arrow_proxy p(&f->a, &f->s);
            array t(sparrow::string_array(std::vector<std::string>{"x"}));
            sparrow::arrow_proxy& q = sparrow::detail::array_access::get_arrow_proxy(t);
            q = p;
            check_node(f, &q.array(), &q.schema());
            break;
        }
        default:
        {
            const array a(&f->a, &f->s);
            array b(a);
            check_node(f, sparrow::get_arrow_array(b), sparrow::get_arrow_schema(b));
            b = array();
        }
    }
    SX_ASSERT(foreign::unchanged(f, r), "the source is left alone");
    foreign::destroy(f, 0);
    SX_REACH("structures");
}
