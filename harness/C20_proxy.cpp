// C20: arrow_proxy setters keep the C structures, the private data and the cached views in step.
#include "foreign.hpp"

using namespace foreign;
using sparrow::arrow_proxy;
using sparrow::arrow_proxy_exception;

// a sparrow-made int32-like array of n elements with given offset (validity and data buffers are symbolic)
static ArrowArray make_array(size_t n, size_t off, unsigned char* bits, unsigned char* data)
{
    const size_t end = n + off, vb = (end + 7) / 8;
    sparrow::buffer<uint8_t> v(vb), d(end * 4);
    for (size_t i = 0; i < vb; ++i) v[i] = bits[i] = sx::sym<unsigned char>("bits");
    for (size_t i = 0; i < end * 4; ++i) d[i] = data[i] = sx::sym<unsigned char>("data");
    std::vector<sparrow::buffer<uint8_t>> b;
    b.push_back(std::move(v));
    b.push_back(std::move(d));
    int64_t nulls = 0;
    for (size_t i = off; i < end; ++i) nulls += !((bits[i / 8] >> (i % 8)) & 1);
    return sparrow::make_arrow_array(static_cast<int64_t>(n), nulls, static_cast<int64_t>(off), std::move(b), 0, nullptr, nullptr);
}
static ArrowArray make_array(size_t n, size_t off)
{
    unsigned char b[8], d[64];
    return make_array(n, off, b, d);
}
static ArrowSchema make_schema(const char* fmt = "i")
{
    using namespace std::literals;
    return sparrow::make_arrow_schema(std::string(fmt), "nm"s, "md"s, std::optional<sparrow::ArrowFlag>(sparrow::ArrowFlag::NULLABLE), 0, nullptr, nullptr);
}
static int64_t nulls_in(const unsigned char* bits, size_t n, size_t off)
{
    int64_t r = 0;
    for (size_t i = off; i < n + off; ++i) r += !((bits[i / 8] >> (i % 8)) & 1);
    return r;
}
// what every consistent proxy satisfies
static void consistent(const arrow_proxy& p)
{
    const ArrowArray& a = p.array();
    const ArrowSchema& s = p.schema();
    SX_ASSERT(static_cast<int64_t>(p.length()) == a.length, "length() is the structure's");
    SX_ASSERT(static_cast<int64_t>(p.offset()) == a.offset, "offset() is the structure's");
    SX_ASSERT(p.null_count() == a.null_count, "null_count() is the structure's");
    SX_ASSERT(static_cast<int64_t>(p.n_buffers()) == a.n_buffers, "n_buffers() is the structure's");
    SX_ASSERT(static_cast<int64_t>(p.n_children()) == a.n_children && a.n_children == s.n_children, "n_children() is the structures'");
    SX_ASSERT(p.format().data() == s.format, "format() is the schema's");
    SX_ASSERT(p.name().has_value() == (s.name != nullptr) && (!s.name || p.name()->data() == s.name), "name() is the schema's");
    SX_ASSERT(p.metadata().has_value() == (s.metadata != nullptr) && (!s.metadata || p.metadata()->data() == s.metadata), "metadata() is the schema's");
    SX_ASSERT(p.children().size() == p.n_children(), "one proxy per child");
    for (size_t i = 0; i < p.n_children(); ++i)
    {
        SX_ASSERT(&p.children()[i].array() == a.children[i] && &p.children()[i].schema() == s.children[i], "the proxy of a child is on the child's structures");
        SX_ASSERT(!p.children()[i].owns_array() && !p.children()[i].owns_schema(), "the proxy of a child does not own it");
        consistent(p.children()[i]);
    }
    SX_ASSERT((p.dictionary() == nullptr) == (a.dictionary == nullptr), "one proxy for the dictionary");
    if (p.dictionary())
    {
        SX_ASSERT(&p.dictionary()->array() == a.dictionary && &p.dictionary()->schema() == s.dictionary, "the proxy of the dictionary is on its structures");
        consistent(*p.dictionary());
    }
    for (size_t i = 0; i < p.buffers().size(); ++i)
        SX_ASSERT(p.buffers()[i].data() == a.buffers[i], "buffers() are the structure's");
}
// a string of n symbolic non-zero bytes
struct text
{
    char c[4];
    size_t n = 0;
    bool has = true;
};
static text sym_text(size_t lo, size_t hi)
{
    text t;
    t.n = sx::choose("chars", lo, hi);
    for (size_t i = 0; i < t.n; ++i)
    {
        t.c[i] = static_cast<char>(sx::sym<unsigned char>("char"));
        sx::assume(t.c[i] != 0);
    }
    t.c[t.n] = 0;
    return t;
}
static void check_text(const std::optional<const std::string_view>& got, const char* field, const text& want, const char* label)
{
    SX_ASSERT(got.has_value() == want.has, label);
    if (!want.has) return;
    SX_ASSERT(got->size() == want.n, label);
    bool ok = true;
    for (size_t i = 0; i < want.n; ++i) ok &= ((*got)[i] == want.c[i]) & (field[i] == want.c[i]);
    SX_ASSERT(ok & (field[want.n] == 0), label);
}
static arrow_proxy make_proxy(ArrowArray& a, ArrowSchema& s)
{
    switch (sx::choose("owns", 0, 2))
    {
        case 0: return arrow_proxy(std::move(a), std::move(s));
        case 1: return arrow_proxy(std::move(a), &s);
        default: return arrow_proxy(&a, &s);
    }
}
static void drop(ArrowArray& a, ArrowSchema& s)
{
    if (a.release) a.release(&a);
    if (s.release) s.release(&s);
}
SX_ENTRY(c20_strings, quick, "every sequence of 3 (thorough 4) of set_format / set_name / set_metadata / set_flags with arbitrary strings of up to 2 non-zero bytes (or absent), long strings (30 bytes), the proxy's own strings, and arbitrary flag lists, with repetitions; owning, half-owning and borrowing proxies")
{
    ArrowArray a = make_array(1, 0);
    ArrowSchema s = make_schema();
    {
        arrow_proxy p = make_proxy(a, s);
        text fmt{{'i'}, 1}, name{{'n', 'm'}, 2}, meta{{'m', 'd'}, 2};
        int64_t flags = 2;
        for (size_t k = 0; k < SX_BOUND(3, 4); ++k)
        {
            switch (sx::choose("op", 0, 4))
            {
                case 0: fmt = sym_text(1, 2); p.set_format(std::string_view(fmt.c, fmt.n)); break;
                case 1:
                    name = sym_text(0, 2);
                    name.has = sx::choose("has", 0, 1);
                    p.set_name(name.has ? std::optional<std::string_view>(std::string_view(name.c, name.n)) : std::nullopt);
                    break;
                case 2:
                    meta = sym_text(0, 2);
                    meta.has = sx::choose("has", 0, 1);
                    p.set_metadata(meta.has ? std::optional<std::string_view>(std::string_view(meta.c, meta.n)) : std::nullopt);
                    break;
                case 3:
                {
                    std::vector<sparrow::ArrowFlag> f;
                    size_t w = sx::choose("flags", 0, 7);
                    flags = 0;
                    for (size_t i = 0; i < 3; ++i)
                        if ((w >> i) & 1)
                        {
                            f.push_back(static_cast<sparrow::ArrowFlag>(1 << i));
                            flags |= 1 << i;
                        }
                    const std::vector<sparrow::ArrowFlag> once = f;
                    if (k % 2)    // each flag twice, in another order
                        for (size_t i = 3; i-- > 0;)
                            if ((w >> i) & 1) f.push_back(static_cast<sparrow::ArrowFlag>(1 << i));
                    p.set_flags(f);
                    SX_ASSERT(p.flags() == once, "flags() returns what was set");
                    break;
                }
                default:
                    // through a string that is not stored inline, and from the proxy's own string
                    p.set_name(std::string_view("a name of more than fifteen characters"));
                    p.set_metadata(p.name());
                    p.set_name(p.metadata());
                    SX_ASSERT(p.name() == std::string_view("a name of more than fifteen characters") && p.metadata() == p.name(), "long strings");
                    SX_ASSERT(p.schema().name[37] == 's' && p.schema().name[38] == 0 && p.schema().metadata[38] == 0, "long strings");
                    p.set_name(std::string_view(name.c, name.n));
                    name.has = true;
                    p.set_metadata(std::nullopt);
                    meta.has = false;
            }
            check_text(p.format(), p.schema().format, fmt, "format");
            check_text(p.name(), p.schema().name, name, "name");
            check_text(p.metadata(), p.schema().metadata, meta, "metadata");
            SX_ASSERT(p.schema().flags == flags, "flags");
        }
        consistent(p);
        if (sx::choose("copy", 0, 1))
        {
            p.set_format("i");
            arrow_proxy q(p);
            check_text(q.name(), q.schema().name, name, "name of the copy");
            check_text(q.metadata(), q.schema().metadata, meta, "metadata of the copy");
            SX_ASSERT(q.schema().flags == flags, "flags of the copy");
            q.set_name(std::string_view("q"));
            q.set_metadata(std::string_view("q"));
            q.set_format("f");
            q.set_flags({});
            check_text(p.name(), p.schema().name, name, "the original keeps its name");
            check_text(p.metadata(), p.schema().metadata, meta, "the original keeps its metadata");
            SX_ASSERT(p.format() == "i" && p.schema().flags == flags, "the original keeps its format and flags");
        }
    }
    drop(a, s);
    SX_REACH("strings");
}
SX_ENTRY(c20_data_type, quick, "set_data_type with every data type that has a format: data_type() returns it")
{
    ArrowArray a = make_array(1, 0);
    ArrowSchema s = make_schema();
    {
        arrow_proxy p = make_proxy(a, s);
        const auto t = static_cast<sparrow::data_type>(sx::choose("type", 0, 30));
        bool has_format = true;
        try { (void) sparrow::data_type_to_format(t); }
        catch (const std::exception&) { has_format = false; }
        if (!has_format)
        {
            bool threw = false;
            try { p.set_data_type(t); }
            catch (const std::exception&) { threw = true; }
            SX_ASSERT(threw && p.format() == "i" && p.schema().format[0] == 'i', "a type without format is refused");
            consistent(p);
        }
        else
        {
            p.set_data_type(t);
            SX_ASSERT(p.format() == sparrow::data_type_to_format(t), "format of the type");
            SX_ASSERT(p.data_type() == t, "data_type() returns what was set");
            SX_ASSERT(p.format().data() == p.schema().format, "the schema says the same");
            SX_REACH("data type");
        }
    }
    drop(a, s);
}
SX_ENTRY(c20_numbers, quick, "arrays of 0..3 elements, offset 0..1 (thorough 10), symbolic buffers; every sequence of 2 (thorough 3) of set_length / set_offset / set_null_count (arbitrary 64-bit) / set_data_type / set_buffer with a view, an own buffer, or the array's own buffer")
{
    unsigned char bits[8]{}, data[128];
    size_t n = sx::choose("n", 0, 3), off = sx::choose("off", 0, 1) * SX_BOUND(1, 10);
    const size_t end = n + off;
    ArrowArray a = make_array(n, off, bits, data);
    ArrowSchema s = make_schema();
    int64_t nulls = nulls_in(bits, n, off);
    {
        arrow_proxy p = make_proxy(a, s);
        for (size_t k = 0; k < SX_BOUND(2, 3); ++k)
        {
            switch (sx::choose("op", 0, 5))
            {
                case 0:
                    n = sx::choose("length", 0, end - off);
                    p.set_length(n);
                    nulls = nulls_in(bits, n, off);
                    break;
                case 1:
                    off = sx::choose("offset", 0, end - n);
                    p.set_offset(off);
                    break;
                case 2: nulls = sx::sym<int64_t>("nulls"); p.set_null_count(nulls); break;
                case 3:
                {
                    sparrow::buffer<uint8_t> b((end + 7) / 8);
                    for (size_t i = 0; i < b.size(); ++i) b[i] = bits[i] = sx::sym<unsigned char>("bits");
                    if (sx::choose("view", 0, 1)) p.set_buffer(0, sparrow::buffer_view<uint8_t>(b.data(), b.size()));
                    else p.set_buffer(0, std::move(b));
                    nulls = nulls_in(bits, n, off);
                    break;
                }
                case 4:
                {
                    sparrow::buffer<uint8_t> b(end * 4);
                    for (size_t i = 0; i < b.size(); ++i) b[i] = data[i] = sx::sym<unsigned char>("data");
                    switch (sx::choose("how", 0, 2))
                    {
                        case 0: p.set_buffer(1, sparrow::buffer_view<uint8_t>(b.data(), b.size())); break;
                        case 1: p.set_buffer(1, std::move(b)); break;
                        default:
                            p.set_buffer(1, std::move(b));
                            { auto& own = p.get_array_private_data()->buffers()[1]; p.set_buffer(1, sparrow::buffer_view<uint8_t>(own.data(), own.size())); }
                    }
                    nulls = nulls_in(bits, n, off);
                    break;
                }
                default: p.set_data_type(sparrow::data_type::FLOAT);
            }
            SX_ASSERT(p.length() == n, "length");
            SX_ASSERT(p.offset() == off, "offset");
            SX_ASSERT(p.null_count() == nulls, "null_count");
            SX_ASSERT(p.n_buffers() == 2 && p.buffers().size() == 2, "n_buffers");
            consistent(p);
            bool ok = true;
            auto* v = static_cast<const unsigned char*>(p.array().buffers[0]);
            for (size_t i = off; i < off + n; ++i) ok &= ((v[i / 8] >> (i % 8)) & 1) == ((bits[i / 8] >> (i % 8)) & 1);
            auto* d = static_cast<const unsigned char*>(p.array().buffers[1]);
            for (size_t i = off * 4; i < (off + n) * 4; ++i) ok &= d[i] == data[i];
            SX_ASSERT(ok, "buffer contents");
        }
        arrow_proxy q(p);
        SX_ASSERT(q.length() == n && q.offset() == off && q.null_count() == nulls, "numbers of the copy");
        q.set_length(0);
        q.set_null_count(7);
        SX_ASSERT(p.length() == n && p.null_count() == nulls, "the original keeps its numbers");
        consistent(q);
    }
    drop(a, s);
    SX_REACH("numbers");
}
SX_ENTRY(c20_bitmap, quick, "arrays of 1..3 or 7..9 elements, offset 0..1, symbolic validity: insert_bitmap (value and count, range), erase_bitmap, push_back_bitmap, pop_back_bitmap, resize_bitmap, each followed by set_length")
{
    unsigned char bits[8]{}, data[128];
    size_t n = sx::choose("n", 1, 6), off = sx::choose("off", 0, 1);
    if (n > 3) n += 3;
    ArrowArray a = make_array(n, off, bits, data);
    ArrowSchema s = make_schema();
    {
        arrow_proxy p = make_proxy(a, s);
        model::seq<unsigned char, 32> m;
        for (size_t i = 0; i < n; ++i) m.push((bits[(i + off) / 8] >> ((i + off) % 8)) & 1);
        // the data buffer must follow, for the setters that read it
        {
            sparrow::buffer<uint8_t> b((n + off + 4) * 4, uint8_t(0));
            p.set_buffer(1, std::move(b));
        }
        size_t at = sx::choose("at", 0, n), count = sx::choose("count", 0, 2), r = at;
        unsigned char x = sx::flag("value");
        switch (sx::choose("op", 0, 5))
        {
            case 0: r = p.insert_bitmap(at, x, count); m.insert(at, x, count); break;
            case 1:
            {
                bool y[2] = {static_cast<bool>(x), sx::flag("value")};
                unsigned char z[2] = {x, y[1]};
                std::vector<bool> dummy;
                r = p.insert_bitmap(at, std::vector<uint8_t>(z, z + count));
                m.insert_range(at, z, count);
                break;
            }
            case 2: if (at < n && at + count <= n) { r = p.erase_bitmap(at, count); m.erase(at, at + count); } break;
            case 3: p.push_back_bitmap(x); m.push(x); break;
            case 4: p.pop_back_bitmap(); m.erase(n - 1, n); break;
            default: p.resize_bitmap(at + count + off, x); m.resize(at + count, x);
        }
        SX_ASSERT(r == at, "returned position");
        p.set_length(m.n);
        consistent(p);
        auto* v = static_cast<const unsigned char*>(p.array().buffers[0]);
        bool ok = true;
        int64_t nulls = 0;
        for (size_t i = 0; i < m.n; ++i)
        {
            ok &= ((v[(i + off) / 8] >> ((i + off) % 8)) & 1) == m.v[i];
            nulls += 1 - m.v[i];
        }
        SX_ASSERT(ok, "validity bits");
        SX_ASSERT(p.null_count() == nulls, "null_count");
    }
    drop(a, s);
    SX_REACH("bitmap");
}
// a child in one of three forms; its first value identifies it
struct kid
{
    ArrowArray a{};
    ArrowSchema s{};
    node* f = nullptr;
};
static void check_kid(const arrow_proxy& p, size_t i, int64_t len)
{
    SX_ASSERT(p.array().children[i]->length == len && p.children()[i].length() == static_cast<size_t>(len), "the right child");
    SX_ASSERT(p.children()[i].format() == "i", "the right child");
    SX_ASSERT(p.children()[i].buffers().size() == 2 && p.children()[i].buffers()[1].size() == static_cast<size_t>(len) * 4, "the child's buffers");
}
SX_ENTRY(c20_children, quick, "a proxy on a struct-like structure; every sequence of 3 (thorough 4) of add_child / add_children (2) / set_child (any index) by pointer and by value, pop_children (any number) and a move of the proxy: children(), n_children and the structures agree, children edited through the proxy are the structure's, and every child is released once")
{
    static constexpr size_t MAX = 9;
    node* f[MAX];
    bool by_value[MAX]{}, popped[MAX]{};
    size_t used = 0;
    model::seq<size_t, 12> m;    // which child is at each index
    std::vector<sparrow::buffer<uint8_t>> b;
    b.push_back(sparrow::buffer<uint8_t>());
    ArrowArray a = sparrow::make_arrow_array(1, 0, 0, std::move(b), 0, nullptr, nullptr);
    ArrowSchema s = make_schema("+s");
    auto fresh = [&] { f[used] = prim("i", 4, used + 1, 0, OMITTED); return used++; };
    {
        arrow_proxy p = make_proxy(a, s);
        for (size_t k = 0; k < SX_BOUND(3, 4); ++k)
        {
            switch (sx::choose("op", 0, 6))
            {
                case 0: { size_t i = fresh(); p.add_child(&f[i]->a, &f[i]->s); m.push(i); break; }
                case 1:
                {
                    size_t i = fresh();
                    ArrowArray ca = f[i]->a;
                    ArrowSchema cs = f[i]->s;
                    p.add_child(std::move(ca), std::move(cs));
                    by_value[i] = true;
                    m.push(i);
                    break;
                }
                case 2:
                {
                    size_t i = fresh(), j = fresh();
                    p.add_children(std::vector<sparrow::arrow_array_and_schema_pointers>{{&f[i]->a, &f[i]->s}, {&f[j]->a, &f[j]->s}});
                    m.push(i);
                    m.push(j);
                    break;
                }
                case 3:
                {
                    size_t i = fresh(), j = fresh();
                    std::vector<sparrow::arrow_array_and_schema> v{{f[i]->a, f[i]->s}, {f[j]->a, f[j]->s}};
                    p.add_children(std::move(v));
                    by_value[i] = by_value[j] = true;
                    m.push(i);
                    m.push(j);
                    break;
                }
                case 4:
                    if (m.n)
                    {
                        size_t i = fresh(), at = sx::choose("at", 0, m.n - 1);
                        popped[m.v[at]] = true;
                        m.v[at] = i;
                        if (sx::choose("value", 0, 1))
                        {
                            ArrowArray ca = f[i]->a;
                            ArrowSchema cs = f[i]->s;
                            p.set_child(at, std::move(ca), std::move(cs));
                            by_value[i] = true;
                        }
                        else p.set_child(at, &f[i]->a, &f[i]->s);
                    }
                    break;
                case 5:
                {
                    size_t c = sx::choose("pop", 0, m.n);
                    p.pop_children(c);
                    for (size_t i = m.n - c; i < m.n; ++i) popped[m.v[i]] = true;
                    m.n -= c;
                    SX_THROWS(arrow_proxy_exception, p.pop_children(m.n + 1), "more children than there are");
                    break;
                }
                default:
                {
                    arrow_proxy q(std::move(p));
                    consistent(q);
                    p = std::move(q);
                }
            }
            SX_ASSERT(p.n_children() == m.n, "number of children");
            consistent(p);
            for (size_t i = 0; i < m.n; ++i) check_kid(p, i, static_cast<int64_t>(m.v[i] + 1));
            for (size_t i = 0; i < used; ++i)
                if (popped[i]) SX_ASSERT(f[i]->ra == (by_value[i] ? 1 : 0), "a removed child is released when it was owned");
                else SX_ASSERT(f[i]->ra == 0 && f[i]->rs == 0, "a child is not released");
        }
        arrow_proxy q(p);
        consistent(q);
        for (size_t i = 0; i < m.n; ++i) check_kid(q, i, static_cast<int64_t>(m.v[i] + 1));
    }
    drop(a, s);
    for (size_t i = 0; i < used; ++i)
    {
        // children passed by pointer belong to the caller
        if (!by_value[i])
        {
            if (f[i]->a.release) f[i]->a.release(&f[i]->a);
            if (f[i]->s.release) f[i]->s.release(&f[i]->s);
        }
        destroy(f[i], 1);
    }
    SX_REACH("children");
}
SX_ENTRY(c20_dictionary, quick, "set_dictionary once and twice, with sparrow's and foreign structures, and with none, on owning and borrowing proxies, then copies")
{
    ArrowArray a = make_array(2, 0);
    ArrowSchema s = make_schema("i");
    ArrowArray d[2]{};
    ArrowSchema ds[2]{};
    node* f = nullptr;
    size_t first = sx::choose("first", 0, 2), second = sx::choose("second", 0, 2);
    {
        arrow_proxy p = make_proxy(a, s);
        size_t at = 0;
        for (size_t which : {first, second})
        {
            if (which == 0) { d[at] = make_array(at + 1, 0); ds[at] = make_schema("i"); p.set_dictionary(&d[at], &ds[at]); }
            else if (which == 1 && !f) { f = prim("i", 4, at + 1, 0, OMITTED); p.set_dictionary(&f->a, &f->s); }
            else { p.set_dictionary(nullptr, nullptr); SX_ASSERT(p.dictionary() == nullptr && p.array().dictionary == nullptr, "none"); }
            if (p.dictionary()) SX_ASSERT(p.dictionary()->length() == at + 1, "the right dictionary");
            consistent(p);
            ++at;
        }
        arrow_proxy q(p);
        SX_ASSERT((q.dictionary() == nullptr) == (p.dictionary() == nullptr), "the copy has a dictionary of its own");
        if (q.dictionary()) SX_ASSERT(&q.dictionary()->array() != &p.dictionary()->array() && q.dictionary()->length() == 2, "the copy has a dictionary of its own");
        consistent(q);
    }
    drop(a, s);
    if (first == 0) SX_ASSERT(d[0].release == nullptr && ds[0].release == nullptr, "a replaced dictionary is released");
    for (size_t i = 0; i < 2; ++i) drop(d[i], ds[i]);
    if (f) drop(f->a, f->s);
    if (f) destroy(f, 1);
    SX_REACH("dictionary");
}
// every mutator on structures at least one of which sparrow did not make
SX_ENTRY(c20_refused, quick, "the 17 mutators on foreign structures, and on a sparrow array with a foreign schema and the reverse: when both are foreign all throw; whenever one throws the structures are unchanged")
{
    const size_t mine = sx::choose("mine", 0, 2);    // 0: none, 1: the array, 2: the schema
    node* f = prim("i", 4, 3, 0, COUNTED);
    ArrowArray a = make_array(3, 0);
    ArrowSchema s = make_schema();
    ArrowArray* pa = mine == 1 ? &a : &f->a;
    ArrowSchema* ps = mine == 2 ? &s : &f->s;
    node* child = prim("i", 4, 1, 0, OMITTED);
    {
        arrow_proxy p(pa, ps);
        const ArrowArray wasa = *pa;
        const ArrowSchema wass = *ps;
        unsigned char bits = *static_cast<const unsigned char*>(pa->buffers[0]);
        bool threw = false;
        const sparrow::buffer<uint8_t> nb(size_t(12), uint8_t(0));
        try
        {
            switch (sx::choose("op", 0, 19))
            {
                case 0: p.set_format("f"); break;
                case 1: p.set_data_type(sparrow::data_type::FLOAT); break;
                case 2: p.set_name(std::string_view("x")); break;
                case 3: p.set_metadata(std::string_view("x")); break;
                case 4: p.set_flags({}); break;
                case 5: p.set_length(2); break;
                case 6: p.set_null_count(1); break;
                case 7: p.set_offset(1); break;
                case 8: p.set_n_buffers(sx::choose("buffers", 2, 3)); break;
                case 9: p.set_buffer(1, sparrow::buffer_view<uint8_t>(const_cast<uint8_t*>(nb.data()), 12)); break;
                case 10: p.set_buffer(1, sparrow::buffer<uint8_t>(size_t(12), uint8_t(0))); break;
                case 11: if (mine == 1) throw arrow_proxy_exception(""); p.resize_bitmap(2, false); break;
                case 12: if (mine == 1) throw arrow_proxy_exception(""); p.insert_bitmap(1, false); break;
                case 13: if (mine == 1) throw arrow_proxy_exception(""); p.erase_bitmap(1); break;
                case 14: if (mine == 1) throw arrow_proxy_exception(""); p.push_back_bitmap(false); break;
                case 15: if (mine == 1) throw arrow_proxy_exception(""); p.pop_back_bitmap(); break;
                case 16: p.add_child(&child->a, &child->s); break;
                case 17: p.pop_children(0); break;
                case 18: p.set_dictionary(&child->a, &child->s); break;
                default: p.insert_bitmap(1, std::vector<uint8_t>(1, 0));
            }
        }
        catch (const std::runtime_error&) { threw = true; }
        if (mine == 0) SX_ASSERT(threw, "foreign structures are refused");
        if (threw)
        {
            SX_ASSERT(std::memcmp(&wasa, pa, sizeof wasa) == 0, "the array is unchanged");
            SX_ASSERT(std::memcmp(&wass, ps, sizeof wass) == 0, "the schema is unchanged");
            SX_ASSERT(*static_cast<const unsigned char*>(pa->buffers[0]) == bits, "the validity is unchanged");
        }
        consistent(p);
    }
    drop(a, s);
    destroy(f, 0);
    destroy(child, 0);
    SX_REACH("refused");
}
SX_ENTRY(c20_n_buffers, quick, "set_n_buffers from 2 to 2..5 buffers and back, set_buffer of each extra buffer with up to 3 symbolic bytes, then set_length, copy and move: every buffer of the structure has the bytes it was given")
{
    unsigned char bits[8]{}, data[128];
    ArrowArray a = make_array(2, 0, bits, data);
    ArrowSchema s = make_schema();
    {
        arrow_proxy p = make_proxy(a, s);
        unsigned char extra[3][3];
        size_t len[3]{};
        size_t n = 2;
        for (size_t k = 0; k < 2; ++k)
        {
            const size_t was = n;
            n = sx::choose("buffers", 2, 5);
            for (size_t i = n; i < was; ++i) len[i - 2] = 0;
            p.set_n_buffers(n);
            SX_ASSERT(p.n_buffers() == n && p.array().n_buffers == static_cast<int64_t>(n), "n_buffers");
            SX_ASSERT(p.get_array_private_data()->buffers().size() == n, "one buffer each");
            if (n > 2)
            {
                const size_t at = sx::choose("at", 2, n - 1);
                len[at - 2] = sx::choose("bytes", 0, 3);
                sparrow::buffer<uint8_t> b(len[at - 2]);
                for (size_t i = 0; i < b.size(); ++i) b[i] = extra[at - 2][i] = sx::sym<unsigned char>("extra");
                if (sx::choose("view", 0, 1)) p.set_buffer(at, sparrow::buffer_view<uint8_t>(b.data(), b.size()));
                else p.set_buffer(at, std::move(b));
            }
            if (k == 0) p.set_length(1);
            consistent(p);
            bool ok = true;
            for (size_t i = 0; i < 8; ++i) ok &= static_cast<const unsigned char*>(p.array().buffers[1])[i] == data[i];
            for (size_t i = 0; i < 2; ++i) ok &= ((static_cast<const unsigned char*>(p.array().buffers[0])[0] >> i) & 1) == ((bits[0] >> i) & 1);
            for (size_t b = 2; b < n; ++b)
            {
                SX_ASSERT(p.get_array_private_data()->buffers()[b].size() == len[b - 2], "size of an extra buffer");
                for (size_t i = 0; i < len[b - 2]; ++i) ok &= static_cast<const unsigned char*>(p.array().buffers[b])[i] == extra[b - 2][i];
            }
            SX_ASSERT(ok, "contents of the buffers");
        }
        arrow_proxy q(std::move(p));
        SX_ASSERT(q.n_buffers() == n, "n_buffers of the moved proxy");
        consistent(q);
        p = std::move(q);
    }
    drop(a, s);
    SX_REACH("n_buffers");
}
SX_ENTRY(c20_refused_parts, quick, "set_child (by pointer and by value), add_child by value, add_children, pop_children, set_dictionary on foreign structs, lists and dictionaries: refused with an exception; structures, children and arguments untouched")
{
    const layout l[] = {L_STRUCT, L_LIST, L_DICT};
    node* f = make(l[sx::choose("layout", 0, 2)], 2, 0, COUNTED, OMITTED);
    node* child = prim("i", 4, 2, 0, OMITTED);
    {
        arrow_proxy p(&f->a, &f->s);
        const record was = save(f), wasc = save(child);
        const ArrowArray* k[2] = {f->ka[0], f->ka[1]};
        bool threw = false;
        try
        {
            switch (sx::choose("op", 0, 6))
            {
                case 0: if (!f->a.n_children) throw arrow_proxy_exception(""); p.set_child(0, &child->a, &child->s); break;
                case 1:
                {
                    if (!f->a.n_children) throw arrow_proxy_exception("");
                    ArrowArray a = child->a;
                    ArrowSchema s = child->s;
                    p.set_child(0, std::move(a), std::move(s));
                    break;
                }
                case 2:
                {
                    ArrowArray a = child->a;
                    ArrowSchema s = child->s;
                    p.add_child(std::move(a), std::move(s));
                    break;
                }
                case 3: p.add_children(std::vector<sparrow::arrow_array_and_schema_pointers>{{&child->a, &child->s}}); break;
                case 4: p.add_children(std::vector<sparrow::arrow_array_and_schema>{{child->a, child->s}}); break;
                case 5: p.pop_children(static_cast<size_t>(f->a.n_children)); break;
                default: p.set_dictionary(&child->a, &child->s);
            }
        }
        catch (const std::runtime_error&) { threw = true; }
        SX_ASSERT(threw, "foreign structures are refused");
        SX_ASSERT(unchanged(f, was) && unchanged(child, wasc), "the structures are unchanged");
        SX_ASSERT(f->ka[0] == k[0] && f->ka[1] == k[1], "the children are unchanged");
        consistent(p);
    }
    destroy(f, 0);
    destroy(child, 0);
    SX_REACH("refused parts");
}
SX_ENTRY(c20_metadata, finding, "set_metadata with the encoding the C data interface prescribes (a 4-byte count first)")
{
    ArrowArray a = make_array(1, 0);
    ArrowSchema s = make_schema();
    {
        arrow_proxy p(&a, &s);
        const char enc[] = "\1\0\0\0\1\0\0\0k\1\0\0\0v";
        p.set_metadata(std::string_view(enc, 14));
        SX_ASSERT(p.metadata().has_value() && p.metadata()->size() == 14, "metadata");
    }
    drop(a, s);
}
SX_ENTRY(c20_wide_children, quick, "a proxy on a structure of 280 children, half of them by value: one added, 1 or 200 removed, the first or the 271st replaced, all moved or copied")
{
    const size_t N = 280;
    foreign::plain = true;
    std::vector<node*> f;
    std::vector<sparrow::buffer<uint8_t>> b;
    b.push_back(sparrow::buffer<uint8_t>());
    ArrowArray a = sparrow::make_arrow_array(1, 0, 0, std::move(b), 0, nullptr, nullptr);
    ArrowSchema s = make_schema("+s");
    auto fresh = [&] { f.push_back(prim("i", 4, f.size() + 1, 0, OMITTED)); return f.size() - 1; };
    auto owned = [&](size_t i) { return i < N / 2 || i >= N; };
    {
        arrow_proxy p = make_proxy(a, s);
        std::vector<sparrow::arrow_array_and_schema> v;
        std::vector<sparrow::arrow_array_and_schema_pointers> w;
        std::vector<size_t> m;
        for (size_t i = 0; i < N; ++i)
        {
            m.push_back(fresh());
            if (i < N / 2) v.push_back({f[i]->a, f[i]->s});
            else w.push_back({&f[i]->a, &f[i]->s});
        }
        p.add_children(std::move(v));
        p.add_children(w);
        auto check = [&](const arrow_proxy& q)
        {
            SX_ASSERT(q.n_children() == m.size(), "number of children");
            consistent(q);
            for (size_t i = 0; i < m.size(); ++i) check_kid(q, i, static_cast<int64_t>(m[i] + 1));
        };
        check(p);
        switch (sx::choose("op", 0, 6))
        {
            case 0: { size_t i = fresh(); ArrowArray x = f[i]->a; ArrowSchema y = f[i]->s; p.add_child(std::move(x), std::move(y)); m.push_back(i); break; }
            case 1: p.pop_children(1); m.resize(N - 1); break;
            case 2: p.pop_children(200); m.resize(N - 200); break;
            case 3: { size_t i = fresh(); ArrowArray x = f[i]->a; ArrowSchema y = f[i]->s; p.set_child(270, std::move(x), std::move(y)); m[270] = i; break; }
            case 4: { size_t i = fresh(); ArrowArray x = f[i]->a; ArrowSchema y = f[i]->s; p.set_child(0, std::move(x), std::move(y)); m[0] = i; break; }
            case 5: { arrow_proxy q(std::move(p)); check(q); p = std::move(q); break; }
            default: { arrow_proxy q(p); check(q); }
        }
        check(p);
        std::vector<bool> there(f.size());
        for (size_t i : m) there[i] = true;
        for (size_t i = 0; i < f.size(); ++i)
            SX_ASSERT(f[i]->ra == (owned(i) && !there[i] ? 1 : 0) && f[i]->rs == f[i]->ra, "removed children are released when they were owned, others are not");
    }
    drop(a, s);
    for (size_t i = 0; i < f.size(); ++i)
    {
        if (!owned(i))
        {
            f[i]->a.release(&f[i]->a);
            f[i]->s.release(&f[i]->s);
        }
        destroy(f[i], 1);
    }
    SX_REACH("wide");
}
SX_ENTRY(c20_wide_bitmap, quick, "arrays of 300 elements at offset 0, 1 or 257: insert_bitmap of 1 or 260 values, erase_bitmap of 1 or 258, push_back_bitmap, pop_back_bitmap, resize_bitmap to 1, 257 or 600, at the start, the 200th, 258th or last position")
{
    static const size_t offs[] = {0, 1, 257}, spots[] = {0, 200, 258, 299}, sizes[] = {1, 257, 600};
    const size_t n = 300, off = offs[sx::choose("offset", 0, 2)], end = n + off;
    auto bit = [](size_t i) { return i % 5 != 2 && i % 64 != 63; };
    sparrow::buffer<uint8_t> v((end + 7) / 8, uint8_t(0)), d(4 * 1000, uint8_t(0));
    std::vector<bool> m;
    int64_t nulls = 0;
    for (size_t i = 0; i < end; ++i)
    {
        if (bit(i)) v[i / 8] = static_cast<uint8_t>(v[i / 8] | 1u << i % 8);
        if (i >= off) { m.push_back(bit(i)); nulls += !bit(i); }
    }
    std::vector<sparrow::buffer<uint8_t>> b;
    b.push_back(std::move(v));
    b.push_back(std::move(d));
    ArrowArray a = sparrow::make_arrow_array(static_cast<int64_t>(n), nulls, static_cast<int64_t>(off), std::move(b), 0, nullptr, nullptr);
    ArrowSchema s = make_schema();
    {
        arrow_proxy p = make_proxy(a, s);
        const size_t at = spots[sx::choose("at", 0, 3)];
        const bool x = sx::choose("value", 0, 1);
        size_t r = at;
        using D = std::ptrdiff_t;
        switch (sx::choose("op", 0, 5))
        {
            case 0: { size_t c = sx::choose("count", 0, 1) ? 260 : 1; r = p.insert_bitmap(at, x, c); m.insert(m.begin() + static_cast<D>(at), c, x); break; }
            case 1:
            {
                std::vector<uint8_t> w(260);
                for (size_t i = 0; i < 260; ++i) w[i] = i % 3 != 0;
                r = p.insert_bitmap(at, w);
                m.insert(m.begin() + static_cast<D>(at), w.begin(), w.end());
                break;
            }
            case 2:
            {
                size_t c = sx::choose("count", 0, 1) ? 258 : 1;
                if (at + c > n) c = n - at;
                r = p.erase_bitmap(at, c);
                m.erase(m.begin() + static_cast<D>(at), m.begin() + static_cast<D>(at + c));
                break;
            }
            case 3: p.push_back_bitmap(x); m.push_back(x); break;
            case 4: p.pop_back_bitmap(); m.pop_back(); break;
            default: { size_t z = sizes[sx::choose("size", 0, 2)]; p.resize_bitmap(z + off, x); m.resize(z, x); }
        }
        SX_ASSERT(r == at, "returned position");
        p.set_length(m.size());
        consistent(p);
        auto* q = static_cast<const unsigned char*>(p.array().buffers[0]);
        int64_t zeros = 0;
        for (size_t i = 0; i < m.size(); ++i)
        {
            SX_ASSERT(bool((q[(i + off) / 8] >> ((i + off) % 8)) & 1) == m[i], "validity bits");
            zeros += !m[i];
        }
        SX_ASSERT(p.null_count() == zeros, "null_count");
    }
    drop(a, s);
    SX_REACH("wide");
}
