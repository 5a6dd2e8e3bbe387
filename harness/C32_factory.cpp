// C32: the structure factories encode the sequences they are given.
#include "sx.hpp"
#include "spec.hpp"
#include <array>
#include <list>
#include "sparrow/arrow_interface/arrow_array_schema_factory.hpp"
#include "sparrow/utils/buffers.hpp"
#include "sparrow/utils/offsets.hpp"

using namespace spec;
using namespace arr;
using DT = sparrow::data_type;

template <class T> struct info;
template <> struct info<uint8_t> { static constexpr DT type = DT::UINT8; static constexpr const char* format = "C"; };
template <> struct info<int16_t> { static constexpr DT type = DT::INT16; static constexpr const char* format = "s"; };
template <> struct info<uint32_t> { static constexpr DT type = DT::UINT32; static constexpr const char* format = "I"; };
template <> struct info<int64_t> { static constexpr DT type = DT::INT64; static constexpr const char* format = "l"; };
template <> struct info<float> { static constexpr DT type = DT::FLOAT; static constexpr const char* format = "f"; };
template <> struct info<double> { static constexpr DT type = DT::DOUBLE; static constexpr const char* format = "g"; };
template <> struct info<std::string> { static constexpr DT type = DT::STRING; static constexpr const char* format = "u"; };

// up to two distinct null positions below n, in any order
template <class N>
static std::vector<N> choose_nulls(size_t n)
{
    std::vector<N> r;
    const size_t k = n < 2 ? n : 2, c = sx::choose("nulls", 0, k);
    for (size_t i = 0; i < c; ++i) r.push_back(static_cast<N>(sx::range("null", 0, n - 1)));
    if (c == 2) sx::assume(r[0] != r[1]);
    return r;
}
template <class N>
static bool in(const std::vector<N>& nulls, size_t i)
{
    bool r = false;
    for (const N x : nulls) r |= static_cast<size_t>(x) == i;
    return r;
}
template <class N>
static int64_t nulls_from(const std::vector<N>& nulls, size_t offset)
{
    int64_t r = 0;
    for (const N x : nulls) r += static_cast<size_t>(x) >= offset ? 1 : 0;
    return r;
}
static bool bit(const void* p, size_t i) { return (static_cast<const uint8_t*>(p)[i / 8] >> (i % 8)) & 1; }

// the fields of a flat array of n elements of which the first off are skipped
template <class N>
static void check_flat(const ArrowArray& a, size_t n, size_t off, const std::vector<N>& nulls, int64_t buffers)
{
    SX_ASSERT(a.length == static_cast<int64_t>(n - off) && a.offset == static_cast<int64_t>(off), "length and offset");
    SX_ASSERT(a.null_count == -1 || a.null_count == nulls_from(nulls, off), "null count");
    SX_ASSERT(a.n_buffers == buffers && a.buffers != nullptr, "buffers");
    SX_ASSERT(a.n_children == 0 && a.children == nullptr && a.release != nullptr, "no children, to release");
    for (size_t i = 0; i < n; ++i) SX_ASSERT(bit(a.buffers[0], i) == !in(nulls, i), "validity bit");
}
template <class A>
static void release(A& a)
{
    a.release(&a);
    SX_ASSERT(a.release == nullptr, "released");
}

template <class T, class N>
static void primitive(size_t n, size_t off)
{
    std::vector<T> v;
    for (size_t i = 0; i < n; ++i) v.push_back(sx::sym<T>("value"));
    const std::vector<T> keep = v;
    std::vector<N> nulls = choose_nulls<N>(n);
    const std::vector<N> keep_nulls = nulls;
    const bool rvalue = sx::choose("rvalue", 0, 1);
    ArrowArray a = rvalue ? sparrow::make_primitive_arrow_array(std::move(v), std::move(nulls), static_cast<int64_t>(off))
                          : sparrow::make_primitive_arrow_array(keep, keep_nulls, static_cast<int64_t>(off));
    check_flat(a, n, off, keep_nulls, 2);
    SX_ASSERT(a.dictionary == nullptr, "no dictionary");
    for (size_t i = 0; i < n; ++i) SX_ASSERT(same<T>(load<T>(a.buffers[1], static_cast<int64_t>(i)), keep[i]), "value");
    ArrowSchema s = sparrow::make_primitive_arrow_schema(info<T>::type, "x", std::nullopt, std::nullopt);
    SX_ASSERT(fmt(s, info<T>::format) && std::strcmp(s.name, "x") == 0 && s.metadata == nullptr && s.flags == 0 && s.n_children == 0 && s.dictionary == nullptr, "schema");
    check_conforms(a, s);
    if (sx::choose("use", 0, 1))
    {
        array b(std::move(a), std::move(s));
        SX_ASSERT(b.size() == n - off, "size");
        for (size_t i = 0; i < n - off; ++i) SX_ASSERT(is_prim<T>(b[i], opt<T>{keep[off + i], !in(keep_nulls, off + i)}), "element");
    }
    else
    {
        release(a);
        release(s);
    }
    SX_REACH("primitive");
}
SX_ENTRY(c32_primitive, quick, "primitive structures of six value types: 0..3 (thorough 5) symbolic values, every two null positions, every offset up to the size, by value and by reference: buffers, null count, the array over them, release")
{
    const size_t n = sx::choose("n", 0, SX_BOUND(3, 5)), off = sx::choose("offset", 0, n);
    switch (sx::choose("type", 0, 5))
    {
        case 0: primitive<uint8_t, size_t>(n, off); break;
        case 1: primitive<int16_t, uint8_t>(n, off); break;
        case 2: primitive<uint32_t, int32_t>(n, off); break;
        case 3: primitive<int64_t, uint16_t>(n, off); break;
        case 4: primitive<float, int64_t>(n, off); break;
        default: primitive<double, size_t>(n, off); break;
    }
}

// strings as given to the factories: the lengths chosen, the bytes symbolic
static std::vector<std::string> choose_strings(size_t n, size_t maxlen)
{
    std::vector<std::string> v;
    for (size_t i = 0; i < n; ++i) v.push_back(to_string(sym_bytes(sx::choose("len", 0, maxlen))));
    return v;
}
template <class O>
static void check_strings(const ArrowArray& a, const std::vector<std::string>& v)
{
    size_t at = 0;
    SX_ASSERT(load<O>(a.buffers[1], 0) == 0, "first offset");
    for (size_t i = 0; i < v.size(); ++i)
    {
        bool ok = true;
        for (size_t k = 0; k < v[i].size(); ++k) ok &= static_cast<const char*>(a.buffers[2])[at + k] == v[i][k];
        SX_ASSERT(ok, "bytes");
        at += v[i].size();
        SX_ASSERT(load<O>(a.buffers[1], static_cast<int64_t>(i) + 1) == static_cast<O>(at), "offsets");
    }
}
static bool is_text(const elem_t& e, const std::string& x, bool has)
{
    const typename elem_t::base_type& v = e;
    if (const auto* r = std::get_if<sparrow::nullable<std::string_view>>(&v))
    {
        if (r->has_value() != has) return false;
        if (!has) return true;
        const std::string_view t = r->get();
        if (t.size() != x.size()) return false;
        bool ok = true;
        for (size_t i = 0; i < x.size(); ++i) ok &= t[i] == x[i];
        return ok;
    }
    return false;
}
template <class O, class N>
static void strings(size_t n, size_t off, size_t maxlen)
{
    const std::vector<std::string> v = choose_strings(n, maxlen);
    const std::vector<N> nulls = choose_nulls<N>(n);
    std::vector<std::string> v2 = v;
    std::vector<N> nulls2 = nulls;
    ArrowArray a = sx::choose("rvalue", 0, 1) ? sparrow::make_variable_size_binary_arrow_array<O>(std::move(v2), std::move(nulls2), static_cast<int64_t>(off))
                                              : sparrow::make_variable_size_binary_arrow_array<O>(v, nulls, static_cast<int64_t>(off));
    check_flat(a, n, off, nulls, 3);
    SX_ASSERT(a.dictionary == nullptr, "no dictionary");
    check_strings<O>(a, v);
    if constexpr (sizeof(O) == 4)
    {
        ArrowSchema s = sparrow::make_arrow_schema(std::string_view("u"), std::nullopt, std::nullopt, std::nullopt, 0, nullptr, nullptr);
        check_conforms(a, s);
        array b(std::move(a), std::move(s));
        SX_ASSERT(b.size() == n - off, "size");
        for (size_t i = 0; i < n - off; ++i) SX_ASSERT(is_text(b[i], v[off + i], !in(nulls, off + i)), "element");
    }
    else release(a);
    SX_REACH("strings");
}
SX_ENTRY(c32_strings, quick, "string structures with 32- and 64-bit offsets: 0..3 strings of 0..2 (thorough 3) symbolic bytes, every two null positions, every offset up to the size")
{
    const size_t n = sx::choose("n", 0, 3), off = sx::choose("offset", 0, n);
    if (sx::choose("large", 0, 1)) strings<int64_t, uint16_t>(n, off, SX_BOUND(2, 3));
    else strings<int32_t, size_t>(n, off, SX_BOUND(2, 3));
}

template <class K, class N>
static void dictionary(size_t n, size_t m, size_t off, size_t doff)
{
    std::vector<K> keys;
    for (size_t i = 0; i < n; ++i) keys.push_back(static_cast<K>(sx::range("key", 0, m - doff - 1)));
    std::vector<std::string> v;
    for (size_t i = 0; i < m; ++i) v.push_back(to_string(sym_bytes((i * 2 + 1) % 3)));
    const std::vector<K> keys0 = keys;
    const std::vector<std::string> v0 = v;
    std::vector<N> kn = choose_nulls<N>(n), vn = choose_nulls<N>(m);
    const std::vector<N> kn0 = kn, vn0 = vn;
    ArrowArray a = sparrow::make_dictionary_encoded_arrow_array(std::move(keys), std::move(kn), static_cast<int64_t>(off), std::move(v), std::move(vn), static_cast<int64_t>(doff));
    check_flat(a, n, off, kn0, 2);
    for (size_t i = 0; i < n; ++i) SX_ASSERT(load<K>(a.buffers[1], static_cast<int64_t>(i)) == keys0[i], "key");
    SX_ASSERT(a.dictionary != nullptr, "dictionary");
    check_flat(*a.dictionary, m, doff, vn0, 3);
    check_strings<int32_t>(*a.dictionary, v0);
    ArrowSchema s = sparrow::make_dictionary_encoded_arrow_schema(DT::STRING, info<K>::type);
    SX_ASSERT(fmt(s, info<K>::format) && s.dictionary != nullptr && s.n_children == 0, "schema of the keys");
    SX_ASSERT(fmt(*s.dictionary, "u") && s.dictionary->dictionary == nullptr && s.dictionary->n_children == 0, "schema of the values");
    check_conforms(a, s);
    if (sx::choose("use", 0, 1))
    {
        array b(std::move(a), std::move(s));
        SX_ASSERT(b.size() == n - off, "size");
        for (size_t i = 0; i < n - off; ++i)
        {
            const size_t k = static_cast<size_t>(keys0[off + i]);
            bool has = !in(kn0, off + i);
            std::string x;
            for (size_t j = 0; j + doff < m; ++j)
                if (j == k)
                {
                    x = v0[j + doff];
                    has = has && !in(vn0, j + doff);
                }
            SX_ASSERT(is_text(b[i], x, has), "element");
        }
    }
    else
    {
        release(a);
        release(s);
    }
    SX_REACH("dictionary");
}
SX_ENTRY(c32_dictionary, quick, "dictionary-encoded structures: 0..2 symbolic keys of two types into 1..2 (thorough 3) strings, null keys and values, offsets of both: buffers, schema, the array over them, release")
{
    const size_t n = sx::choose("n", 0, 2), m = sx::choose("m", 1, SX_BOUND(2, 3));
    const size_t off = sx::choose("offset", 0, n), doff = sx::choose("doffset", 0, m - 1);
    if (sx::choose("type", 0, 1)) dictionary<uint8_t, size_t>(n, m, off, doff);
    else dictionary<uint32_t, uint8_t>(n, m, off, doff);
}

SX_ENTRY(c32_bitmap, quick, "bitmaps of 0..17 and of 63, 64, 65, 300 bits: every three null positions (repeated ones allowed), every bit, the bytes counted; positions of 8, 32 and 64 bits")
{
    const size_t sel = sx::choose("n", 0, 21);
    const size_t big[] = {63, 64, 65, 300};
    const size_t n = sel < 18 ? sel : big[sel - 18];
    const size_t k = n ? sx::choose("nulls", 0, 3) : 0;
    std::vector<uint64_t> nulls;
    for (size_t i = 0; i < k; ++i) nulls.push_back(n <= 17 ? sx::range("null", 0, n - 1) : model::spot("null", n - 1));
    sparrow::buffer<uint8_t> b;
    switch (sx::choose("type", 0, 2))
    {
        case 0: b = sparrow::make_bitmap_buffer(n, nulls); break;
        case 1:
        {
            std::vector<uint32_t> x;
            for (const uint64_t p : nulls) x.push_back(static_cast<uint32_t>(p));
            b = sparrow::make_bitmap_buffer(n, std::move(x));
            break;
        }
        default:
        {
            std::list<uint16_t> x;
            for (const uint64_t p : nulls) x.push_back(static_cast<uint16_t>(p));
            b = sparrow::make_bitmap_buffer(n, x);
        }
    }
    SX_ASSERT(b.size() == (n + 7) / 8, "bytes of the bitmap");
    for (size_t i = 0; i < n; ++i) SX_ASSERT(bit(b.data(), i) == !in(nulls, i), "bit");
    SX_REACH("bitmap");
}

template <class T>
static void range_bytes(size_t n)
{
    std::vector<T> v;
    for (size_t i = 0; i < n; ++i) v.push_back(sx::sym<T>("value"));
    const std::vector<T> keep = v;
    sparrow::buffer<uint8_t> b = sx::choose("rvalue", 0, 1) ? sparrow::range_to_buffer(std::move(v)) : sparrow::range_to_buffer(keep);
    SX_ASSERT(b.size() == n * sizeof(T), "bytes");
    for (size_t i = 0; i < n; ++i) SX_ASSERT(same<T>(load<T>(b.data(), static_cast<int64_t>(i)), keep[i]), "value");
}
SX_ENTRY(c32_range, quick, "buffers of 0..4 (thorough 8) symbolic values of five types")
{
    const size_t n = sx::choose("n", 0, SX_BOUND(4, 8));
    switch (sx::choose("type", 0, 4))
    {
        case 0: range_bytes<uint8_t>(n); break;
        case 1: range_bytes<int16_t>(n); break;
        case 2: range_bytes<uint32_t>(n); break;
        case 3: range_bytes<double>(n); break;
        default:
        {
            const std::array<int64_t, 3> a{sx::sym<int64_t>("value"), sx::sym<int64_t>("value"), sx::sym<int64_t>("value")};
            const sparrow::buffer<uint8_t> b = sparrow::range_to_buffer(a);
            SX_ASSERT(b.size() == 24, "bytes");
            for (size_t i = 0; i < 3; ++i) SX_ASSERT(load<int64_t>(b.data(), static_cast<int64_t>(i)) == a[i], "value");
        }
    }
    SX_REACH("range");
}
// V: a sequence of T
template <class V, class O>
static void sequences(size_t n, size_t maxlen)
{
    using T = typename V::value_type;
    std::vector<V> v;
    size_t total = 0;
    for (size_t i = 0; i < n; ++i)
    {
        V x;
        const size_t len = sx::choose("len", 0, maxlen);
        for (size_t k = 0; k < len; ++k) x.push_back(sx::sym<T>("value"));
        total += len;
        v.push_back(x);
    }
    SX_ASSERT(sparrow::number_of_bytes(v) == total * sizeof(T), "number of bytes");
    const auto o = sparrow::make_offset_buffer<O>(v);
    SX_ASSERT(o.size() == n + 1 && o[0] == 0, "offsets");
    std::vector<V> copy = v;
    sparrow::buffer<uint8_t> b = sx::choose("rvalue", 0, 1) ? sparrow::strings_to_buffer(std::move(copy)) : sparrow::strings_to_buffer(v);
    SX_ASSERT(b.size() == total * sizeof(T), "bytes");
    size_t at = 0;
    for (size_t i = 0; i < n; ++i)
    {
        for (size_t k = 0; k < v[i].size(); ++k) SX_ASSERT(same<T>(load<T>(b.data(), static_cast<int64_t>(at + k)), v[i][k]), "value");
        at += v[i].size();
        SX_ASSERT(o[i + 1] == static_cast<O>(at), "offset");
    }
}
SX_ENTRY(c32_sequences, quick, "0..3 sequences of 0..2 (thorough 3) symbolic elements of 8, 16, 32, 64 bits laid out one after the other: the bytes, their number, the 32- and 64-bit offsets")
{
    const size_t n = sx::choose("n", 0, 3);
    switch (sx::choose("type", 0, 4))
    {
        case 0: sequences<std::string, int32_t>(n, SX_BOUND(2, 3)); break;
        case 1: sequences<std::string, int64_t>(n, SX_BOUND(2, 3)); break;
        case 2: sequences<std::vector<uint16_t>, int64_t>(n, SX_BOUND(2, 3)); break;
        case 3: sequences<std::vector<int32_t>, int32_t>(n, SX_BOUND(2, 3)); break;
        default: sequences<std::vector<double>, int64_t>(n, SX_BOUND(2, 3)); break;
    }
    SX_REACH("sequences");
}
SX_ENTRY(c32_schema, quick, "schemas of twelve primitive types: format, name of 0..3 symbolic bytes, flags, no metadata; of dictionaries of every two of them")
{
    static constexpr struct { DT t; const char* f; } types[] = {
        {DT::BOOL, "b"}, {DT::UINT8, "C"}, {DT::INT8, "c"}, {DT::UINT16, "S"}, {DT::INT16, "s"}, {DT::UINT32, "I"}, {DT::INT32, "i"},
        {DT::UINT64, "L"}, {DT::INT64, "l"}, {DT::HALF_FLOAT, "e"}, {DT::FLOAT, "f"}, {DT::DOUBLE, "g"}, {DT::STRING, "u"}, {DT::BINARY, "z"}};
    if (sx::choose("dictionary", 0, 1))
    {
        const auto& v = types[sx::choose("values", 0, 13)];
        const auto& k = types[sx::choose("keys", 1, 8)];
        ArrowSchema s = sparrow::make_dictionary_encoded_arrow_schema(v.t, k.t);
        SX_ASSERT(fmt(s, k.f) && s.n_children == 0 && s.children == nullptr && s.flags == 0, "keys");
        SX_ASSERT(s.dictionary != nullptr && fmt(*s.dictionary, v.f) && s.dictionary->n_children == 0 && s.dictionary->children == nullptr && s.dictionary->flags == 0, "values");
        SX_ASSERT(s.dictionary->dictionary == nullptr && s.dictionary->release != nullptr, "owned");
        release(s);
    }
    else
    {
        const auto& t = types[sx::choose("type", 0, 11)];
        std::string name;
        const size_t len = sx::choose("len", 0, 3);
        for (size_t i = 0; i < len; ++i)
        {
            const char c = static_cast<char>(sx::sym<unsigned char>("c"));
            sx::assume(c != 0);
            name.push_back(c);
        }
        const std::string keep = name;
        const size_t fl = sx::choose("flag", 0, 3);
        std::optional<sparrow::ArrowFlag> flag;
        if (fl) flag = static_cast<sparrow::ArrowFlag>(1 << (fl - 1));
        ArrowSchema s = sparrow::make_primitive_arrow_schema(t.t, name, std::nullopt, flag);
        for (char& c : name) c = '!';    // the schema has its own copy
        SX_ASSERT(fmt(s, t.f) && s.n_children == 0 && s.children == nullptr && s.dictionary == nullptr && s.metadata == nullptr, "schema");
        SX_ASSERT(s.flags == (fl ? 1 << (fl - 1) : 0), "flags");
        bool ok = s.name != nullptr;
        for (size_t i = 0; ok && i < len; ++i) ok = s.name[i] == keep[i];
        SX_ASSERT(ok && s.name[len] == 0, "name");
        release(s);
    }
    SX_REACH("schema");
}
SX_ENTRY(c32_wide, quick, "300 symbolic values, 300 strings, strings of 255 to 300 bytes, null positions and offsets around 255, 256 and the ends: structures, bytes, offsets")
{
    constexpr size_t n = 300;
    const size_t spots[] = {0, 1, 254, 255, 256, 257, 299};
    const size_t offs[] = {0, 1, 255, 256, 300};
    const size_t off = offs[sx::choose("offset", 0, 4)];
    std::vector<uint64_t> nulls{spots[sx::choose("null", 0, 6)]};
    if (sx::choose("many", 0, 1))
    {
        nulls.clear();
        for (size_t i = 0; i < n; i += 1) if (i % 64 != 3) nulls.push_back(n - 1 - i);
    }
    if (sx::choose("strings", 0, 1))
    {
        std::vector<std::string> v;
        for (size_t i = 0; i < n; ++i) v.push_back(std::string(i == 7 ? 255 : i == 8 ? 256 : i == 9 ? 300 : i % 3, static_cast<char>(i)));
        v[299].push_back(static_cast<char>(sx::sym<unsigned char>("c")));
        ArrowArray a = sparrow::make_variable_size_binary_arrow_array<int32_t>(v, nulls, static_cast<int64_t>(off));
        check_flat(a, n, off, nulls, 3);
        check_strings<int32_t>(a, v);
        size_t total = 0;
        for (const auto& x : v) total += x.size();
        SX_ASSERT(sparrow::number_of_bytes(v) == total, "number of bytes");
        std::vector<std::vector<uint32_t>> w(3);
        for (size_t i = 0; i < 300; ++i) w[i % 64 ? 1 : 2].push_back(sx::sym<uint32_t>("value"));
        SX_ASSERT(sparrow::number_of_bytes(w) == 1200, "number of bytes");
        const auto o = sparrow::make_offset_buffer<int64_t>(w);
        SX_ASSERT(o.size() == 4 && o[0] == 0 && o[1] == 0 && o[2] == 295 && o[3] == 300, "offsets");
        const sparrow::buffer<uint8_t> b = sparrow::strings_to_buffer(w);
        SX_ASSERT(b.size() == 1200, "bytes");
        for (size_t i = 0; i < 300; ++i) SX_ASSERT(load<uint32_t>(b.data(), static_cast<int64_t>(i)) == (i < 295 ? w[1][i] : w[2][i - 295]), "value");
        release(a);
    }
    else
    {
        std::vector<uint16_t> v;
        for (size_t i = 0; i < n; ++i) v.push_back(sx::sym<uint16_t>("value"));
        ArrowArray a = sparrow::make_primitive_arrow_array(v, nulls, static_cast<int64_t>(off));
        check_flat(a, n, off, nulls, 2);
        for (size_t i = 0; i < n; ++i) SX_ASSERT(load<uint16_t>(a.buffers[1], static_cast<int64_t>(i)) == v[i], "value");
        release(a);
    }
    SX_REACH("wide");
}
