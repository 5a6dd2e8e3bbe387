// C21: format strings, data types, type predicates and flags.
#include "sx.hpp"
#include <vector>
#include "sparrow/sparrow.hpp"
#include "sparrow/arrow_interface/arrow_array_schema_info_utils.hpp"
#include "sparrow/arrow_interface/arrow_flag_utils.hpp"

using sparrow::data_type;
using DT = sparrow::data_type;

struct row
{
    const char* format;
    DT type;
    bool bitmap, primitive, integer;
};
// the Arrow C data interface, independently of sparrow
static constexpr row table[] = {
    {"n", DT::NA, false, false, false}, {"b", DT::BOOL, true, true, false},
    {"C", DT::UINT8, true, true, true}, {"c", DT::INT8, true, true, true},
    {"S", DT::UINT16, true, true, true}, {"s", DT::INT16, true, true, true},
    {"I", DT::UINT32, true, true, true}, {"i", DT::INT32, true, true, true},
    {"L", DT::UINT64, true, true, true}, {"l", DT::INT64, true, true, true},
    {"e", DT::HALF_FLOAT, true, true, false}, {"f", DT::FLOAT, true, true, false}, {"g", DT::DOUBLE, true, true, false},
    {"u", DT::STRING, true, false, false}, {"U", DT::STRING, true, false, false},
    {"z", DT::BINARY, true, false, false}, {"Z", DT::BINARY, true, false, false},
    {"vu", DT::STRING_VIEW, true, false, false}, {"vz", DT::BINARY_VIEW, true, false, false},
    {"+l", DT::LIST, true, false, false}, {"+L", DT::LARGE_LIST, true, false, false},
    {"+vl", DT::LIST_VIEW, true, false, false}, {"+vL", DT::LARGE_LIST_VIEW, true, false, false},
    {"+s", DT::STRUCT, true, false, false}, {"+m", DT::MAP, true, false, false},
    {"+r", DT::RUN_ENCODED, false, false, false},
};
// formats with parameters: everything that starts so
static constexpr row prefixes[] = {
    {"d:", DT::DECIMAL, true, false, false}, {"w:", DT::FIXED_WIDTH_BINARY, true, false, false},
    {"+w:", DT::FIXED_SIZED_LIST, true, false, false},
    {"+ud:", DT::DENSE_UNION, false, false, false}, {"+us:", DT::SPARSE_UNION, false, false, false},
};
static bool starts(const char* s, size_t n, const char* p)
{
    const size_t m = std::strlen(p);
    if (n < m) return false;
    bool r = true;
    for (size_t i = 0; i < m; ++i) r &= s[i] == p[i];
    return r;
}
static bool digit(char c) { return (c >= '0') & (c <= '9'); }
SX_ENTRY(c21_any_format, quick, "every string of 0..12 (thorough 20) arbitrary bytes: the type of the format it is; NA for a string that starts no supported format")
{
    const size_t n = sx::choose("size", 0, SX_BOUND(12, 20));
    char s[21]{};
    for (size_t i = 0; i < n; ++i) s[i] = static_cast<char>(sx::sym<unsigned char>("byte"));
    const DT got = sparrow::format_to_data_type(std::string_view(s, n));
    bool known = false, ok = true;
    for (const row& r : table)
    {
        const bool is = (std::strlen(r.format) == n) && starts(s, n, r.format);
        known |= is;
        ok &= !is | (got == r.type);
    }
    SX_ASSERT(ok, "a format string maps to its type");
    bool prefixed = false;
    ok = true;
    for (const row& r : prefixes)
    {
        const size_t m = std::strlen(r.format);
        const bool is = starts(s, n, r.format);
        prefixed |= is;
        if (n > m)
        {
            // with a well-formed parameter (digits) the type is that of the prefix; else at most that
            bool digits = true;
            for (size_t i = m; i < n; ++i) digits &= digit(s[i]) | (r.type == DT::DECIMAL && i > m && i + 1 < n ? s[i] == ',' : false)
                | ((r.type == DT::DENSE_UNION || r.type == DT::SPARSE_UNION) && i > m && i + 1 < n ? s[i] == ',' : false);
            ok &= !(is & digits) | (got == r.type);
        }
        ok &= !is | (got == r.type) | (got == DT::NA);
    }
    SX_ASSERT(ok, "a format with parameters maps to its type");
    // timestamps: tss: tsm: tsu: tsn: and a time zone; the other temporal types share the type
    if (n >= 4)
    {
        const bool ts = (s[0] == 't') & (s[1] == 's') & ((s[2] == 's') | (s[2] == 'm') | (s[2] == 'u') | (s[2] == 'n')) & (s[3] == ':');
        SX_ASSERT(!ts | (got == DT::TIMESTAMP), "timestamps with any unit and time zone");
    }
    const bool temporal = n > 0 && s[0] == 't';
    SX_ASSERT(!temporal | (got == DT::TIMESTAMP) | (got == DT::NA), "temporal formats are timestamps or nothing");
    const bool ree = starts(s, n, "+r");
    SX_ASSERT(known | prefixed | temporal | ree | (got == DT::NA), "no other string has a type");
    SX_ASSERT(sparrow::data_descriptor(std::string_view(s, n)).id() == got, "data_descriptor");
    SX_REACH("any format");
}
SX_ENTRY(c21_types, quick, "all 256 values of data_type: its format, if any, is the one of the C data interface and maps back; the predicates agree with the layout of the format")
{
    const unsigned char v = sx::sym<unsigned char>("type");
    const auto t = static_cast<DT>(v);
    std::string_view f;
    bool has = true;
    try { f = sparrow::data_type_to_format(t); }
    catch (const std::exception&) { has = false; }
    bool named = false;
    for (const row& r : table) named |= r.type == t;
    for (const row& r : prefixes) named |= r.type == t;
    named |= t == DT::TIMESTAMP;
    if (has)
    {
        SX_ASSERT(named, "only types have formats");
        SX_ASSERT(sparrow::format_to_data_type(f) == t, "the format of a type maps back to it");
        SX_ASSERT(f.data()[f.size()] == 0, "the format is a C string");
        SX_REACH("has format");
    }
    bool ok = true;
    for (const row& r : table)
        if (r.type == t)
        {
            ok &= sparrow::data_type_is_primitive(t) == r.primitive;
            ok &= sparrow::data_type_is_integer(t) == r.integer;
            ok &= sparrow::has_bitmap(t) == r.bitmap;
            ok &= has | !(r.primitive | (t == DT::NA) | (t == DT::STRING) | (t == DT::BINARY) | (t == DT::LIST) | (t == DT::LARGE_LIST));
        }
    for (const row& r : prefixes)
        if (r.type == t)
        {
            ok &= !sparrow::data_type_is_primitive(t);
            ok &= !sparrow::data_type_is_integer(t);
            ok &= sparrow::has_bitmap(t) == r.bitmap;
        }
    SX_ASSERT(ok, "predicates");
    SX_ASSERT(sparrow::data_descriptor(t).id() == t, "data_descriptor");
    SX_REACH("types");
}
template <class T>
static void of(DT t, const char* f)
{
    SX_ASSERT(sparrow::arrow_type_id<T>() == t, "type of a C++ type");
    SX_ASSERT(sparrow::data_type_format_of<T>() == f, "format of a C++ type");
    SX_ASSERT(sparrow::arrow_traits<T>::type_id == t, "traits");
}
SX_ENTRY(c21_cpp_types, quick, "the type and format of every supported C++ value type")
{
    of<sparrow::null_type>(DT::NA, "n");
    of<bool>(DT::BOOL, "b");
    of<uint8_t>(DT::UINT8, "C");
    of<int8_t>(DT::INT8, "c");
    of<uint16_t>(DT::UINT16, "S");
    of<int16_t>(DT::INT16, "s");
    of<uint32_t>(DT::UINT32, "I");
    of<int32_t>(DT::INT32, "i");
    of<uint64_t>(DT::UINT64, "L");
    of<int64_t>(DT::INT64, "l");
    of<sparrow::float16_t>(DT::HALF_FLOAT, "e");
    of<float>(DT::FLOAT, "f");
    of<double>(DT::DOUBLE, "g");
    of<std::string>(DT::STRING, "u");
    of<sparrow::list_value>(DT::LIST, "+l");
    SX_ASSERT(sparrow::arrow_type_id<sparrow::struct_value>() == DT::STRUCT, "struct");
    const int64_t x = sx::sym<int64_t>("x");
    SX_ASSERT(sparrow::arrow_type_id(x) == DT::INT64, "type of a value");
    SX_ASSERT(sparrow::data_type_from_size(x) == DT::INT64 && sparrow::data_type_from_size<unsigned char>() == DT::UINT8 && sparrow::data_type_from_size(1.0f) == DT::FLOAT, "by size");
}
SX_ENTRY(c21_flags, quick, "every 64-bit flag word: the list of its flags, or an exception exactly when it has an unknown bit; every list of up to 4 flags, with repetitions")
{
    const int64_t w = sx::sym<int64_t>("flags");
    const bool good = (w & ~int64_t(7)) == 0;
    bool threw = false;
    std::vector<sparrow::ArrowFlag> v;
    try { v = sparrow::to_vector_of_ArrowFlags(w); }
    catch (const std::runtime_error&) { threw = true; }
    SX_ASSERT(threw == !good, "rejects exactly the words with an unknown bit");
    if (!threw)
    {
        int64_t back = 0;
        for (auto f : v)
        {
            SX_ASSERT((back & static_cast<int64_t>(f)) == 0, "each flag once");
            back |= static_cast<int64_t>(f);
        }
        SX_ASSERT(back == w, "the flags of the word");
        SX_ASSERT(sparrow::to_ArrowFlag_value(v) == w, "back to the word");
        SX_REACH("good flags");
    }
    SX_ASSERT(sparrow::is_valid_ArrowFlag_value(w) == ((w == 1) | (w == 2) | (w == 4)), "single flags");
    std::vector<sparrow::ArrowFlag> l;
    int64_t want = 0;
    const size_t n = sx::choose("n", 0, SX_BOUND(3, 4));
    for (size_t i = 0; i < n; ++i)
    {
        const size_t k = sx::range("k", 0, 2);
        l.push_back(static_cast<sparrow::ArrowFlag>(int64_t(1) << k));
        want |= int64_t(1) << k;
    }
    SX_ASSERT(sparrow::to_ArrowFlag_value(l) == want, "the word of a list");
}
struct layout_row
{
    const char* format;
    int buffers;
    // bits per element of the buffers after the validity bitmap; offsets have one element more
    int bits, bits2;
    bool validity, offsets;
    int data;    // 4, 8: a data buffer whose size is the last offset of that width
};
static constexpr layout_row layouts[] = {
    {"b", 2, 1, 0, true, false, 0}, {"c", 2, 8, 0, true, false, 0}, {"C", 2, 8, 0, true, false, 0},
    {"s", 2, 16, 0, true, false, 0}, {"S", 2, 16, 0, true, false, 0}, {"i", 2, 32, 0, true, false, 0}, {"I", 2, 32, 0, true, false, 0},
    {"l", 2, 64, 0, true, false, 0}, {"L", 2, 64, 0, true, false, 0}, {"e", 2, 16, 0, true, false, 0}, {"f", 2, 32, 0, true, false, 0}, {"g", 2, 64, 0, true, false, 0},
    {"u", 3, 32, 0, true, true, 4}, {"z", 3, 32, 0, true, true, 4}, {"U", 3, 64, 0, true, true, 8}, {"Z", 3, 64, 0, true, true, 8},
    {"+l", 2, 32, 0, true, true, 0}, {"+L", 2, 64, 0, true, true, 0}, {"+m", 2, 32, 0, true, true, 0},
    {"+vl", 3, 32, 32, true, false, 0}, {"+vL", 3, 64, 64, true, false, 0}, {"+w:3", 1, 0, 0, true, false, 0}, {"+s", 1, 0, 0, true, false, 0},
    {"+us:0,1", 1, 8, 0, false, false, 0}, {"+ud:0,1", 2, 8, 32, false, false, 0}, {"n", 0, 0, 0, false, false, 0}, {"+r", 0, 0, 0, false, false, 0},
    {"tsn:", 2, 64, 0, true, false, 0}, {"tsm:UTC", 2, 64, 0, true, false, 0},
    {"d:19,10", 2, 128, 0, true, false, 0}, {"d:38,10,128", 2, 128, 0, true, false, 0}, {"d:5,1,32", 2, 32, 0, true, false, 0},
    {"d:15,1,64", 2, 64, 0, true, false, 0}, {"d:60,1,256", 2, 256, 0, true, false, 0},
    {"w:1", 2, 8, 0, true, false, 0}, {"w:3", 2, 24, 0, true, false, 0}, {"w:12", 2, 96, 0, true, false, 0},
};
SX_ENTRY(c21_buffers, quick, "for each of 37 formats, arrays of another producer with 0..3 or 8..9 elements, offset 0..1, with and without validity buffer, symbolic last offset: the number and size of the buffers the format prescribes")
{
    const layout_row& r = layouts[sx::choose("format", 0, sizeof layouts / sizeof *layouts - 1)];
    size_t n = sx::choose("n", 0, 5), off = sx::choose("offset", 0, 1);
    if (n > 3) n += 4;
    const size_t end = n + off;
    ArrowArray a{};
    ArrowSchema s{};
    a.length = static_cast<int64_t>(n);
    a.offset = static_cast<int64_t>(off);
    a.n_buffers = r.buffers;
    const void* bufs[3]{};
    // the buffers are not read, except for the last offset
    alignas(8) unsigned char some[3][96]{};
    size_t last = 0;
    if (r.data == 4)
    {
        const int32_t x = sx::sym<int32_t>("last");
        sx::assume(x >= 0);
        std::memcpy(some[1] + 4 * end, &x, 4);
        last = static_cast<size_t>(x);
    }
    if (r.data == 8)
    {
        const int64_t x = sx::sym<int64_t>("last");
        sx::assume((x >= 0) & (x < (int64_t(1) << 40)));
        std::memcpy(some[1] + 8 * end, &x, 8);
        last = static_cast<size_t>(x);
    }
    for (int i = 0; i < r.buffers; ++i) bufs[i] = some[i];
    const bool omit = r.validity && sx::choose("omit", 0, 1);
    if (omit) bufs[0] = nullptr;
    a.buffers = r.buffers ? bufs : nullptr;
    a.release = [](ArrowArray*) {};
    s.format = r.format;
    s.release = [](ArrowSchema*) {};
    const auto v = sparrow::get_arrow_array_buffers(a, s);
    SX_ASSERT(v.size() == static_cast<size_t>(r.buffers), "number of buffers");
    size_t k = 0;
    if (r.validity)
    {
        SX_ASSERT(v[0].data() == bufs[0] && v[0].size() == (omit ? 0 : (end + 7) / 8), "validity bitmap");
        k = 1;
    }
    if (r.bits)
    {
        SX_ASSERT(v[k].data() == bufs[k] && v[k].size() == ((end + (r.offsets ? 1 : 0)) * static_cast<size_t>(r.bits) + 7) / 8, "size of the first buffer");
        ++k;
    }
    if (r.bits2)
    {
        SX_ASSERT(v[k].data() == bufs[k] && v[k].size() == end * static_cast<size_t>(r.bits2) / 8, "size of the second buffer");
        ++k;
    }
    if (r.data) SX_ASSERT(v[k].data() == bufs[k] && v[k].size() == last, "size of the data buffer");
    SX_REACH("buffers");
}
SX_ENTRY(c21_widths, quick, "w:N with every number of 1..3 digits and with any other byte, d:P,S,B with every bit width of 2..3 digits: the size of the values, or an exception for anything that is not a width")
{
    char f[16] = "w:";
    const bool dec = sx::choose("decimal", 0, 1);
    size_t n = 2;
    if (dec)
    {
        std::memcpy(f, "d:9,2,", 6);
        n = 6;
    }
    const size_t k = sx::choose("digits", dec ? 2 : 1, 3);
    size_t value = 0;
    bool digits = true;
    for (size_t i = 0; i < k; ++i)
    {
        const char c = static_cast<char>(sx::sym<unsigned char>("c"));
        sx::assume((c != 0) & (c != ','));
        f[n++] = c;
        digits &= digit(c);
        value = value * 10 + static_cast<size_t>(c - '0');
    }
    f[n] = 0;
    ArrowArray a{};
    ArrowSchema s{};
    a.length = 2;
    a.n_buffers = 2;
    const void* bufs[2] = {nullptr, f};
    a.buffers = bufs;
    a.release = [](ArrowArray*) {};
    s.format = f;
    s.release = [](ArrowSchema*) {};
    bool threw = false;
    size_t size = 0;
    try { size = sparrow::get_arrow_array_buffers(a, s)[1].size(); }
    catch (const std::exception&) { threw = true; }
    const bool good = digits & (dec ? (value == 32) | (value == 64) | (value == 128) | (value == 256) : value > 0);
    SX_ASSERT(threw == !good, "rejects exactly what is not a width");
    if (!threw) SX_ASSERT(size == (dec ? value / 8 : value) * 2, "size of the values");
    SX_REACH("widths");
}
SX_ENTRY(c21_binary_type, finding, "the type of byte strings")
{
    SX_ASSERT(sparrow::arrow_type_id<std::vector<sparrow::byte_t>>() == DT::BINARY, "type of byte strings");
}
