// Reading ArrowArray/ArrowSchema structures per the Arrow columnar format and C data interface
// specifications, independently of sparrow's code.
#pragma once
#include "zoo.hpp"
#include "sparrow/c_interface.hpp"

namespace spec
{
    using namespace zoo;

    template <class T>
    inline T load(const void* p, int64_t i)
    {
        T x;
        std::memcpy(&x, static_cast<const unsigned char*>(p) + static_cast<size_t>(i) * sizeof(T), sizeof(T));
        return x;
    }
    inline bool fmt(const ArrowSchema& s, const char* f) { return std::strcmp(s.format, f) == 0; }
    inline bool starts(const ArrowSchema& s, const char* f) { return std::strncmp(s.format, f, std::strlen(f)) == 0; }
    inline bool has_validity(const ArrowSchema& s) { return !fmt(s, "n") && !starts(s, "+u") && !fmt(s, "+r"); }
    // i is relative to the offset
    inline bool valid(const ArrowArray& a, const ArrowSchema& s, int64_t i)
    {
        if (!has_validity(s)) return true;
        const auto* bits = static_cast<const unsigned char*>(a.buffers[0]);
        if (!bits) return true;
        i += a.offset;
        return (bits[i / 8] >> (i % 8)) & 1;
    }
    // the child of a union a type id designates
    inline int64_t union_child(const ArrowSchema& s, int id)
    {
        const char* p = s.format + 4;
        int64_t child = 0;
        while (*p)
        {
            int v = 0;
            while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0');
            if (v == id) return child;
            ++child;
            if (*p == ',') ++p;
        }
        return -1;
    }
    inline int64_t number(const char* p)
    {
        int64_t v = 0;
        while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0');
        return v;
    }
    inline int64_t run_end(const ArrowArray& r, const ArrowSchema& s, int64_t i)
    {
        i += r.offset;
        switch (s.format[0])
        {
            case 's': return load<int16_t>(r.buffers[1], i);
            case 'i': return load<int32_t>(r.buffers[1], i);
            case 'l': return load<int64_t>(r.buffers[1], i);
            // sparrow writes unsigned run ends
            case 'S': return load<uint16_t>(r.buffers[1], i);
            case 'I': return load<uint32_t>(r.buffers[1], i);
            default: return static_cast<int64_t>(load<uint64_t>(r.buffers[1], i));
        }
    }
    inline int64_t key(const ArrowArray& a, const ArrowSchema& s, int64_t i)
    {
        i += a.offset;
        switch (s.format[0])
        {
            case 'c': return load<int8_t>(a.buffers[1], i);
            case 'C': return load<uint8_t>(a.buffers[1], i);
            case 's': return load<int16_t>(a.buffers[1], i);
            case 'S': return load<uint16_t>(a.buffers[1], i);
            case 'i': return load<int32_t>(a.buffers[1], i);
            case 'I': return load<uint32_t>(a.buffers[1], i);
            case 'l': return load<int64_t>(a.buffers[1], i);
            default: return static_cast<int64_t>(load<uint64_t>(a.buffers[1], i));
        }
    }
    bool is(const ArrowArray& a, const ArrowSchema& s, int64_t i, const elem_t& e);
    template <class T>
    inline bool prim_is(const ArrowArray& a, const ArrowSchema& s, int64_t i, const elem_t& e)
    {
        const auto* r = get_alt<sparrow::nullable<const T&>>(e);
        if (!r) return false;
        bool h = valid(a, s, i);
        return (r->has_value() == h) & (!h | same<T>(r->get(), load<T>(a.buffers[1], i + a.offset)));
    }
    template <class O>
    inline bool str_is(const ArrowArray& a, const ArrowSchema& s, int64_t i, const elem_t& e)
    {
        const auto* r = get_alt<sparrow::nullable<std::string_view>>(e);
        if (!r) return false;
        bool h = valid(a, s, i);
        const bool nulls = r->has_value() == h;    // no branches on validity, which may be symbolic
        O b = load<O>(a.buffers[1], i + a.offset), f = load<O>(a.buffers[1], i + a.offset + 1);
        if (static_cast<O>(r->get().size()) != f - b) return nulls & !h;
        bool ok = true;
        for (O k = b; k < f; ++k)
            ok &= static_cast<const char*>(a.buffers[2])[k] == r->get()[static_cast<size_t>(k - b)];
        return nulls & (!h | ok);
    }
    // elements [b, f) of the child against a list value
    inline bool list_is(const ArrowArray& a, const ArrowSchema& s, int64_t i, int64_t b, int64_t f, const elem_t& e)
    {
        const auto* r = get_alt<sparrow::nullable<list_value>>(e);
        if (!r) return false;
        bool h = valid(a, s, i);
        const bool nulls = r->has_value() == h;
        list_value v = r->get();
        if (static_cast<int64_t>(v.size()) != f - b) return nulls & !h;
        bool ok = true;
        for (int64_t k = b; k < f; ++k) ok &= is(*a.children[0], *s.children[0], k, v[static_cast<size_t>(k - b)]);
        return nulls & (!h | ok);
    }
    inline bool null_elem(const elem_t& e) { return !e.has_value(); }
    // element i of the structures is e
    inline bool is(const ArrowArray& a, const ArrowSchema& s, int64_t i, const elem_t& e)
    {
        const int64_t at = i + a.offset;
        if (s.dictionary)
        {
            if (!valid(a, s, i)) return null_elem(e);
            return is(*a.dictionary, *s.dictionary, key(a, s, i), e);
        }
        if (fmt(s, "n"))
        {
            return get_alt<sparrow::nullable<sparrow::null_type>>(e) && null_elem(e);
        }
        if (fmt(s, "c")) return prim_is<int8_t>(a, s, i, e);
        if (fmt(s, "C")) return prim_is<uint8_t>(a, s, i, e);
        if (fmt(s, "s")) return prim_is<int16_t>(a, s, i, e);
        if (fmt(s, "S")) return prim_is<uint16_t>(a, s, i, e);
        if (fmt(s, "i")) return prim_is<int32_t>(a, s, i, e);
        if (fmt(s, "I")) return prim_is<uint32_t>(a, s, i, e);
        if (fmt(s, "l")) return prim_is<int64_t>(a, s, i, e);
        if (fmt(s, "L")) return prim_is<uint64_t>(a, s, i, e);
        if (fmt(s, "e")) return prim_is<sparrow::float16_t>(a, s, i, e);
        if (fmt(s, "f")) return prim_is<float>(a, s, i, e);
        if (fmt(s, "g")) return prim_is<double>(a, s, i, e);
        if (fmt(s, "u")) return str_is<int32_t>(a, s, i, e);
        if (fmt(s, "U")) return str_is<int64_t>(a, s, i, e);
        if (fmt(s, "+l")) return list_is(a, s, i, load<int32_t>(a.buffers[1], at), load<int32_t>(a.buffers[1], at + 1), e);
        if (fmt(s, "+L")) return list_is(a, s, i, load<int64_t>(a.buffers[1], at), load<int64_t>(a.buffers[1], at + 1), e);
        if (fmt(s, "+vl"))
        {
            int64_t b = load<int32_t>(a.buffers[1], at);
            return list_is(a, s, i, b, b + load<int32_t>(a.buffers[2], at), e);
        }
        if (fmt(s, "+vL"))
        {
            int64_t b = load<int64_t>(a.buffers[1], at);
            return list_is(a, s, i, b, b + load<int64_t>(a.buffers[2], at), e);
        }
        if (starts(s, "+w:"))
        {
            int64_t w = number(s.format + 3);
            return list_is(a, s, i, at * w, at * w + w, e);
        }
        if (fmt(s, "+s"))
        {
            const auto* r = get_alt<sparrow::nullable<struct_value>>(e);
            if (!r) return false;
            bool h = valid(a, s, i);
            const bool nulls = r->has_value() == h;
            struct_value v = r->get();
            if (static_cast<int64_t>(v.size()) != s.n_children) return nulls & !h;
            bool ok = true;
            for (int64_t k = 0; k < s.n_children; ++k) ok &= is(*a.children[k], *s.children[k], at, v[static_cast<size_t>(k)]);
            return nulls & (!h | ok);
        }
        if (starts(s, "+us:"))
        {
            int64_t c = union_child(s, load<int8_t>(a.buffers[0], at));
            return c >= 0 && is(*a.children[c], *s.children[c], at, e);
        }
        if (starts(s, "+ud:"))
        {
            int64_t c = union_child(s, load<int8_t>(a.buffers[0], at));
            return c >= 0 && is(*a.children[c], *s.children[c], load<int32_t>(a.buffers[1], at), e);
        }
        if (fmt(s, "+r"))
        {
            int64_t r = 0;
            while (run_end(*a.children[0], *s.children[0], r) <= at) ++r;
            return is(*a.children[1], *s.children[1], r, e);
        }
        return false;
    }
    inline int64_t buffers_of(const ArrowSchema& s)
    {
        const char* f = s.format;
        if (fmt(s, "n") || fmt(s, "+r")) return 0;
        if (fmt(s, "+s") || starts(s, "+w:") || starts(s, "+us:")) return 1;
        if (fmt(s, "u") || fmt(s, "z") || fmt(s, "U") || fmt(s, "Z") || fmt(s, "+vl") || fmt(s, "+vL")) return 3;
        (void)f;
        return 2;
    }
    inline int64_t commas(const char* f) { int64_t n = 0; while (*f) n += *f++ == ','; return n; }
    // the children count the format prescribes, -1 for any
    inline int64_t children_of(const ArrowSchema& s)
    {
        if (fmt(s, "+s")) return -1;
        if (fmt(s, "+r")) return 2;
        if (starts(s, "+u")) return s.format[4] ? commas(s.format) + 1 : 0;
        return s.format[0] == '+' ? 1 : 0;
    }
    // the nulls the validity bitmap designates
    inline int64_t nulls_of(const ArrowArray& a, const ArrowSchema& s)
    {
        if (fmt(s, "n")) return a.length;
        int64_t n = 0;
        for (int64_t i = 0; i < a.length; ++i) n += valid(a, s, i) ? 0 : 1;
        return n;
    }
    // structural rules of the C data interface, recursively; why: the rule that failed
    inline bool conforms(const ArrowArray& a, const ArrowSchema& s, const char** why)
    {
#define SPEC_RULE(c, text) if (!(c)) { *why = text; return false; }
        SPEC_RULE(a.release != nullptr, "array not released")
        SPEC_RULE(s.release != nullptr, "schema not released")
        SPEC_RULE(s.format != nullptr, "format")
        SPEC_RULE(a.length >= 0, "length")
        SPEC_RULE(a.offset >= 0, "offset")
        SPEC_RULE(a.n_buffers == buffers_of(s), "number of buffers")
        SPEC_RULE(a.n_children == s.n_children, "children of the array and of the schema")
        int64_t kids = children_of(s);
        SPEC_RULE(kids < 0 || kids == s.n_children, "number of children")
        SPEC_RULE(a.n_children == 0 || (a.children != nullptr && s.children != nullptr), "children pointers")
        SPEC_RULE(a.n_buffers == 0 || a.buffers != nullptr, "buffers pointer")
        SPEC_RULE((a.dictionary == nullptr) == (s.dictionary == nullptr), "dictionary of the array and of the schema")
        SPEC_RULE((s.flags & ~int64_t(7)) == 0, "flags")
        if (!has_validity(s) && !fmt(s, "n")) { SPEC_RULE(a.null_count >= -1 && a.null_count <= a.length, "null count range") }
        else SPEC_RULE(a.null_count == -1 || a.null_count == nulls_of(a, s), "null count")
        const int64_t end = a.offset + a.length;
        for (int64_t k = 0; k < a.n_children; ++k)
        {
            SPEC_RULE(a.children[k] != nullptr && s.children[k] != nullptr, "child pointers")
            if (!conforms(*a.children[k], *s.children[k], why)) return false;
            if (fmt(s, "+s") || starts(s, "+us:")) SPEC_RULE(a.children[k]->length >= end, "child length")
        }
        if (starts(s, "+w:")) SPEC_RULE(a.children[0]->length >= end * number(s.format + 3), "child length of a fixed-size list")
        if (fmt(s, "+l") && end) SPEC_RULE(a.children[0]->length >= load<int32_t>(a.buffers[1], end), "child length of a list")
        if (fmt(s, "+L") && end) SPEC_RULE(a.children[0]->length >= load<int64_t>(a.buffers[1], end), "child length of a list")
        if (fmt(s, "+r")) SPEC_RULE(a.children[0]->length == a.children[1]->length && a.children[0]->null_count == 0, "children of a run-end encoded array")
        if (a.dictionary && !conforms(*a.dictionary, *s.dictionary, why)) return false;
        return true;
#undef SPEC_RULE
    }
    // every element of a, read from the structures
    template <class A>
    inline void check_elements(const A& a, const ArrowArray& arr, const ArrowSchema& sch)
    {
        SX_ASSERT(static_cast<int64_t>(a.size()) == arr.length, "length");
        for (size_t i = 0; i < a.size(); ++i) SX_ASSERT(is(arr, sch, static_cast<int64_t>(i), a[i]), "element read per the specification");
    }
    inline void check_conforms(const ArrowArray& a, const ArrowSchema& s)
    {
        const char* why = "";
        bool ok = conforms(a, s, &why);
        SX_ASSERT(ok, why);
    }
}
