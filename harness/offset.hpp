// Typed arrays of one layout over the structures of another producer, at an offset: the entries of the
// properties of the layouts share them with the import property.
#pragma once
#include "foreign.hpp"

namespace foreign
{
    template <class F>
    inline void typed(layout l, node* f, F&& go)
    {
        auto p = [&] { return sparrow::arrow_proxy(&f->a, &f->s); };
        switch (l)
        {
            case P_U8: go(sparrow::primitive_array<uint8_t>(p())); break;
            case P_F64: go(sparrow::primitive_array<double>(p())); break;
            case L_STR: go(sparrow::string_array(p())); break;
            case L_LIST: go(sparrow::list_array(p())); break;
            case L_BIGLIST: go(sparrow::big_list_array(p())); break;
            case L_LISTVIEW: go(sparrow::list_view_array(p())); break;
            case L_BIGLISTVIEW: go(sparrow::big_list_view_array(p())); break;
            case L_FIXED: go(sparrow::fixed_sized_list_array(p())); break;
            case L_STRUCT: case L_DEEP: go(sparrow::struct_array(p())); break;
            case L_SPARSE: go(sparrow::sparse_union_array(p())); break;
            case L_DENSE: go(sparrow::dense_union_array(p())); break;
            case L_DICT: go(sparrow::dictionary_encoded_array<int8_t>(p())); break;
            case L_RUN: go(sparrow::run_end_encoded_array(p())); break;
            case L_NULL: go(sparrow::null_array(p())); break;
            default: go(sparrow::primitive_array<int32_t>(p()));
        }
    }
    // every way of reading the elements of an array with the structures of f
    template <class A>
    inline void read_all(A& t, const node* f)
    {
        SX_ASSERT(static_cast<int64_t>(t.size()) == f->a.length, "length");
        for (size_t i = 0; i < t.size(); ++i)
            if constexpr (requires { elem_t(t[i]); })
                SX_ASSERT(is(f->a, f->s, static_cast<int64_t>(i), elem_t(t[i])), "element");
            else
                SX_ASSERT(t[i].has_value() == valid(f->a, f->s, static_cast<int64_t>(i)), "validity");
        size_t i = 0;
        for (auto it = t.begin(); it != t.end(); ++it, ++i)
        {
            SX_ASSERT(i < t.size(), "iteration length");
            if constexpr (requires { elem_t(*it); })
                SX_ASSERT(is(f->a, f->s, static_cast<int64_t>(i), elem_t(*it)), "iteration");
        }
        SX_ASSERT(i == t.size(), "iteration visits all");
    }
    inline void at_offset(std::initializer_list<layout> ls, size_t maxn = 2)
    {
        const layout l = ls.begin()[sx::choose("layout", 0, ls.size() - 1)];
        static const size_t offs[] = {1, 2, 9};
        const size_t n = sx::choose("n", 0, maxn), off = offs[sx::choose("offset", 0, 2)];
        const auto v = static_cast<validity>(sx::choose("validity", 0, VALIDITIES - 1));
        concrete_validity = off == 9 && (l == L_DICT || l == L_DEEP);
        node* f = make(l, n, off, v, n == 2 ? COUNTED : OMITTED);
        node* g = make(l, 1, 0, OMITTED, OMITTED);
        typed(l, f, [&](auto&& t)
        {
            using A = std::remove_cvref_t<decltype(t)>;
            read_all(t, f);
            const A& c = t;
            read_all(c, f);
            switch (sx::choose("then", 0, 2))
            {
                case 0: { const A d(c); read_all(d, f); break; }
                case 1: { array d{A(c)}; check_elements(d, f->a, f->s); break; }
                default: typed(l, g, [&](auto&& u) { if constexpr (std::same_as<std::remove_cvref_t<decltype(u)>, A>) { u = c; read_all(u, f); } });
            }
        });
        destroy(f, 0);
        destroy(g, 0);
        SX_REACH("at an offset");
    }
    // the same over hundreds of elements of chosen contents
    inline void wide(std::initializer_list<layout> ls)
    {
        const layout l = ls.begin()[sx::choose("layout", 0, ls.size() - 1)];
        static const size_t offs[] = {0, 1, 257};
        plain = true;
        const size_t n = 300, off = offs[sx::choose("offset", 0, 2)];
        const auto v = static_cast<validity>(sx::choose("validity", 0, VALIDITIES - 1));
        node* f = make(l, n, off, v, v == OMITTED ? COUNTED : OMITTED);
        typed(l, f, [&](auto&& t)
        {
            using A = std::remove_cvref_t<decltype(t)>;
            read_all(t, f);
            const A& c = t;
            switch (sx::choose("then", 0, 1))
            {
                case 0: { const A d(c); read_all(d, f); break; }
                default:
                {
                    const array d{A(c)};
                    check_elements(d, f->a, f->s);
                    const array s = d.slice(258, 299);
                    SX_ASSERT(s.size() == 41, "size of the slice");
                    for (size_t i = 0; i < 41; ++i) SX_ASSERT(is(f->a, f->s, static_cast<int64_t>(258 + i), s[i]), "element of the slice");
                }
            }
        });
        destroy(f, 0);
        SX_REACH("wide");
    }
    // string views with inline and out-of-line elements in the first and the last of the data buffers
    inline void string_view_import()
    {
        const size_t data = sx::choose("more", 0, 1) ? 6 : 2;
        size_t off = sx::choose("offset", 0, 1), n = 3 - off;
        // structures by hand: validity, views, two data buffers, sizes
        auto v = static_cast<validity>(sx::choose("validity", 0, VALIDITIES - 1));
        const void* bufs[9]{};
        ArrowArray a{};
        ArrowSchema s{};
        a.length = static_cast<int64_t>(n);
        a.offset = static_cast<int64_t>(off);
        a.n_buffers = static_cast<int64_t>(3 + data);
        a.buffers = bufs;
        a.release = [](ArrowArray* p) { p->release = nullptr; };
        s.format = "vu";
        s.release = [](ArrowSchema* p) { p->release = nullptr; };
        unsigned char views[48], data0[20], data1[16], bits = sx::sym<unsigned char>("bits");
        int64_t sizes[6] = {20, 16, 16, 16, 16, 16};
        static const unsigned char other[16] = {};
        for (auto& c : views) c = sx::sym<unsigned char>("v");
        for (auto& c : data0) c = sx::sym<unsigned char>("d");
        for (auto& c : data1) c = sx::sym<unsigned char>("e");
        const unsigned char* at[3];
        size_t len[3];
        for (size_t i = 0; i < 3; ++i)
        {
            len[i] = i == 0 ? 5 : i == 1 ? 14 : 13;
            size_t k = sx::choose("kind", 0, 1);
            if (k == 0)
            {
                len[i] = 12 - i * 6;
                at[i] = views + 16 * i + 4;
            }
            else
            {
                len[i] = 13 + i % 2;
                put<int32_t>(views + 16 * i, 2, static_cast<int32_t>(i % 2 ? data - 1 : 0));
                put<int32_t>(views + 16 * i, 3, static_cast<int32_t>(i + 1));
                at[i] = (i % 2 ? data1 : data0) + i + 1;
            }
            put<int32_t>(views + 16 * i, 0, static_cast<int32_t>(len[i]));
        }
        bufs[0] = v == OMITTED ? nullptr : &bits;
        bufs[1] = views;
        bufs[2] = data0;
        for (size_t k = 1; k < data; ++k) bufs[2 + k] = other;
        bufs[1 + data] = data1;
        bufs[2 + data] = sizes;
        a.null_count = v == OMITTED ? 0 : v == UNCOUNTED ? -1 : nulls_of(a, s);
        auto check = [&](const sparrow::string_view_array& t)
        {
            SX_ASSERT(t.size() == n, "size");
            for (size_t i = 0; i < n; ++i)
            {
                auto r = t[i];
                SX_ASSERT(r.has_value() == (v == OMITTED || ((bits >> (i + off)) & 1)), "validity");
                SX_ASSERT(r.get().size() == len[i + off], "length");
                bool ok = true;
                for (size_t k = 0; k < len[i + off]; ++k) ok &= static_cast<unsigned char>(r.get()[k]) == at[i + off][k];
                SX_ASSERT(ok, "bytes");
            }
        };
        const sparrow::string_view_array t(sparrow::arrow_proxy(&a, &s));
        check(t);
        const sparrow::string_view_array u(t);
        check(u);
        SX_REACH("string view");
    }
}
