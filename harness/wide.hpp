// Arrays of hundreds of elements built by sparrow from chosen contents, against those contents.
#pragma once
#include <initializer_list>
#include "spec.hpp"

namespace zoo
{
    inline bool is_i32(const elem_t& e, size_t i) { return is_prim<int32_t>(e, {plain_value<int32_t>(i), plain_bit(i)}); }
    inline bool is_text(const elem_t& e, size_t i, bool has = true)
    {
        const typename elem_t::base_type& v = e;
        const auto* r = std::get_if<sparrow::nullable<std::string_view>>(&v);
        if (!r || r->has_value() != (has && plain_bit(i))) return false;
        const std::string x = plain_value<std::string>(i);
        if (!r->has_value()) return true;
        if (r->get().size() != x.size()) return false;
        bool ok = true;
        for (size_t k = 0; k < x.size(); ++k) ok &= r->get()[k] == x[k];
        return ok;
    }
    // e is a list of the elements [b, b + n) of a child
    template <class F>
    inline bool is_list(const elem_t& e, size_t i, size_t b, size_t n, F&& f)
    {
        const typename elem_t::base_type& v = e;
        const auto* r = std::get_if<sparrow::nullable<list_value>>(&v);
        if (!r || r->has_value() != plain_bit(i)) return false;
        if (!r->has_value()) return true;
        if (r->get().size() != n) return false;
        bool ok = true;
        for (size_t k = 0; k < n; ++k) ok &= f(r->get()[k], b + k);
        return ok;
    }
    // e is element i of an array of the layout made by with() in the mode plain
    inline bool wanted(layout l, const elem_t& e, size_t i)
    {
        auto text = [](const elem_t& x, size_t k) { return is_text(x, k); };
        switch (l)
        {
            case P_I32: return is_i32(e, i);
            case P_U8: return is_prim<uint8_t>(e, {plain_value<uint8_t>(i), plain_bit(i)});
            case P_F64: return is_prim<double>(e, {plain_value<double>(i), plain_bit(i)});
            case L_STR: return is_text(e, i);
            case L_LIST: return is_list(e, i, i / 3 * 3 + (i % 3 == 1 ? 2 : i % 3 == 2 ? 3 : 0), list_len(i), is_i32);
            case L_BIGLIST: return is_list(e, i, i / 3 * 3 + (i % 3 == 1 ? 2 : i % 3 == 2 ? 3 : 0), list_len(i), text);
            case L_LISTVIEW:
            case L_BIGLISTVIEW: return is_list(e, i, i * 101 % 290, i % 7, is_i32);
            case L_FIXED: return is_list(e, i, 2 * i, 2, is_i32);
            case L_STRUCT:
            {
                const typename elem_t::base_type& v = e;
                const auto* r = std::get_if<sparrow::nullable<struct_value>>(&v);
                if (!r || r->has_value() != plain_bit(i)) return false;
                if (!r->has_value()) return true;
                return r->get().size() == 2 && is_i32(r->get()[0], i) && is_text(r->get()[1], i);
            }
            case L_SPARSE: return i % 2 ? is_text(e, i) : is_i32(e, i);
            case L_DENSE: return i % 2 ? is_i32(e, i / 2) : is_text(e, i / 2);
            case L_DICT: return is_text(e, i * 37 % 100, plain_bit(i));
            case L_RUN: return is_i32(e, i / 3 * 2 + (i % 3 ? 1 : 0));
            case L_NULL: return !e.has_value();
            default: return true;
        }
    }
    inline void owned_wide(std::initializer_list<layout> layouts)
    {
        const layout l = layouts.begin()[sx::choose("which", 0, layouts.size() - 1)];
        const size_t n = sx::choose("n", 0, 1) ? 300 : 257;
        plain = true;
        rare = sx::choose("rare", 0, 1);
        secret = sx::sym<uint8_t>("secret");
        auto check = [&](const auto& c)
        {
            SX_ASSERT(c.size() == n, "size");
            for (size_t i = 0; i < n; ++i) SX_ASSERT(wanted(l, elem_t(c[i]), i), "element");
            size_t i = 0;
            for (auto it = c.begin(); it != c.end(); ++it, ++i) { SX_ASSERT(i < n && wanted(l, elem_t(*it), i), "iteration"); }
            SX_ASSERT(i == n, "iteration visits all");
            const auto& p = proxy(c);
            spec::check_conforms(p.array(), p.schema());
            for (i = 0; i < n; i += i % 64 == 63 ? 1 : 7) SX_ASSERT(spec::is(p.array(), p.schema(), static_cast<int64_t>(i), elem_t(c[i])), "element of the structures");
        };
        with(l, n, [&](auto&& t)
        {
            using T = std::remove_cvref_t<decltype(t)>;
            switch (sx::choose("what", 0, 2))
            {
                case 0: check(std::as_const(t)); break;
                case 1: { const T b(t); check(b); break; }
                default: { const T b(std::move(t)); check(b); }
            }
        });
        SX_REACH("wide");
    }
}
