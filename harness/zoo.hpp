// One array of every layout with symbolic contents, and comparison of elements of any layout.
#pragma once
#include "elem.hpp"
#include "sparrow/layout/variable_size_binary_view_array.hpp"

namespace zoo
{
    using namespace arr;
    using sparrow::list_value;
    using sparrow::struct_value;

    enum layout { P_I32, P_U8, P_F64, L_STR, L_LIST, L_BIGLIST, L_LISTVIEW, L_BIGLISTVIEW, L_FIXED, L_STRUCT, L_SPARSE, L_DENSE, L_DICT, L_RUN, L_NULL, L_DEEP, LAYOUTS };

    // arrays of hundreds of elements: chosen contents
    inline bool plain = false;
    inline bool rare = false;       // most elements are null
    inline uint32_t secret = 0;     // added to some of the values
    inline bool plain_bit(size_t i) { return rare ? i % 16 == 3 : i % 5 != 2 && i % 64 != 63; }
    template <class T>
    inline T plain_value(size_t i)
    {
        if constexpr (std::is_same_v<T, std::string>)
        {
            std::string x((i * 2 + 1) % 4, ' ');
            for (size_t k = 0; k < x.size(); ++k) x[k] = static_cast<char>(i * 31 + k * 7 + (i % 50 == 7 ? secret : 0));
            return x;
        }
        else if constexpr (std::is_integral_v<T>) return static_cast<T>(static_cast<int64_t>(i * 40503 % 100003) - 5000 + (i % 50 == 7 ? static_cast<int64_t>(secret) : 0));
        else return static_cast<T>(static_cast<int64_t>(i * 40503 % 100003) - 5000);
    }
    inline sparrow::validity_bitmap plain_bits(size_t n)
    {
        sparrow::validity_bitmap b(n, true);
        for (size_t i = 0; i < n; ++i) b.set(i, plain_bit(i));
        return b;
    }
    template <class A, class T>
    inline A plain_array(size_t n)
    {
        std::vector<T> v;
        for (size_t i = 0; i < n; ++i) v.push_back(plain_value<T>(i));
        return A(v, plain_bits(n));
    }
    // long arrays: only the bits next to the ends of bytes are symbolic
    inline bool sparse_bits = false;
    inline sparrow::validity_bitmap sym_bits(size_t n)
    {
        if (plain) return plain_bits(n);
        sparrow::validity_bitmap b(n, true);
        for (size_t i = 0; i < n; ++i) b.set(i, !sparse_bits || ((i + 1) % 8 < 2 && i > 0) ? sx::flag("has") : i % 3 != 1);
        return b;
    }
    inline array values_of(kind k, size_t n)
    {
        if (plain) switch (k)
        {
            case STR: return array(plain_array<sparrow::string_array, std::string>(n));
            case F64: return array(plain_array<sparrow::primitive_array<double>, double>(n));
            case U8: return array(plain_array<sparrow::primitive_array<uint8_t>, uint8_t>(n));
            default: return array(plain_array<sparrow::primitive_array<int32_t>, int32_t>(n));
        }
        return to_array(make_child(k, n));
    }
    inline sparrow::null_array make_null(size_t n)
    {
        return sparrow::null_array(sparrow::arrow_proxy(
            sparrow::make_arrow_array(static_cast<int64_t>(n), static_cast<int64_t>(n), 0, std::vector<sparrow::buffer<uint8_t>>{}, 0, nullptr, nullptr),
            sparrow::make_arrow_schema(std::string("n"), std::string("z"), std::nullopt, std::nullopt, 0, nullptr, nullptr)));
    }
    inline size_t list_len(size_t i) { return (2 * i + 2) % 3; }    // 2, 1, 0, 2, ...
    template <class A>
    inline A make_list(size_t n, kind k = I32)
    {
        std::vector<size_t> sizes;
        size_t total = 0;
        for (size_t i = 0; i < n; ++i) { sizes.push_back(list_len(i)); total += list_len(i); }
        return A(values_of(k, total), A::offset_from_sizes(sizes), sym_bits(n));
    }
    template <class A, class O, class Z>
    inline A make_list_view(size_t n)
    {
        sparrow::u8_buffer<O> o(n);
        sparrow::u8_buffer<Z> z(n);
        for (size_t i = 0; i < n; ++i) { o[i] = static_cast<O>((i * 2) % 3); z[i] = static_cast<Z>((i + 1) % 3 ? 1 : 0); }
        if (plain)
            for (size_t i = 0; i < n; ++i) { o[i] = static_cast<O>(i * 101 % 290); z[i] = static_cast<Z>(i % 7); }
        return A(values_of(I32, plain ? 300 : 3), std::move(o), std::move(z), sym_bits(n));
    }
    inline sparrow::struct_array make_struct(size_t n, kind a = I32, kind b = STR)
    {
        std::vector<array> v;
        v.push_back(values_of(a, n));
        v.push_back(values_of(b, n));
        return sparrow::struct_array(std::move(v), sym_bits(n));
    }
    inline sparrow::run_end_encoded_array make_runs(size_t n)
    {
        std::vector<uint32_t> e;    // runs of 1, 2, 1, 2, ... elements
        size_t at = 0;
        while (at < n)
        {
            at += 1 + e.size() % 2;
            if (at > n) at = n;
            e.push_back(static_cast<uint32_t>(at));
        }
        size_t r = e.size();
        return sparrow::run_end_encoded_array(array(sparrow::primitive_array<uint32_t>(e)), values_of(I32, r));
    }
    inline sparrow::dictionary_encoded_array<int8_t> make_dict(size_t n, kind k = STR)
    {
        sparrow::u8_buffer<int8_t> keys(n);
        for (size_t i = 0; i < n; ++i) keys[i] = static_cast<int8_t>(plain ? i * 37 % 100 : (i + 1) % 2);
        return sparrow::dictionary_encoded_array<int8_t>(std::move(keys), values_of(k, plain ? 100 : 2), sym_bits(n));
    }
    // calls f with an rvalue typed array of the layout with n elements
    template <class F>
    inline auto with(layout l, size_t n, F&& f)
    {
        switch (l)
        {
            case P_U8: if (plain) return f(plain_array<sparrow::primitive_array<uint8_t>, uint8_t>(n)); else { child c = make_child(U8, n); return f(sparrow::primitive_array<uint8_t>(values(c.u), bitmap(c.u))); }
            case P_F64: if (plain) return f(plain_array<sparrow::primitive_array<double>, double>(n)); else { child c = make_child(F64, n); return f(sparrow::primitive_array<double>(values(c.d), bitmap(c.d))); }
            case L_STR: if (plain) return f(plain_array<sparrow::string_array, std::string>(n)); else { child c = make_child(STR, n); return f(sparrow::string_array(str_values<std::string>(c.s), bitmap(c.s))); }
            case L_LIST: return f(make_list<sparrow::list_array>(n));
            case L_BIGLIST: return f(make_list<sparrow::big_list_array>(n, STR));
            case L_LISTVIEW: return f(make_list_view<sparrow::list_view_array, int32_t, uint32_t>(n));
            case L_BIGLISTVIEW: return f(make_list_view<sparrow::big_list_view_array, int64_t, uint64_t>(n));
            case L_FIXED: return f(sparrow::fixed_sized_list_array(uint64_t(2), values_of(I32, 2 * n), sym_bits(n)));
            case L_STRUCT: return f(make_struct(n));
            case L_SPARSE:
            {
                std::vector<array> v;
                v.push_back(values_of(I32, n));
                v.push_back(values_of(STR, n));
                sparrow::u8_buffer<uint8_t> ids(n);
                for (size_t i = 0; i < n; ++i) ids[i] = static_cast<uint8_t>(i % 2);
                return f(sparrow::sparse_union_array(std::move(v), std::move(ids)));
            }
            case L_DENSE:
            {
                std::vector<array> v;
                v.push_back(values_of(I32, n));
                v.push_back(values_of(STR, n));
                sparrow::u8_buffer<uint8_t> ids(n);
                sparrow::u8_buffer<uint32_t> at(n);
                for (size_t i = 0; i < n; ++i) { ids[i] = static_cast<uint8_t>((i + 1) % 2); at[i] = static_cast<uint32_t>(i / 2); }
                return f(sparrow::dense_union_array(std::move(v), std::move(ids), std::move(at)));
            }
            case L_DICT: return f(make_dict(n));
            case L_RUN: return f(make_runs(n));
            case L_NULL: return f(make_null(n));
            case L_DEEP:    // struct of a list of structs and of a dictionary
            {
                std::vector<size_t> sizes;
                size_t total = 0;
                for (size_t i = 0; i < n; ++i) { sizes.push_back(list_len(i)); total += list_len(i); }
                std::vector<array> v;
                v.push_back(array(sparrow::list_array(array(make_struct(total, U8, I32)), sparrow::list_array::offset_from_sizes(sizes), sym_bits(n))));
                v.push_back(array(make_dict(n, I32)));
                return f(sparrow::struct_array(std::move(v), sym_bits(n)));
            }
            default: if (plain) return f(plain_array<sparrow::primitive_array<int32_t>, int32_t>(n)); else {child c = make_child(I32, n); return f(sparrow::primitive_array<int32_t>(values(c.i), bitmap(c.i))); }
        }
    }
    inline layout choose_layout() { return static_cast<layout>(sx::choose("layout", 0, LAYOUTS - 1)); }
    inline array make(layout l, size_t n)
    {
        return with(l, n, [](auto&& a) { return array(std::move(a)); });
    }

    // same type, both null or the same value, recursively; without branches on symbolic values
    bool deep(const elem_t& a, const elem_t& b);
    template <class T>
    inline bool deep_value(const T& a, const T& b)
    {
        if constexpr (std::is_same_v<T, sparrow::null_type>) return true;
        else if constexpr (std::is_same_v<T, std::string_view>)
        {
            if (a.size() != b.size()) return false;
            bool ok = true;
            for (size_t i = 0; i < a.size(); ++i) ok &= a[i] == b[i];
            return ok;
        }
        else if constexpr (std::is_same_v<T, list_value> || std::is_same_v<T, struct_value>)
        {
            if (a.size() != b.size()) return false;
            bool ok = true;
            for (size_t i = 0; i < a.size(); ++i) ok &= deep(a[i], b[i]);
            return ok;
        }
        else return same<T>(a, b);
    }
    inline bool deep(const elem_t& a, const elem_t& b)
    {
        const typename elem_t::base_type &x = a, &y = b;
        if (x.index() != y.index()) return false;
        return std::visit(
            [&](const auto& u) -> bool
            {
                using N = std::remove_cvref_t<decltype(u)>;
                const N* v = std::get_if<N>(&y);
                using V = std::remove_cvref_t<decltype(u.get())>;
                bool h = u.has_value();
                bool ok = (h == v->has_value()) & (a.has_value() == h) & (b.has_value() == h);
                return ok & (!h | deep_value<V>(u.get(), v->get()));
            },
            x);
    }
    inline sparrow::arrow_proxy& proxy(auto& a) { return sparrow::detail::array_access::get_arrow_proxy(a); }
    inline const sparrow::arrow_proxy& proxy(const auto& a) { return sparrow::detail::array_access::get_arrow_proxy(a); }
}
