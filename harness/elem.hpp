// Oracle for elements of type-erased arrays and for nested layouts: children of several types.
#pragma once
#include "strarr.hpp"
#include "sparrow/array.hpp"
#include "sparrow/layout/run_end_encoded_layout/run_end_encoded_array.hpp"

namespace arr
{
    using elem_t = sparrow::array_traits::const_reference;
    using sparrow::array;

    // a child array of int32, string or double elements, or of lists of int32
    enum kind { I32 = 0, STR = 1, F64 = 2, U8 = 3 };
    struct child
    {
        kind k = I32;
        M<int32_t, 40> i;
        SM<40> s;
        M<double, 40> d;
        M<uint8_t, 40> u;
        size_t n = 0;
    };
    inline child make_child(kind k, size_t n)
    {
        child c;
        c.k = k;
        c.n = n;
        if (k == I32) fill(c.i, n);
        if (k == STR) fill_str_pattern(c.s, n, 3);
        if (k == F64) fill(c.d, n);
        if (k == U8) fill(c.u, n);
        return c;
    }
    inline child choose_child(size_t n, size_t kinds = 2) { return make_child(static_cast<kind>(sx::choose("kind", 0, kinds - 1)), n); }
    template <class T>
    inline array prim(const M<T, 40>& m) { return array(sparrow::primitive_array<T>(values(m), bitmap(m))); }
    inline array to_array(const child& c)
    {
        switch (c.k)
        {
            case STR: return array(sparrow::string_array(str_values<std::string>(c.s), bitmap(c.s)));
            case F64: return prim(c.d);
            case U8: return prim(c.u);
            default: return prim(c.i);
        }
    }
    template <class T>
    inline bool is_prim(const elem_t& e, const opt<T>& x)
    {
        using R = sparrow::nullable<const T&>;
        const typename elem_t::base_type& v = e;
        const R* r = std::get_if<R>(&v);
        if (!r) return false;
        return r->has_value() == x.has && same<T>(r->get(), x.x) && e.has_value() == x.has;
    }
    inline bool is_str(const elem_t& e, const opt<S>& x)
    {
        using R = sparrow::nullable<std::string_view>;
        const typename elem_t::base_type& v = e;
        const R* r = std::get_if<R>(&v);
        if (!r) return false;
        return r->has_value() == x.has && eq(r->get(), x.x) && e.has_value() == x.has;
    }
    // element e is element i of the child
    inline bool is(const elem_t& e, const child& c, size_t i)
    {
        switch (c.k)
        {
            case STR: return is_str(e, c.s.v[i]);
            case F64: return is_prim<double>(e, c.d.v[i]);
            case U8: return is_prim<uint8_t>(e, c.u.v[i]);
            default: return is_prim<int32_t>(e, c.i.v[i]);
        }
    }
    inline bool has(const child& c, size_t i)
    {
        switch (c.k)
        {
            case STR: return c.s.v[i].has;
            case F64: return c.d.v[i].has;
            case U8: return c.u.v[i].has;
            default: return c.i.v[i].has;
        }
    }
    template <class T>
    inline const T* get_alt(const elem_t& e)
    {
        const typename elem_t::base_type& v = e;
        return std::get_if<T>(&v);
    }
    // a child of 2^62 elements: four runs that end at 100, 40000, 3000000000 and 2^62
    struct huge
    {
        static constexpr uint64_t SIZE = uint64_t(1) << 62;
        static constexpr uint64_t ENDS[4] = {100, 40000, 3000000000u, SIZE};
        child c = make_child(I32, 4);
        array make() const
        {
            return array(sparrow::run_end_encoded_array(array(sparrow::primitive_array<uint64_t>(std::vector<uint64_t>(ENDS, ENDS + 4))), to_array(c)));
        }
        bool is_at(const elem_t& e, uint64_t i) const
        {
            for (size_t k = 0; k < 4; ++k)
                if (i < ENDS[k]) return is(e, c, k);
            return false;
        }
    };
}
