// Shared oracle for arrays: every way of reading an array against a plain sequence of nullable elements.
#pragma once
#include "model.hpp"
#include <vector>
#include "sparrow/sparrow.hpp"

namespace arr
{
    using model::opt;
    template <class T, size_t CAP = 48>
    using M = model::seq<opt<T>, CAP>;

    template <class T>
    inline bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
    inline bool same(bool a, bool b) { return a == b; }

    // n symbolic elements with symbolic validity
    template <class T, size_t CAP>
    inline void fill(M<T, CAP>& m, size_t n)
    {
        for (size_t i = 0; i < n; ++i) m.push({sx::sym<T>("x"), sx::flag("valid")});
    }
    template <class T, size_t CAP>
    inline size_t nulls(const model::seq<opt<T>, CAP>& m)
    {
        size_t c = 0;
        for (size_t i = 0; i < m.n; ++i) c += m.v[i].has ? 0 : 1;
        return c;
    }
    template <class T, size_t CAP>
    inline std::vector<T> values(const M<T, CAP>& m)
    {
        std::vector<T> v;
        for (size_t i = 0; i < m.n; ++i) v.push_back(m.v[i].x);
        return v;
    }
    template <class T, size_t CAP>
    inline sparrow::validity_bitmap bitmap(const model::seq<opt<T>, CAP>& m)
    {
        sparrow::validity_bitmap b(m.n, true);
        for (size_t i = 0; i < m.n; ++i) b.set(i, m.v[i].has);
        return b;
    }
    template <class A>
    inline int64_t null_count(const A& a) { return sparrow::detail::array_access::get_arrow_proxy(a).null_count(); }

    // every read access of a fixed-width array; count_nulls: also the null_count it exports
    template <class T, class A, size_t CAP>
    inline void check(const A& c, const M<T, CAP>& m, bool count_nulls = true)
    {
        SX_ASSERT(c.size() == m.n, "size");
        SX_ASSERT(c.empty() == (m.n == 0), "empty");
        for (size_t i = 0; i < m.n; ++i)
        {
            auto r = c[i];
            SX_ASSERT(r.has_value() == m.v[i].has, "operator[] validity");
            SX_ASSERT(same<T>(r.get(), m.v[i].x), "operator[] value");
        }
        size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
        {
            SX_ASSERT(i < m.n, "iteration length");
            SX_ASSERT((*it).has_value() == m.v[i].has, "iteration validity");
            SX_ASSERT(same<T>((*it).get(), m.v[i].x), "iteration value");
        }
        SX_ASSERT(i == m.n, "iteration visits all");
        i = 0;
        for (auto&& b : c.bitmap())
        {
            SX_ASSERT(i < m.n, "bitmap() length");
            SX_ASSERT(bool(b) == m.v[i].has, "bitmap() value");
            ++i;
        }
        SX_ASSERT(i == m.n, "bitmap() visits all");
        i = 0;
        for (auto&& v : c.values())
        {
            SX_ASSERT(i < m.n, "values() length");
            SX_ASSERT(same<T>(T(v), m.v[i].x), "values() value");
            ++i;
        }
        SX_ASSERT(i == m.n, "values() visits all");
        if (count_nulls) SX_ASSERT(null_count(c) == static_cast<int64_t>(nulls(m)), "null_count");
    }

    // the remaining accessors
    template <class T, class A, size_t CAP>
    inline void check_more(const A& c, const M<T, CAP>& m)
    {
        size_t i = m.n;
        for (auto it = c.rbegin(); it != c.rend(); ++it)
        {
            SX_ASSERT(i > 0, "reverse iteration length");
            --i;
            SX_ASSERT((*it).has_value() == m.v[i].has && same<T>((*it).get(), m.v[i].x), "reverse iteration");
        }
        SX_ASSERT(i == 0, "reverse iteration visits all");
        SX_ASSERT(c.cend() - c.cbegin() == static_cast<std::ptrdiff_t>(m.n), "iterator distance");
        for (i = 0; i < m.n; ++i)
        {
            auto r = c.at(i);
            SX_ASSERT(r.has_value() == m.v[i].has && same<T>(r.get(), m.v[i].x), "at");
            auto s = c.cbegin()[static_cast<std::ptrdiff_t>(i)];
            SX_ASSERT(s.has_value() == m.v[i].has && same<T>(s.get(), m.v[i].x), "iterator subscript");
        }
        SX_THROWS(std::out_of_range, c.at(m.n), "at(size()) throws");
        if (m.n)
        {
            SX_ASSERT(c.front().has_value() == m.v[0].has && same<T>(c.front().get(), m.v[0].x), "front");
            SX_ASSERT(c.back().has_value() == m.v[m.n - 1].has && same<T>(c.back().get(), m.v[m.n - 1].x), "back");
        }
    }
}
