// Oracle for arrays of byte strings (string, binary, their view layouts).
#pragma once
#include "arr.hpp"
#include <string>
#include <string_view>
#include <span>

namespace arr
{
    using S = model::bytes<16>;
    template <size_t CAP = 24>
    using SM = model::seq<opt<S>, CAP>;

    inline S sym_bytes(size_t n)
    {
        S s;
        s.n = n;
        for (size_t i = 0; i < n; ++i) s.c[i] = sx::sym<unsigned char>("c");
        return s;
    }
    // n byte strings of chosen length <= maxlen, symbolic bytes, symbolic validity
    template <size_t CAP>
    inline void fill_str(SM<CAP>& m, size_t n, size_t maxlen)
    {
        for (size_t i = 0; i < n; ++i) m.push({sym_bytes(sx::choose("len", 0, maxlen)), sx::flag("valid")});
    }
    // lengths given by a pattern instead of chosen
    template <size_t CAP>
    inline void fill_str_pattern(SM<CAP>& m, size_t n, size_t mod)
    {
        for (size_t i = 0; i < n; ++i) m.push({sym_bytes((i * 2 + 1) % mod), sx::flag("valid")});
    }
    inline std::string to_string(const S& s) { return std::string(reinterpret_cast<const char*>(s.c), s.n); }
    inline std::vector<std::byte> to_bytes(const S& s)
    {
        std::vector<std::byte> v;
        for (size_t i = 0; i < s.n; ++i) v.push_back(std::byte(s.c[i]));
        return v;
    }
    template <class T>
    inline T to(const S& s)
    {
        if constexpr (std::is_same_v<T, std::string>) return to_string(s);
        else return to_bytes(s);
    }
    template <class T, size_t CAP>
    inline std::vector<T> str_values(const SM<CAP>& m)
    {
        std::vector<T> v;
        for (size_t i = 0; i < m.n; ++i) v.push_back(to<T>(m.v[i].x));
        return v;
    }
    // R: anything with size() and begin()
    template <class R>
    inline bool eq(const R& r, const S& s)
    {
        if (static_cast<size_t>(r.size()) != s.n) return false;
        bool ok = true;
        size_t i = 0;
        for (auto it = r.begin(); i < s.n; ++it, ++i) ok &= static_cast<unsigned char>(*it) == s.c[i];
        return ok;
    }

    template <class A, size_t CAP>
    inline void check_str(const A& c, const SM<CAP>& m, bool count_nulls = true)
    {
        SX_ASSERT(c.size() == m.n, "size");
        SX_ASSERT(c.empty() == (m.n == 0), "empty");
        for (size_t i = 0; i < m.n; ++i)
        {
            auto r = c[i];
            SX_ASSERT(r.has_value() == m.v[i].has, "operator[] validity");
            SX_ASSERT(eq(r.get(), m.v[i].x), "operator[] value");
        }
        size_t i = 0;
        for (auto it = c.begin(); it != c.end(); ++it, ++i)
        {
            SX_ASSERT(i < m.n, "iteration length");
            auto r = *it;
            SX_ASSERT(r.has_value() == m.v[i].has, "iteration validity");
            SX_ASSERT(eq(r.get(), m.v[i].x), "iteration value");
        }
        SX_ASSERT(i == m.n, "iteration visits all");
        i = 0;
        for (auto&& b : c.bitmap())
        {
            SX_ASSERT(i < m.n, "bitmap() length");
            SX_ASSERT(bool(b) == m.v[i].has, "bitmap() value");
            ++i;
        }
        SX_ASSERT(i == m.n, "bitmap() visits all");
        if (count_nulls) SX_ASSERT(null_count(c) == static_cast<int64_t>(nulls(m)), "null_count");
    }
    template <class A, size_t CAP>
    inline void check_str_values(const A& c, const SM<CAP>& m)
    {
        size_t i = 0;
        for (auto&& v : c.values())
        {
            SX_ASSERT(i < m.n, "values() length");
            SX_ASSERT(eq(v, m.v[i].x), "values() value");
            ++i;
        }
        SX_ASSERT(i == m.n, "values() visits all");
    }
    template <class A, size_t CAP>
    inline void check_str_more(const A& c, const SM<CAP>& m)
    {
        size_t i = m.n;
        for (auto it = c.rbegin(); it != c.rend(); ++it)
        {
            SX_ASSERT(i > 0, "reverse iteration length");
            --i;
            auto r = *it;
            SX_ASSERT(r.has_value() == m.v[i].has && eq(r.get(), m.v[i].x), "reverse iteration");
        }
        SX_ASSERT(i == 0, "reverse iteration visits all");
        for (i = 0; i < m.n; ++i)
        {
            auto r = c.at(i);
            SX_ASSERT(r.has_value() == m.v[i].has && eq(r.get(), m.v[i].x), "at");
            auto s = c.cbegin()[static_cast<std::ptrdiff_t>(i)];
            SX_ASSERT(s.has_value() == m.v[i].has && eq(s.get(), m.v[i].x), "iterator subscript");
        }
        SX_THROWS(std::out_of_range, c.at(m.n), "at(size()) throws");
        if (m.n)
        {
            auto f = c.front();
            auto b = c.back();
            SX_ASSERT(f.has_value() == m.v[0].has && eq(f.get(), m.v[0].x), "front");
            SX_ASSERT(b.has_value() == m.v[m.n - 1].has && eq(b.get(), m.v[m.n - 1].x), "back");
        }
    }
    // through the references of a mutable array
    template <class A, size_t CAP>
    inline void check_str_mutable(A& a, const SM<CAP>& m)
    {
        for (size_t i = 0; i < m.n; ++i)
        {
            auto r = a[i];
            SX_ASSERT(r.has_value() == m.v[i].has, "mutable operator[] validity");
            SX_ASSERT(eq(r.get(), m.v[i].x), "mutable operator[] value");
        }
        size_t i = 0;
        for (auto it = a.begin(); it != a.end(); ++it, ++i)
        {
            SX_ASSERT(i < m.n, "mutable iteration length");
            auto r = *it;
            SX_ASSERT(r.has_value() == m.v[i].has && eq(r.get(), m.v[i].x), "mutable iteration value");
        }
        SX_ASSERT(i == m.n, "mutable iteration visits all");
    }
}
