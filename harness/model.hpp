// Reference model shared by the harnesses: a plain bounded sequence, written without any sparrow code.
#pragma once
#include "sx.hpp"

namespace model
{
    template <class T, size_t CAP>
    struct seq
    {
        T v[CAP];
        size_t n = 0;

        void push(const T& x) { v[n++] = x; }
        void insert(size_t pos, const T& x, size_t count = 1)
        {
            T c = x;
            for (size_t i = n; i-- > pos;) v[i + count] = v[i];
            for (size_t i = 0; i < count; ++i) v[pos + i] = c;
            n += count;
        }
        void insert_range(size_t pos, const T* x, size_t count)
        {
            for (size_t i = n; i-- > pos;) v[i + count] = v[i];
            for (size_t i = 0; i < count; ++i) v[pos + i] = x[i];
            n += count;
        }
        void erase(size_t first, size_t last)
        {
            for (size_t i = last; i < n; ++i) v[first + i - last] = v[i];
            n -= last - first;
        }
        void resize(size_t m, const T& x)
        {
            T c = x;
            while (n < m) v[n++] = c;
            n = m;
        }
    };

    // one of a few positions in 0..n: both ends, the middle, and around a block boundary
    inline size_t spot(const char* name, size_t n)
    {
        const size_t all[] = {0, 1, n / 2, 63, 64, n - 1, n};
        size_t some[7], k = 0;
        for (size_t x : all)
        {
            bool fresh = x <= n;
            for (size_t i = 0; i < k; ++i) fresh = fresh && some[i] != x;
            if (fresh) some[k++] = x;
        }
        return some[sx::choose(name, 0, k - 1)];
    }

    // a nullable element
    template <class T>
    struct opt
    {
        T x{};
        bool has = false;
    };

    // a short byte string
    template <size_t CAP>
    struct bytes
    {
        unsigned char c[CAP ? CAP : 1];
        size_t n = 0;
    };
}
