// Harness interface: the same harness is compiled to bitcode for symex and natively for replay.
#pragma once
#include <bit>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>

extern "C"
{
    uint64_t __sx_sym(const char* name, unsigned width);
    uint64_t __sx_choose(const char* name, uint64_t lo, uint64_t hi);
    uint64_t __sx_concretize(uint64_t v);
    void __sx_assume(bool c);
    void __sx_assert(bool c, const char* label);
    void __sx_reach(const char* label);
    void __sx_observe(uint64_t v);
    void __sx_ignore_leaks();
    uint64_t __sx_live();
    int __sx_symbolic();
    [[noreturn]] void __sx_fail(const char* kind, const char* msg);
}

namespace sx
{
    // a fresh symbolic value of type T: all bit patterns
    template <class T>
    inline T sym(const char* name)
    {
        static_assert(sizeof(T) <= 8);
        if constexpr (std::is_same_v<T, bool>) return (__sx_sym(name, 1) & 1) != 0;
        else if constexpr (std::is_floating_point_v<T>)
        {
            if constexpr (sizeof(T) == 4) return std::bit_cast<T>(static_cast<uint32_t>(__sx_sym(name, 32)));
            else return std::bit_cast<T>(__sx_sym(name, 64));
        }
        else return static_cast<T>(__sx_sym(name, sizeof(T) * 8));
    }
    inline bool flag(const char* name) { return sym<bool>(name); }
    // a symbolic value in [lo, hi], kept symbolic
    inline size_t range(const char* name, size_t lo, size_t hi)
    {
        uint64_t v = __sx_sym(name, hi < 256 ? 8 : hi < 65536 ? 16 : 64);
        __sx_assume(v >= lo);
        __sx_assume(v <= hi);
        return v;
    }
    // a value in [lo, hi], one path per value (for sizes and shapes)
    inline size_t choose(const char* name, size_t lo, size_t hi) { return __sx_choose(name, lo, hi); }
    inline void assume(bool c) { __sx_assume(c); }
    template <class T>
    inline void observe(const T& v)
    {
        if constexpr (std::is_floating_point_v<T>)
        {
            if constexpr (sizeof(T) == 4) __sx_observe(std::bit_cast<uint32_t>(v));
            else __sx_observe(std::bit_cast<uint64_t>(v));
        }
        else __sx_observe(static_cast<uint64_t>(v));
    }
}

#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define SX_ASSERT(cond, label) __sx_assert(static_cast<bool>(cond), label)
#define SX_REACH(label) __sx_reach(label)
// evaluates expr; the assertion is that it throws exactly an exception of type T (or derived)
#define SX_THROWS(T, expr, label)                  \
    do {                                           \
        bool sx_thrown_ = false;                   \
        try { expr; } catch (const T&) { sx_thrown_ = true; } \
        SX_ASSERT(sx_thrown_, label);              \
    } while (0)

#ifdef SX_THOROUGH
#define SX_BOUND(q, t) (t)
#else
#define SX_BOUND(q, t) (q)
#endif

// SX_ENTRY(name, tier, "bounds / what is symbolic") { body }    tier: quick | thorough | finding
#ifdef SX_NATIVE
namespace sx { struct reg { reg(const char* n, void (*f)()); }; }
#define SX_ENTRY(name, tier, bounds) extern "C" void name(); static sx::reg sx_reg_##name(#name, &name); extern "C" void name()
#else
#define SX_ENTRY(name, tier, bounds) extern "C" [[gnu::used]] void name()
#endif
