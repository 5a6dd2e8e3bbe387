// C27: half-precision conversions, classification and comparison follow IEEE 754.
#include "sx.hpp"
#include <bit>
#include <compare>
#include <limits>
#include "sparrow/types/data_type.hpp"

#if !defined(SPARROW_STD_FIXED_FLOAT_SUPPORT)
using sparrow::float16_t;
static uint16_t bits(float16_t h) { return std::bit_cast<uint16_t>(h); }
static float16_t mk(uint16_t b) { return float16_t(b); }

// the float the half b denotes: its bits, NaN with the same sign and payload
static uint32_t denoted(uint16_t b)
{
    const uint32_t s = uint32_t(b >> 15) << 31, e = (b >> 10) & 31, m = b & 0x3ff;
    // subnormal: m * 2^-24; p is the position of the leading bit
    uint32_t p = 0;
    for (uint32_t i = 0; i < 10; ++i) p = ((m >> i) & 1) ? i : p;
    const uint32_t sub = ((p + 127 - 24) << 23) | ((m << (23 - p)) & 0x7fffff);
    const uint32_t normal = ((e + 127 - 15) << 23) | (m << 13);
    const uint32_t special = 0x7f800000u | (m << 13);
    return s | (e == 31 ? special : e != 0 ? normal : m != 0 ? sub : 0);
}
static bool nan16(uint16_t b) { return (b & 0x7fff) > 0x7c00; }
static float denoted_float(uint16_t b) { return std::bit_cast<float>(denoted(b)); }

SX_ENTRY(c27_to_float, quick, "all 2^16 patterns: the float denoted, and back")
{
    const uint16_t b = sx::sym<uint16_t>("b");
    const float16_t h = mk(b);
    SX_ASSERT(bits(h) == b && static_cast<uint16_t>(h) == b, "the bits of a half");
    const uint32_t f = std::bit_cast<uint32_t>(static_cast<float>(h));
    const bool nan = nan16(b);
    SX_ASSERT(nan | (f == denoted(b)), "the float a half denotes");
    SX_ASSERT(!nan | ((f & 0x7fffffff) > 0x7f800000), "NaN stays NaN");
    const uint16_t back = bits(float16_t(std::bit_cast<float>(f)));
    SX_ASSERT(nan | (back == b), "and back");
    SX_ASSERT(!nan | nan16(back), "NaN stays NaN");
}
SX_ENTRY(c27_from_float, quick, "all 2^32 floats: a nearest half (either one on ties), infinities, NaN; construction and assignment")
{
    const uint32_t f = sx::sym<uint32_t>("f");
    const uint16_t h = bits(float16_t(std::bit_cast<float>(f)));
    const uint32_t e = (f >> 23) & 0xff, m = f & 0x7fffff, s = f >> 31, r = h & 0x7fff;
    const bool nan = (e == 0xff) & (m != 0);
    SX_ASSERT(!nan | nan16(h), "NaN stays NaN");
    SX_ASSERT(nan | ((h >> 15) == s), "sign");
    // discarded bits and quotient, in units of the last bit of the half
    const uint32_t shift = e >= 113 ? 13 : 126 - e;
    const uint32_t x = e >= 113 ? m : (m | 0x800000);
    const bool tiny = shift > 24;
    const uint32_t k = tiny ? 24 : shift;
    const uint32_t q = (x >> k) + (e >= 113 ? (e - 112) << 10 : 0), rest = x & ((1u << k) - 1), mid = 1u << (k - 1);
    const bool up = (r == q + 1) & (rest >= mid), down = (r == q) & (rest <= mid);
    const bool overflow = e > 142;
    SX_ASSERT(nan | (overflow & (r == 0x7c00)) | (!overflow & tiny & (r == 0)) | (!overflow & !tiny & (up | down)), "a nearest half");
    float16_t a{uint16_t(0)};
    a = std::bit_cast<float>(f);
    SX_ASSERT(bits(a) == h, "assignment is construction");
}
SX_ENTRY(c27_classify, quick, "all 2^16 patterns: is_nan, is_inf, is_finite, is_normal, signs, negation, abs")
{
    const uint16_t b = sx::sym<uint16_t>("b");
    const float16_t h = mk(b);
    const uint16_t e = (b >> 10) & 31, m = b & 0x3ff;
    SX_ASSERT(numeric::is_nan(h) == ((e == 31) & (m != 0)), "is_nan");
    SX_ASSERT(numeric::is_inf(h) == ((e == 31) & (m == 0)), "is_inf");
    SX_ASSERT(numeric::is_finite(h) == (e != 31), "is_finite");
    SX_ASSERT(numeric::is_normal(h) == ((e != 31) & (e != 0)), "is_normal");
    SX_ASSERT(numeric::is_negative(h) == (b >> 15 == 1) && numeric::is_positive(h) == (b >> 15 == 0), "sign");
    SX_ASSERT(bits(-h) == (b ^ 0x8000) && bits(+h) == b, "negation");
    SX_ASSERT(bits(numeric::abs(h)) == (b & 0x7fff), "abs");
}
SX_ENTRY(c27_compare, quick, "all pairs of patterns: comparison agrees with comparison of the denoted floats")
{
    const uint16_t b = sx::sym<uint16_t>("b"), c = sx::sym<uint16_t>("c");
    const float16_t x = mk(b), y = mk(c);
    const float f = denoted_float(b), g = denoted_float(c);
    SX_ASSERT((x == y) == (f == g) && (x != y) == (f != g), "equality");
    SX_ASSERT((x < y) == (f < g) && (x > y) == (f > g), "ordering");
    SX_ASSERT((x <= y) == (f <= g) && (x >= y) == (f >= g), "ordering");
    const auto o = x <=> y;
    SX_ASSERT((o < 0) == (f < g) && (o > 0) == (f > g) && (o == 0) == (f == g), "three-way comparison");
}
SX_ENTRY(c27_integers, quick, "all ints of magnitude up to 2048: exact")
{
    const int i = sx::sym<int16_t>("i");
    sx::assume((i >= -2048) & (i <= 2048));
    const float16_t h(i);
    SX_ASSERT(static_cast<float>(h) == static_cast<float>(i), "integers up to 2048 are exact");
    const float16_t d(static_cast<double>(i));
    SX_ASSERT(bits(d) == bits(h), "so are doubles");
}
SX_ENTRY(c27_constants, quick, "the named constants and numeric limits (no input)")
{
    using namespace numeric;
    using L = std::numeric_limits<float16_t>;
    auto is = [](float16_t h, float f) { return bits(h) == bits(float16_t(f)) && static_cast<float>(h) == f; };
    SX_ASSERT(is(fp16_one, 1.f) && is(fp16_two, 2.f) && is(fp16_half, .5f) && is(fp16_zero, 0.f), "positive constants");
    SX_ASSERT(is(fp16_one_negative, -1.f) && is(fp16_two_negative, -2.f) && is(fp16_half_negative, -.5f) && is(fp16_zero_negative, -0.f), "negative constants");
    SX_ASSERT(is(fp16_max, 65504.f) && is(fp16_min, -65504.f) && is(fp16_min_positive, 0x1p-14f) && is(fp16_min_positive_subnormal, 0x1p-24f), "extreme constants");
    SX_ASSERT(is(fp16_max_subnormal, 0x1p-14f - 0x1p-24f) && is(fp16_epsilon, 0x1p-10f), "extreme constants");
    SX_ASSERT(is(fp16_infinity, std::numeric_limits<float>::infinity()) && is(fp16_infinity_negative, -std::numeric_limits<float>::infinity()) && nan16(bits(fp16_nan)), "special constants");
    SX_ASSERT(bits(fp16_e) == bits(float16_t(2.71828182845904523536f)) && bits(fp16_pi) == bits(float16_t(3.14159265358979323846f)), "e and pi");
    SX_ASSERT(is(L::min(), 0x1p-14f) && is(L::max(), 65504.f) && is(L::lowest(), -65504.f) && is(L::denorm_min(), 0x1p-24f) && is(L::epsilon(), 0x1p-10f) && is(L::round_error(), .5f), "limits");
    SX_ASSERT(bits(L::infinity()) == 0x7c00 && nan16(bits(L::quiet_NaN())), "limits");
    SX_ASSERT(L::digits == 11 && L::digits10 == 3 && L::max_digits10 == 5 && L::radix == 2, "digits");
    SX_ASSERT(L::min_exponent == -13 && L::max_exponent == 16 && L::min_exponent10 == -4 && L::max_exponent10 == 4, "exponents");
}
#endif
