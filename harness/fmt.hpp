// Formats, value alphabets and exact integer arithmetic used as the reference model.
#pragma once
#include "mc.hpp"
#include <eirin/fixed.hpp>
#include <algorithm>
#include <map>

using mc::i128;
using mc::u128;
using mc::str;

// ---- formats -------------------------------------------------------------------------------
template <class F>
struct Fm;
template <class T, class I, unsigned int f, bool r>
struct Fm<eirin::fixed_num<T, I, f, r>>
{
    using type = T;
    using inter = I;
    static constexpr int frac = f;
    static constexpr int bits = sizeof(T) * 8;
    static constexpr bool rounding = r;
    static constexpr bool is_signed = T(-1) < T(0);
    static constexpr i128 one = i128(1) << f;
    static constexpr i128 lo = is_signed ? -(i128(1) << (bits - 1)) : i128(0);
    static constexpr i128 hi = is_signed ? (i128(1) << (bits - 1)) - 1 : (i128(1) << bits) - 1;
    static std::string name()
    {
        return std::string(is_signed ? "i" : "u") + std::to_string(bits) + "f" + std::to_string(f) + (r ? "r" : "") + (sizeof(I) != 2 * sizeof(T) ? "w" + std::to_string(sizeof(I) * 8) : "") + (std::is_same_v<T, long long> || std::is_same_v<I, long long> ? "L" : "");
    }
    static bool fits(i128 v) { return v >= lo && v <= hi; }
};
template <class F>
static inline F raw(i128 v) { return F::from_internal_value(static_cast<typename Fm<F>::type>(v)); }
template <class F>
static inline i128 val(const F& x) { return static_cast<i128>(x.internal_value()); }

template <class T, class I, unsigned f, bool r = false>
using FX = eirin::fixed_num<T, I, f, r>;
template <unsigned f, bool r = false> using i8 = FX<int8_t, int16_t, f, r>;
template <unsigned f, bool r = false> using u8 = FX<uint8_t, uint16_t, f, r>;
template <unsigned f, bool r = false> using i16 = FX<int16_t, int32_t, f, r>;
template <unsigned f, bool r = false> using u16 = FX<uint16_t, uint32_t, f, r>;
template <unsigned f, bool r = false> using i32 = FX<int32_t, int64_t, f, r>;
template <unsigned f, bool r = false> using u32 = FX<uint32_t, uint64_t, f, r>;
template <unsigned f, bool r = false> using i64 = FX<int64_t, __int128, f, r>;
template <unsigned f, bool r = false> using u64 = FX<uint64_t, unsigned __int128, f, r>;
template <unsigned f, bool r = false> using i32w = FX<int32_t, __int128, f, r>;
template <unsigned f, bool r = false> using i16w = FX<int16_t, int64_t, f, r>;

// the same with other types of the same size
template <unsigned f, bool r = false> using i32L = FX<int, long long, f, r>;
template <unsigned f, bool r = false> using i64L = FX<long long, __int128, f, r>;

template <class... Fs>
struct List
{
    template <class G>
    static void each(G g) { (g.template operator()<Fs>(), ...); }
};
using Formats8 = List<i8<4>, i8<1>, i8<2>, i8<3>, i8<5>, i8<6>, i8<7>, u8<4>, u8<1>, u8<7>, i8<4, true>, i8<1, true>, i8<7, true>, u8<4, true>, u8<7, true>>;
using Formats16 = List<i16<8>, i16<1>, i16<12>, i16<15>, u16<8>, i16<8, true>, u16<8, true>, i16w<8>>;
using Formats32 = List<i32<16>, i32<20>, i32<1>, i32<8>, i32<24>, i32<30>, i32<31>, u32<16>, u32<31>, i32<16, true>, i32<20, true>, u32<16, true>, i32w<16>, i32L<16>>;
using Formats64 = List<i64<32>, i64<16>, i64<1>, i64<48>, i64<61>, i64<63>, u64<32>, i64<32, true>, u64<32, true>, i64L<32>>;

// ---- exact arithmetic ----------------------------------------------------------------------
static inline i128 floor_div(i128 a, i128 b)
{
    i128 q = a / b, r = a % b;
    return r != 0 && ((r < 0) != (b < 0)) ? q - 1 : q;
}
static inline i128 trunc_div(i128 a, i128 b) { return a / b; }
// nearest, ties away from zero
static inline i128 round_div(i128 a, i128 b)
{
    const bool neg = (a < 0) != (b < 0);
    const u128 ua = a < 0 ? u128(0) - u128(a) : u128(a), ub = b < 0 ? u128(0) - u128(b) : u128(b);
    u128 q = ua / ub;
    const u128 r = ua % ub;
    if(r >= ub - r) ++q;
    return neg ? -i128(q) : i128(q);
}
// the sign of (-1)^k applied floor: floor(a / 2^k)
static inline i128 floor_shift(i128 a, int k) { return floor_div(a, i128(1) << k); }

// ---- alphabets -----------------------------------------------------------------------------
// Every value with at most `weight` nonzero signed binary digits (so every power of two, every
// neighbour of one, all sums and differences of two ...), in order of increasing weight.
static inline void naf_rec(std::vector<i128>& out, int bits, int left, int from, i128 acc, i128 lo, i128 hi)
{
    if(acc >= lo && acc <= hi) out.push_back(acc);
    if(left == 0) return;
    for(int b = from; b <= bits; ++b)
    {
        naf_rec(out, bits, left - 1, b + 1, acc + (i128(1) << b), lo, hi);
        naf_rec(out, bits, left - 1, b + 1, acc - (i128(1) << b), lo, hi);
    }
}
template <class F>
static std::vector<i128> naf(int weight, std::vector<i128> extra = {})
{
    std::vector<i128> v, all;
    std::map<i128, int> seen;
    for(int w = 0; w <= weight; ++w)
    {
        v.clear();
        naf_rec(v, Fm<F>::bits, w, 0, 0, Fm<F>::lo, Fm<F>::hi);
        std::sort(v.begin(), v.end(), [](i128 a, i128 b) { i128 x = a < 0 ? -a : a, y = b < 0 ? -b : b; return x != y ? x < y : a > b; });
        for(i128 x : v)
            if(seen.emplace(x, w).second) all.push_back(x);
    }
    for(i128 x : {Fm<F>::lo, Fm<F>::lo + 1, Fm<F>::hi, Fm<F>::hi - 1})
        if(seen.emplace(x, 0).second) all.push_back(x);
    for(i128 x : extra)
        if(Fm<F>::fits(x) && seen.emplace(x, 0).second) all.push_back(x);
    return all;
}
// every value of the format, zero first
template <class F>
static std::vector<i128> complete()
{
    std::vector<i128> v;
    for(i128 x = 0; x <= Fm<F>::hi; ++x)
    {
        v.push_back(x);
        if(x != 0 && -x >= Fm<F>::lo) v.push_back(-x);
    }
    if(Fm<F>::lo < -Fm<F>::hi) v.push_back(Fm<F>::lo);
    return v;
}
template <class F>
static std::string show(i128 v)
{
    char b[80];
    snprintf(b, sizeof b, "%s(raw %s = %.12Lg)", Fm<F>::name().c_str(), str(v).c_str(), (long double)v / (long double)Fm<F>::one);
    return b;
}
#define SH(F, v) show<F>(v).c_str()
