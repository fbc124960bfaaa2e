// Every number of fraction bits of every storage type.
#pragma once
#include "fmt.hpp"
#include <cmath>

// the k-th of n points spread over [lo, hi], not in step with any power of two
static inline i128 spread(i128 lo, i128 hi, uint64_t n, uint64_t k)
{
    const i128 step = (hi - lo) / n;
    return step > 0 ? lo + step * k + i128(u128(k) * 7919 % u128(step)) : lo + k % uint64_t(hi - lo + 1);
}
template <class G, unsigned... k>
static void each_frac(std::integer_sequence<unsigned, k...>, G g) { (g.template operator()<k + 1>(), ...); }
// every number of fraction bits of every storage type that leaves `ints` integer bits, rounding and not:
// complete for up to 16 bits; otherwise all values with at most 2 signed binary digits, multiples of pi/4 and 1/8 up
// to 40 and lattices of 2048 points of [-8, 8) and of the whole range
struct Job
{
    std::string name;
    int bits, frac;
    i128 lo, hi;
    void (*call)(i128, mc::Ctx&);
};
static std::vector<i128> small(const Job& f, bool th, int complete_up_to = 16, uint64_t points = 2048, int digits = 2)
{
    std::vector<i128> v;
    if(f.bits <= complete_up_to)
        for(i128 x = f.lo; x <= f.hi; ++x) v.push_back(x);
    else
    {
        naf_rec(v, f.bits, digits, 0, 0, f.lo, f.hi);
        const i128 one = i128(1) << f.frac;
        for(int k = 1; k <= 40; ++k)
            for(int s = -1; s <= 1; s += 2)
                for(long double w : {s * k * 0.785398163397448309615660845819875721L, s * (long double)k / 8})
                    for(int d = -1; d <= 1; ++d) v.push_back((i128)std::floor(w * (long double)one) + d);
        const uint64_t n = th ? points * 32 : points;
        for(uint64_t k = 0; k < n; ++k)
        {
            v.push_back(spread(std::max(f.lo, -8 * one), std::min(f.hi, 8 * one), n, k));
            v.push_back(spread(f.lo, f.hi, n, k));
        }
        v.push_back(f.hi);
        std::erase_if(v, [&](i128 x) { return x < f.lo || x > f.hi; });
    }
    std::sort(v.begin(), v.end(), [](i128 a, i128 b) { const i128 x = a < 0 ? -a : a, y = b < 0 ? -b : b; return x != y ? x < y : a > b; });
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
template <class F, class B> static void job(i128 a, mc::Ctx& c) { B().template operator()<F>(a, c); }
// the formats that leave `ints` integer bits; B is called as B().operator()<F>(value, ctx)
template <int ints, bool with_unsigned, bool with_rounding, class B>
static std::vector<Job> every(B)
{
    std::vector<Job> jobs;
    const auto add = [&]<class F>() { jobs.push_back({Fm<F>::name(), Fm<F>::bits, Fm<F>::frac, Fm<F>::lo, Fm<F>::hi, job<F, B>}); };
    each_frac(std::make_integer_sequence<unsigned, 63>{}, [&]<unsigned f>() {
        if constexpr(f + ints <= 63) { add.template operator()<i64<f>>(); if constexpr(with_rounding) add.template operator()<i64<f, true>>(); }
        if constexpr(f + ints <= 31) { add.template operator()<i32<f>>(); if constexpr(with_rounding) add.template operator()<i32<f, true>>(); }
        if constexpr(f + ints <= 15) { add.template operator()<i16<f>>(); if constexpr(with_rounding) add.template operator()<i16<f, true>>(); }
        if constexpr(f + ints <= 7) { add.template operator()<i8<f>>(); if constexpr(with_rounding) add.template operator()<i8<f, true>>(); }
        if constexpr(with_unsigned)
        {
            if constexpr(f + ints <= 64) add.template operator()<u64<f>>();
            if constexpr(f < 32 && f + ints <= 32) add.template operator()<u32<f>>();
            if constexpr(f < 16 && f + ints <= 16) add.template operator()<u16<f>>();
            if constexpr(f < 8 && f + ints <= 8) add.template operator()<u8<f>>();
        }
    });
    return jobs;
}
// all of them over small(): one space each
static inline void each_format(mc::Run& run, const std::string& name, const std::vector<Job>& jobs, int complete_up_to = 16, uint64_t points = 2048, int digits = 2)
{
    for(const Job& f : jobs)
    {
        const auto V = small(f, run.thorough, complete_up_to, points, digits);
        run.space("every format: " + name + " " + f.name, V.size(), [&](uint64_t i, mc::Ctx& c) { f.call(V[i], c); });
    }
}
