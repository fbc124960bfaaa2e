// C13 sqrt/hypot, C14 cbrt, C15 sin/cos/tan, C16 atan/asin/acos, C17 logarithms, C18 exp/pow,
// C19 degrees/radians and constants.
// The reference is the C library's long double function (64 bit mantissa); every permitted error is
// many orders of magnitude larger than the reference's own error.
#include "every.hpp"
#include <eirin/eirin.hpp>
#include <eirin/numbers.hpp>
#include <eirin/ext/cordic.hpp>
#include <eirin/detail/util.hpp>
#include <cmath>

#ifndef PROP
#    define PROP 13
#endif
#ifndef PART
#    define PART 0
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

using f32 = eirin::fixed32;
using f64 = eirin::fixed64;
typedef long double LD;
static bool measuring = false;
static const LD PI = 3.14159265358979323846264338327950288L;

template <class F> static constexpr LD ulp() { return 1.0L / (u128(1) << Fm<F>::frac); }
template <class F> static LD num(i128 a) { return (LD)(typename Fm<F>::type)a * ulp<F>(); }
// the arithmetic in which results of a format are judged: double has 20 bits to spare for 32-bit formats
template <class F> using real = std::conditional_t<Fm<F>::bits <= 32, double, LD>;
template <class F> static inline real<F> rnum(i128 a) { return (real<F>)(typename Fm<F>::type)a * (real<F>)ulp<F>(); }

// judge |got - ref| <= bound
template <class F, class R>
static inline void within(mc::Ctx& c, const char* fn, i128 a, i128 got, R ref, R bound)
{
    const R err = std::fabs(((R)(typename Fm<F>::type)got) * (R)ulp<F>() - ref);
    ++c.trans;
    if(!(err <= (R)c.peak * bound)) [[unlikely]]
    {
        const double share = double(err / bound);
        if(share > c.peak) { c.peak = share; c.peak_at = c.index; }
        if(!(err <= bound) && !measuring)
            c.fail("%s of %s is %.12Lg (raw %s), the exact value is %.12Lg: off by %.3Lg steps, at most %.3Lg are permitted", fn, SH(F, a), num<F>(got), str(got).c_str(), (LD)ref, err / ulp<F>(), bound / ulp<F>());
    }
}
template <class F>
static bool representable(LD v) { return v < num<F>(Fm<F>::hi) && v > num<F>(Fm<F>::lo); }

// ---- value spaces -----------------------------------------------------------------------------
// complete for up to 16 bits; otherwise: all values with at most 3 (4) signed binary
// digits, and neighbourhoods of multiples of pi/4, 1 and 1/64
template <class F>
static std::vector<i128> values(bool th)
{
    if(Fm<F>::bits <= 16) return complete<F>();
    std::vector<i128> extra;
    const LD o = (LD)Fm<F>::one;
    for(int k = 1; k <= 2000; ++k)
        for(int s = -1; s <= 1; s += 2)
        {
            for(LD v : {s * k * PI / 4, s * (LD)k, s * (LD)k / 64})
            {
                const LD w = std::floor(v * o);
                if(std::fabs(w) < 1e19L)
                    for(int d = -2; d <= 3; ++d) extra.push_back((i128)w + d);
            }
        }
    return naf<F>(Fm<F>::bits == 64 ? 3 : th ? 4 : 3, extra);
}
// values() followed by a lattice of n points over [-8, 8) and one over the whole range
template <class F>
struct Space
{
    std::vector<i128> V;
    uint64_t n;
    explicit Space(bool th)
        : V(values<F>(th)), n(Fm<F>::bits <= 16 ? 0 : uint64_t(1) << (th ? 23 : 19)) {}
    uint64_t size() const { return V.size() + 2 * n; }
    i128 operator[](uint64_t i) const
    {
        if(i < V.size()) return V[i];
        i -= V.size();
        if(i < n) return spread(std::max(Fm<F>::lo, -8 * Fm<F>::one), std::min(Fm<F>::hi, 8 * Fm<F>::one), n, i);
        return spread(Fm<F>::lo, Fm<F>::hi, n, i - n);
    }
};
template <class F, class B>
static void sweep(mc::Run& run, const std::string& name, B body)
{
    const Space<F> V(run.thorough);
    run.space(name + " " + Fm<F>::name(), V.size(), [&](uint64_t i, mc::Ctx& c) { body.template operator()<F>(V[i], c); });
}
template <class F, class B>
static void full(mc::Run& run, const std::string& name, B body)
{
    run.space(name + " every " + Fm<F>::name(), uint64_t(1) << 32, [&](uint64_t i, mc::Ctx& c) { body.template operator()<F>((i128)(typename Fm<F>::type)(uint32_t)i, c); });
}
template <int ints, bool with_unsigned, class B>
static void every_format(mc::Run& run, const std::string& name, B body) { each_format(run, name, every<ints, with_unsigned, true>(body)); }
template <class Call>
static bool throws_domain(Call call)
{
    try { (void)call(); }
    catch(const std::domain_error&) { return true; }
    return false;
}

#if PROP == 13
template <class F>
static inline LD sqrt_bound(LD ref) 
{
    if constexpr(std::is_same_v<F, f32>) return ulp<F>();
    return 1.001L * ulp<F>();
}
static auto body = []<class F>(i128 a, mc::Ctx& c) {
    ++c.valid;
    const F x = raw<F>(a);
    const i128 got = val(eirin::sqrt(x));
    if(a < 0)
    {
        MC_CHECK(c, got == -Fm<F>::one, "sqrt of the negative %s is raw %s, expected -1", SH(F, a), str(got).c_str());
        return;
    }
    if constexpr(std::is_same_v<F, f32>)
    {
        // exact: the largest multiple of the step whose square is not above x
        const uint64_t v = uint64_t(a) << 16, g = (uint64_t)got;
        MC_CHECK(c, got >= 0 && g * g <= v && (g + 1) * (g + 1) > v, "sqrt of %s is raw %s", SH(F, a), str(got).c_str());
    }
    else
        within<F>(c, "sqrt", a, got, std::sqrt(num<F>(a)), sqrt_bound<F>(0));
    if(c.want) c.note("sqrt of %s is raw %s", SH(F, a), str(got).c_str());
};
template <class F>
static void hyp(mc::Run& run)
{
    const auto V = Fm<F>::bits <= 8 ? complete<F>() : naf<F>(2);
    const LD one_err = sqrt_bound<F>(0);
    run.space("hypot " + Fm<F>::name(), uint64_t(V.size()) * V.size(), [&](uint64_t i, mc::Ctx& c) {
        const i128 a = V[i % V.size()], b = V[i / V.size()];
        const LD x = num<F>(a), y = num<F>(b), s = x * x + y * y;
        if(!(s < num<F>(Fm<F>::hi))) return;
        ++c.valid;
        const i128 got = val(eirin::hypot(raw<F>(a), raw<F>(b)));
        const LD lo = std::sqrt(std::max(0.0L, s - 2 * ulp<F>())) - one_err, hi = std::sqrt(s + (Fm<F>::rounding ? ulp<F>() : 0)) + one_err, g = num<F>(got);
        MC_CHECK(c, g >= lo && g <= hi, "hypot of %s and %s is %.12Lg, expected %.12Lg", SH(F, a), SH(F, b), g, std::sqrt(s));
        if(c.want) c.note("hypot of %s and %s is %.12Lg", SH(F, a), SH(F, b), g);
    });
    const auto W = naf<F>(1, {3 * Fm<F>::one, 5 * Fm<F>::one, Fm<F>::one / 3, -Fm<F>::one / 10, 12345, Fm<F>::one * 3 / 2});
    run.space("hypot of three " + Fm<F>::name(), uint64_t(W.size()) * W.size() * W.size(), [&](uint64_t i, mc::Ctx& c) {
        const i128 a = W[i % W.size()], b = W[i / W.size() % W.size()], d = W[i / W.size() / W.size()];
        const LD x = num<F>(a), y = num<F>(b), z = num<F>(d), s = x * x + y * y + z * z;
        if(!(s < num<F>(Fm<F>::hi))) return;
        ++c.valid;
        const i128 got = val(eirin::hypot(raw<F>(a), raw<F>(b), raw<F>(d)));
        const LD lo = std::sqrt(std::max(0.0L, s - 3 * ulp<F>())) - one_err, hi = std::sqrt(s + (Fm<F>::rounding ? 1.5L * ulp<F>() : 0)) + one_err, g = num<F>(got);
        MC_CHECK(c, g >= lo && g <= hi, "hypot of %s, %s and %s is %.12Lg, expected %.12Lg", SH(F, a), SH(F, b), SH(F, d), g, std::sqrt(s));
        if(c.want) c.note("hypot of %s, %s, %s is %.12Lg", SH(F, a), SH(F, b), SH(F, d), g);
    });
}
// hypot of a with values of its own kind and of the other scales
static auto hy = []<class F>(i128 a, mc::Ctx& c) {
    const i128 one = Fm<F>::one, side = Fm<F>::hi - (Fm<F>::hi >> 2);
    const LD one_err = sqrt_bound<F>(0);
    const i128 B[] = {0, 1, -1, one, -one, one * 3 / 2, one / 3, a, -a, a / 2, a * 4 / 3, 12345, (i128)std::sqrt((LD)side), side, -a * 3 / 7};
    for(const i128 b : B)
    {
        if(b < Fm<F>::lo || b > Fm<F>::hi) continue;
        const LD x = num<F>(a), y = num<F>(b), s = x * x + y * y;
        if(!(s < num<F>(Fm<F>::hi))) continue;
        ++c.valid;
        const i128 got = val(eirin::hypot(raw<F>(a), raw<F>(b)));
        const LD lo = std::sqrt(std::max(0.0L, s - 2 * ulp<F>())) - one_err, hi = std::sqrt(s + (Fm<F>::rounding ? ulp<F>() : 0)) + one_err, g = num<F>(got);
        MC_CHECK(c, g >= lo && g <= hi, "hypot of %s and %s is %.12Lg, expected %.12Lg", SH(F, a), SH(F, b), g, std::sqrt(s));
        const i128 d = b ^ 1;
        const LD z = num<F>(d), s3 = s + z * z;
        if(d < Fm<F>::lo || d > Fm<F>::hi || !(s3 < num<F>(Fm<F>::hi))) continue;
        const LD l3 = std::sqrt(std::max(0.0L, s3 - 3 * ulp<F>())) - one_err, h3 = std::sqrt(s3 + (Fm<F>::rounding ? 1.5L * ulp<F>() : 0)) + one_err, g3 = num<F>(val(eirin::hypot(raw<F>(a), raw<F>(b), raw<F>(d))));
        MC_CHECK(c, g3 >= l3 && g3 <= h3, "hypot of %s, %s and %s is %.12Lg, expected %.12Lg", SH(F, a), SH(F, b), SH(F, d), g3, std::sqrt(s3));
    }
    if(c.want) c.note("hypot of %s", SH(F, a));
};
static void go(mc::Run& run)
{
#    if PART == 1
    every_format<1, true>(run, "sqrt", body);
    each_format(run, "hypot", every<1, true, true>(hy), 8, 128, 1);
#    else
    full<f32>(run, "sqrt", body);
    List<f64, i32<20>, i32<8>, i32<24>, i16<8>, i16<12>, i64<16>, i64<48>, i8<4>, i32<16, true>, i64<32, true>, u32<16>, u16<8>, u64<32>, i32<29>, i16<13>, i64<61>, i8<5>, i32L<16>, i64L<32>>::each([&]<class F>() { sweep<F>(run, "sqrt", body); });
    List<f32, f64, i32<20>, i16<8>, i8<4>, i32<16, true>, u32<16>, u16<8>>::each([&]<class F>() { hyp<F>(run); });
    if(run.thorough) { full<i32<20>>(run, "sqrt", body); full<i32<8>>(run, "sqrt", body); full<i32<16, true>>(run, "sqrt", body); full<i32<28>>(run, "sqrt", body); }
#    endif
}
#endif

#if PROP == 14
static auto body = []<class F>(i128 a, mc::Ctx& c) {
    ++c.valid;
    const F x = raw<F>(a);
    const i128 got = val(eirin::cbrt(x));
    const auto ref = std::cbrt(rnum<F>(a));
    if(a == 0)
    {
        MC_CHECK(c, got == 0, "cbrt of 0 is raw %s", str(got).c_str());
        return;
    }
    within<F>(c, "cbrt", a, got, ref, (3 + real<F>(0.35L) / std::fabs(ref)) * real<F>(ulp<F>()));
    MC_CHECK(c, got == 0 || (got < 0) == (a < 0), "cbrt of %s has the wrong sign: raw %s", SH(F, a), str(got).c_str());
    if(c.want) c.note("cbrt of %s is raw %s", SH(F, a), str(got).c_str());
};
static void go(mc::Run& run)
{
#    if PART == 1
    every_format<5, true>(run, "cbrt", body);
#    else
    full<f32>(run, "cbrt", body);
    List<f64, i32<20>, i32<8>, i32<24>, i16<8>, i16<12>, i64<16>, i64<48>, i32<16, true>, i64<32, true>, u32<16>, u16<8>, u64<32>, i32<26>, i16<10>, i64<58>, i32L<16>, i64L<32>>::each([&]<class F>() { sweep<F>(run, "cbrt", body); });
    if(run.thorough) { full<i32<20>>(run, "cbrt", body); full<i32<8>>(run, "cbrt", body); full<i32<16, true>>(run, "cbrt", body); }
#    endif
}
#endif

#if PROP == 15
// permitted error of sin and cos: a constant, and one step per turn (2*pi is not representable)
// (the series is cut after the ninth power, so the constant part shrinks like the eleventh power of the result)
template <class F, class R> static inline R sin_bound(R x, R ref)
{
    const R r2 = ref * ref, r4 = r2 * r2;
    return R(5 * ulp<F>() + 1e-12L) + R(3.7e-6L) * r4 * r4 + std::fabs(x) * R(ulp<F>() / (2 * PI));
}
static auto sc = []<class F>(i128 a, mc::Ctx& c) {
    ++c.valid;
    const auto x = rnum<F>(a);
    const F v = raw<F>(a);
    const auto rs = std::sin(x), rc = std::cos(x);
    within<F>(c, "sin", a, val(eirin::sin(v)), rs, sin_bound<F>(x, rs));
    within<F>(c, "cos", a, val(eirin::cos(v)), rc, sin_bound<F>(x, rc));
    if(c.want) c.note("sin and cos of %s are %.9Lg and %.9Lg", SH(F, a), num<F>(val(eirin::sin(v))), num<F>(val(eirin::cos(v))));
};
static auto tn = []<class F>(i128 a, mc::Ctx& c) {
    const auto x = rnum<F>(a);
    const F v = raw<F>(a);
    const auto rs = std::sin(x), rc = std::cos(x), B = sin_bound<F>(x, rs), Bc = sin_bound<F>(x, rc);
    if(std::fabs(rc) <= 2 * Bc) // too close to a pole for the quotient to mean anything
    {
        ++c.trans;
        try { (void)eirin::tan(v); }
        catch(const std::domain_error&) {}
        return;
    }
    const real<F> t = rs / rc, tb = (B + std::fabs(t) * Bc) / (std::fabs(rc) - Bc) + real<F>(ulp<F>());
    if(!representable<F>(std::fabs(t) + tb) || !representable<F>(-std::fabs(t) - tb)) return;
    ++c.valid;
    i128 got = 0;
    bool thrown = false;
    try { got = val(eirin::tan(v)); }
    catch(const std::domain_error&) { thrown = true; }
    MC_CHECK(c, !thrown, "tan of %s threw, although the cosine is %.9Lg", SH(F, a), (LD)rc);
    if(!thrown) within<F>(c, "tan", a, got, t, tb);
    if(c.want) c.note("tan of %s is raw %s", SH(F, a), str(got).c_str());
};
static auto cd = []<class F>(i128 a, mc::Ctx& c) {
    ++c.valid;
    const auto x = rnum<F>(a);
    within<F>(c, "cordic_sine", a, val(eirin::cordic_sine(raw<F>(a))), std::sin(x), real<F>((Fm<F>::bits == 32 ? 29 : 34) * ulp<F>()) + real<F>(0.175L * ulp<F>()) * std::fabs(x));
    if(c.want) c.note("cordic_sine of %s", SH(F, a));
};
static void go(mc::Run& run)
{
#    if PART == 2
    every_format<4, false>(run, "sin and cos", sc);
    every_format<4, false>(run, "tan", tn);
#    else
#    if PART == 0
    full<f32>(run, "sin and cos", sc);
    List<f64, i32<20>, i32<8>, i32<24>, i16<8>, i16<11>, i64<16>, i64<48>, i32<16, true>, i64<32, true>, i32L<16>, i64L<32>>::each([&]<class F>() { sweep<F>(run, "sin and cos", sc); });
    if(run.thorough) { full<i32<20>>(run, "sin and cos", sc); full<i32<16, true>>(run, "sin and cos", sc); full<i32<24>>(run, "sin and cos", sc); }
#    else
    full<f32>(run, "tan", tn);
    List<f32, f64, i32<20>, i16<8>, i64<16>, i64<48>, i32L<16>, i64L<32>>::each([&]<class F>() { sweep<F>(run, "tan", tn); });
    full<f32>(run, "cordic_sine", cd);
    sweep<f64>(run, "cordic_sine", cd);
    sweep<f64>(run, "lut_calc_sin", []<class F>(i128 a, mc::Ctx& c) {
        ++c.valid;
        const LD x = num<F>(a);
        within<F>(c, "lut_calc_sin", a, val(eirin::util::lut::lut_calc_sin(raw<F>(a))), std::sin(x), 5e-6L + std::fabs(x) / PI * ulp<F>());
        if(c.want) c.note("lut_calc_sin of %s", SH(F, a));
    });
#    endif
#    endif
}
#endif

#if PROP == 16
template <class F> static LD atan_bound() { return 2.05e-4L + 4.2L * ulp<F>(); }
template <class F> static LD asin_bound() { return 2.05e-4L + 5.5L * ulp<F>(); }
static auto at = []<class F>(i128 a, mc::Ctx& c) {
    ++c.valid;
    const auto x = rnum<F>(a);
    const i128 got = val(eirin::atan(raw<F>(a)));
    within<F>(c, "atan", a, got, std::atan(x), (real<F>)atan_bound<F>());
    MC_CHECK(c, got == 0 || (got < 0) == (a < 0), "atan of %s has the wrong sign: raw %s", SH(F, a), str(got).c_str());
    if(c.want) c.note("atan of %s is raw %s", SH(F, a), str(got).c_str());
};
static auto as = []<class F>(i128 a, mc::Ctx& c) {
    ++c.valid;
    const LD x = num<F>(a);
    const F v = raw<F>(a);
    if(a > Fm<F>::one || a < -Fm<F>::one)
    {
        MC_CHECK(c, throws_domain([&] { return eirin::asin(v); }), "asin of %s did not throw domain_error", SH(F, a));
        MC_CHECK(c, throws_domain([&] { return eirin::acos(v); }), "acos of %s did not throw domain_error", SH(F, a));
        return;
    }
    within<F>(c, "asin", a, val(eirin::asin(v)), std::asin(x), asin_bound<F>());
    within<F>(c, "acos", a, val(eirin::acos(v)), std::acos(x), asin_bound<F>());
    if(c.want) c.note("asin and acos of %s", SH(F, a));
};
static void go(mc::Run& run)
{
#    if PART == 1
    every_format<2, false>(run, "atan", at);
    every_format<2, false>(run, "asin and acos", as);
#    else
    full<f32>(run, "atan", at);
    List<f64, i32<20>, i32<8>, i32<24>, i16<8>, i16<12>, i64<16>, i64<48>, i32<16, true>, i64<32, true>, i32<29>, i16<13>, i64<61>, i32L<16>, i64L<32>>::each([&]<class F>() {
        sweep<F>(run, "atan", at);
        sweep<F>(run, "asin and acos", as);
    });
    run.space("asin and acos, every i32f16 in [-1, 1]", 131073, [&](uint64_t i, mc::Ctx& c) { as.operator()<f32>(i128(i) - 65536, c); });
    run.space("asin and acos, every i32f20 in [-1, 1]", 2097153, [&](uint64_t i, mc::Ctx& c) { as.operator()<i32<20>>(i128(i) - 1048576, c); });
    sweep<f32>(run, "asin and acos", as);
    if(run.thorough) { full<i32<20>>(run, "atan", at); full<i32<16, true>>(run, "atan", at); }
#    endif
}
#endif

#if PROP == 17
static auto lg = []<class F>(i128 a, mc::Ctx& c) {
    ++c.valid;
    const F v = raw<F>(a);
    if(a <= 0)
    {
        MC_CHECK(c, throws_domain([&] { return eirin::log2(v); }), "log2 of %s did not throw domain_error", SH(F, a));
        MC_CHECK(c, throws_domain([&] { return eirin::log(v); }), "log of %s did not throw domain_error", SH(F, a));
        MC_CHECK(c, throws_domain([&] { return eirin::log10(v); }), "log10 of %s did not throw domain_error", SH(F, a));
        return;
    }
    typedef real<F> R;
    const R u = ulp<F>(), r2 = std::log2(rnum<F>(a)), re = r2 * R(0.693147180559945309417232121458176568L), rt = r2 * R(0.301029995663981195213738894724493027L);
    if(!representable<F>(r2)) return; // formats with few integer bits
    within<F>(c, "log2", a, val(eirin::log2(v)), r2, 4 * u);
    within<F>(c, "log", a, val(eirin::log(v)), re, (4 + std::fabs(re) / R(Fm<F>::frac == 1 ? 1.0L : 1.4426L)) * u + std::fabs(re) * R(0x1p-52L));
    if constexpr(Fm<F>::hi / Fm<F>::one >= 3) // log2(10) is representable
        within<F>(c, "log10", a, val(eirin::log10(v)), rt, (3 + std::fabs(rt) / R(3.3219L)) * u + std::fabs(rt) * R(0x1p-52L));
    if((a & (a - 1)) == 0) MC_CHECK(c, num<F>(val(eirin::log2(v))) == r2, "log2 of %s is not exact", SH(F, a));
    if(c.want) c.note("log2 of %s is %.9Lg", SH(F, a), num<F>(val(eirin::log2(v))));
};
static void go(mc::Run& run)
{
#    if PART == 1
    every_format<1, true>(run, "logarithms", lg);
#    else
    // positive values completely; non-positive ones through the alphabets (an exception costs a lot)
    run.space("logarithms of every positive i32f16", (uint64_t(1) << 31) - 1, [&](uint64_t i, mc::Ctx& c) { lg.operator()<f32>(i128(i) + 1, c); });
    List<f32, f64, i32<20>, i32<8>, i32<24>, i16<8>, i16<12>, i64<16>, i64<48>, i32<16, true>, i64<32, true>, u32<16>, u16<8>, u64<32>, i32<29>, i16<13>, i64<60>, i32<30>, i64<62>, i32L<16>, i64L<32>>::each([&]<class F>() { sweep<F>(run, "logarithms", lg); });
    if(run.thorough)
    {
        run.space("logarithms of every positive i32f20", (uint64_t(1) << 31) - 1, [&](uint64_t i, mc::Ctx& c) { lg.operator()<i32<20>>(i128(i) + 1, c); });
        run.space("logarithms of every positive i32f8", (uint64_t(1) << 31) - 1, [&](uint64_t i, mc::Ctx& c) { lg.operator()<i32<8>>(i128(i) + 1, c); });
    }
#    endif
}
#endif

#if PROP == 18
template <class F, class R> static inline R exp_bound(R x, R ref)
{
    constexpr int I = Fm<F>::bits - Fm<F>::is_signed - Fm<F>::frac;
    const R squared = x < 0 ? std::max(R(1), -x / (R(0.69314718L) * (I - 1))) : R(1); // small results are squares
    return ref * (R(2.4e-6L) * squared + (2 + std::fabs(x)) * R(ulp<F>())) + R(2.5L * ulp<F>());
}
static auto ex = []<class F>(i128 a, mc::Ctx& c) {
    const auto x = rnum<F>(a), ref = std::exp(x), B = exp_bound<F>(x, ref);
    if(!representable<F>(ref + B)) return;
    ++c.valid;
    const i128 got = val(eirin::exp(raw<F>(a)));
    if(a == 0) MC_CHECK(c, got == Fm<F>::one, "exp of 0 is raw %s", str(got).c_str());
    within<F>(c, "exp", a, got, ref, B);
    if(c.want) c.note("exp of %s is raw %s", SH(F, a), str(got).c_str());
};
template <class F>
static LD ipow_bound(LD b, LD n)
{
    const LD B = std::fabs(n) * (n < 0 ? 2.5L : 1) * ulp<F>() * std::max(1.0L, std::pow(std::fabs(b), n)) + (n < 0 ? ulp<F>() : 0);
    return n >= 0 ? (std::fabs(b) <= 0.5L ? std::min(B, 4 * ulp<F>()) : B) : (std::fabs(b) >= 2 ? std::min(B, 4 * ulp<F>()) : B);
}
// a power of a base between 0 and 1 that is always rounded down
template <class F>
static void below(mc::Ctx& c, i128 a, const std::string& e, i128 got, LD ref)
{
    if constexpr(!Fm<F>::rounding)
        if(a > 0 && a < Fm<F>::one) MC_CHECK(c, got >= 0 && num<F>(got) <= ref + 1e-6L * ulp<F>(), "pow of %s and %s is %.12Lg (raw %s), which is negative or above the exact value %.12Lg", SH(F, a), e.c_str(), num<F>(got), str(got).c_str(), ref);
}
// judged like within(), with two arguments
template <class F>
static void within2(mc::Ctx& c, i128 a, const std::string& e, i128 got, LD ref, LD bound)
{
    const LD err = std::fabs(num<F>(got) - ref);
    ++c.trans;
    const double share = double(err / bound);
    if(share > c.peak) [[unlikely]] { c.peak = share; c.peak_at = c.index; }
    if(!(err <= bound) && !measuring) [[unlikely]]
        c.fail("pow of %s and %s is %.12Lg (raw %s), the exact value is %.12Lg: off by %.3Lg steps, at most %.3Lg are permitted", SH(F, a), e.c_str(), num<F>(got), str(got).c_str(), ref, err / ulp<F>(), bound / ulp<F>());
}
// b^n exactly in raw units, if every multiplication on the way is exact; false otherwise
template <class F>
static bool exact_pow(i128 a, unsigned n, i128& out)
{
    if(n == 0) { out = Fm<F>::one; return true; }
    if(a == 0) { out = 0; return true; }
    int tz = 0;
    i128 m = a;
    while((m & 1) == 0) m >>= 1, ++tz;
    // a = m * 2^tz, value m * 2^(tz - frac); the power is m^n * 2^(n * (tz - frac))
    const int e = int(n) * (tz - Fm<F>::frac) + Fm<F>::frac;
    if(e < 0) return false;
    i128 r = 1;
    for(unsigned k = 0; k < n; ++k)
    {
        r *= m;
        if(r > (i128(1) << 64) || r < -(i128(1) << 64)) return false;
    }
    if(e > 62) return false;
    r <<= e;
    if(!Fm<F>::fits(r)) return false;
    out = r;
    return true;
}
template <class F, class E>
static void ipow1(mc::Ctx& c, i128 a, long long n)
{
    const LD b = num<F>(a);
    if(a == 0)
    {
        if(n < 0) return;
        ++c.valid;
        const i128 got = val(eirin::pow(raw<F>(a), E(n)));
        MC_CHECK(c, got == (n == 0 ? Fm<F>::one : 0), "0 to the power %lld is raw %s", n, str(got).c_str());
        return;
    }
    const LD ref = std::pow(b, (LD)n), B = ipow_bound<F>(b, n);
    if(n > 0) below<F>(c, a, std::to_string(n), val(eirin::pow(raw<F>(a), E(n))), ref);
    if(!representable<F>(std::fabs(ref) + B)) return;
    if(n < 0 && !representable<F>(std::fabs(1 / b) + ulp<F>())) return;
    ++c.valid;
    const i128 got = val(eirin::pow(raw<F>(a), E(n)));
    i128 want;
    if(n >= 0 && n <= 64 && exact_pow<F>(a, unsigned(n), want)) MC_CHECK(c, got == want, "%s to the power %lld is raw %s, exactly raw %s", SH(F, a), n, str(got).c_str(), str(want).c_str());
    if(B < 1e-3L * std::max(1.0L, std::fabs(ref)) + 64 * ulp<F>()) within2<F>(c, a, std::to_string(n), got, ref, std::max(B, ulp<F>() / 2));
    if(c.want) c.note("%s to the power %lld is raw %s", SH(F, a), n, str(got).c_str());
}
template <class F, class E>
static void ipow(mc::Run& run, const char* tn, const std::vector<i128>& V)
{
    std::vector<long long> N;
    const bool sg = std::is_signed_v<E>;
    for(long long n = sg ? -70 : 0; n <= 70; ++n) N.push_back(n);
    for(long long n : {100LL, 127LL, 255LL, 1000LL, 32767LL, 65535LL, 1000000LL, 2147483647LL, 4294967295LL, 4294967296LL, 4294967297LL, 4294967303LL, 1LL << 40, 9223372036854775807LL, 128LL, 129LL, 256LL, 257LL, 258LL, 32768LL, 65536LL, 65537LL, 65539LL})
    {
        if(n <= (unsigned long long)std::numeric_limits<E>::max()) N.push_back(n);
        if(sg && -n >= (long long)std::numeric_limits<E>::min()) N.push_back(-n);
        if(sg && -n - 1 >= (long long)std::numeric_limits<E>::min()) N.push_back(-n - 1);
    }
    run.space(std::string("pow ") + Fm<F>::name() + " ^ " + tn, uint64_t(N.size()) * V.size(), [&](uint64_t i, mc::Ctx& c) { ipow1<F, E>(c, V[i % V.size()], N[i / V.size()]); });
}
template <class F>
static void fpow1(mc::Ctx& c, i128 a, i128 e, bool throwing)
{
    const LD b = num<F>(a), x = num<F>(e);
    const bool whole = e % Fm<F>::one == 0;
    if(a == 0)
    {
        if(e < 0) return;
        ++c.valid;
        const i128 got = val(eirin::pow(raw<F>(a), raw<F>(e)));
        MC_CHECK(c, got == (e == 0 ? Fm<F>::one : 0), "0 to the power %s is raw %s", SH(F, e), str(got).c_str());
        return;
    }
    if(a < 0 && !whole)
    {
        if(!throwing) return; // exceptions are slow: every base, every seventh exponent
        ++c.valid;
        MC_CHECK(c, throws_domain([&] { return eirin::pow(raw<F>(a), raw<F>(e)); }), "pow of %s and %s did not throw domain_error", SH(F, a), SH(F, e));
        return;
    }
    const LD ref = std::pow(b, x);
    const LD n = std::trunc(x), fr = x - n;
    const LD ip = std::pow(std::fabs(b), n), ipb = ipow_bound<F>(b, n);
    LD B = ipb;
    if(!whole)
    {
        const LD l = std::log(b), le = (4 + std::fabs(l) * 1.0L) * ulp<F>();
        if(!representable<F>(std::log2(b)) || !representable<F>(-std::fabs(std::log2(b)))) return;
        const LD y = fr * l, ye = std::fabs(fr) * le + ulp<F>(), ey = std::exp(y);
        const LD eb = exp_bound<F>(y, ey) + ey * std::expm1(ye);
        B = 1.25L * (ip * eb + ipb * (ey + eb) + ulp<F>());
    }
    if(!representable<F>(std::fabs(ref) + B) || !representable<F>(ip + ipb)) return;
    if(x < 0 && !representable<F>(std::fabs(1 / b) + ulp<F>())) return;
    ++c.valid;
    const i128 got = val(eirin::pow(raw<F>(a), raw<F>(e)));
    i128 want;
    if(whole && n >= 0 && n <= 64 && exact_pow<F>(a, unsigned(n), want)) MC_CHECK(c, got == want, "%s to the power %s is raw %s, exactly raw %s", SH(F, a), SH(F, e), str(got).c_str(), str(want).c_str());
    if(B < 1e-3L * std::max(1.0L, std::fabs(ref)) + 64 * ulp<F>()) within2<F>(c, a, show<F>(e), got, ref, std::max(B, ulp<F>() / 2));
    if(c.want) c.note("%s to the power %s is raw %s", SH(F, a), SH(F, e), str(got).c_str());
}
template <class F>
static void fpow(mc::Run& run)
{
    std::vector<i128> ex;
    for(int k = 1; k <= 12; ++k)
        for(int d : {10, 7, 3, 2, 1}) { ex.push_back(k * Fm<F>::one / d); ex.push_back(-k * Fm<F>::one / d); }
    const auto V = Fm<F>::bits <= 8 ? complete<F>() : naf<F>(2, ex);
    run.space("pow " + Fm<F>::name() + " ^ " + Fm<F>::name(), uint64_t(V.size()) * V.size(), [&](uint64_t i, mc::Ctx& c) { fpow1<F>(c, V[i % V.size()], V[i / V.size()], i / V.size() % 7 == 0);});
}
static void go(mc::Run& run)
{
#    if PART == 2
    every_format<5, true>(run, "exp", ex);
#    elif PART >= 3
    run.small_space = 64; // many calls for each state
    // the argument passed to the job is the base; the exponents are enumerated for each base
    static std::vector<long long> N;
    static std::vector<i128> X;
    static size_t first;
    for(long long n = -40; n <= 40; ++n) N.push_back(n);
    for(long long n : {64LL, 65LL, 127LL, 128LL, 256LL, 1000LL, 65536LL, 2147483647LL}) { N.push_back(n); N.push_back(-n); }
    const auto whole = []<class F>(i128 a, mc::Ctx& c) {
        for(const long long n : N)
            if(Fm<F>::is_signed || n >= 0 || a != 0) ipow1<F, int>(c, a, n);
    };
    const auto fixed = []<class F>(i128 a, mc::Ctx& c) {
        for(size_t k = first; k < X.size(); k += 8) fpow1<F>(c, a, X[k], k % 7 == 0);
    };
    const auto few = [&](const Job& f) {
        std::vector<i128> v;
        const i128 one = i128(1) << f.frac;
        naf_rec(v, f.bits, run.thorough ? 2 : 1, 0, 0, f.lo, f.hi);
        for(int k = 1; k <= 20; ++k)
            for(int d : {1, 2, 3, 10, 16}) { v.push_back(k * one / d); v.push_back(-k * one / d); }
        v.push_back(f.hi);
        std::erase_if(v, [&](i128 x) { return x < f.lo || x > f.hi; });
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    };
#        if PART == 3
    for(const Job& f : every<1, true, true>(whole))
    {
        const auto V = few(f);
        run.space("every format: pow ^ int " + f.name, V.size(), [&](uint64_t i, mc::Ctx& c) { f.call(V[i], c); });
    }
#        else
    for(const Job& f : every<5, false, true>(fixed))
    {
        const auto V = few(f);
        X = V;
        run.space("every format: pow ^ fixed " + f.name, 8 * V.size(), [&](uint64_t i, mc::Ctx& c) {
            first = i / V.size();
            f.call(V[i % V.size()], c);
        });
    }
#        endif
#    else
#    if PART == 0
    full<f32>(run, "exp", ex);
    List<f32, f64, i32<20>, i32<8>, i32<24>, i16<8>, i16<12>, i64<16>, i64<48>, i32<16, true>, i64<32, true>, u32<16>, u16<8>, u64<32>, i32<26>, i16<10>, i64<58>, i32L<16>, i64L<32>>::each([&]<class F>() { sweep<F>(run, "exp", ex); });
#    else
    const auto bases = [&]<class F>() {
        std::vector<i128> ex2;
        for(int k = 1; k <= 20; ++k)
            for(int d : {1, 2, 10, 16}) { ex2.push_back(k * Fm<F>::one / d); ex2.push_back(-k * Fm<F>::one / d); }
        return Fm<F>::bits <= 8 ? complete<F>() : naf<F>(2, ex2);
    };
    List<f32, f64, i32<20>, i16<8>, i8<4>, i32<16, true>, i64<48>, i32<26>, i16<10>, i32L<16>, i64L<32>>::each([&]<class F>() {
        const auto V = bases.operator()<F>();
        ipow<F, int>(run, "int", V);
        if constexpr(std::is_same_v<F, f32> || std::is_same_v<F, f64>)
        {
            ipow<F, signed char>(run, "signed char", V);
            ipow<F, short>(run, "short", V);
            ipow<F, unsigned>(run, "unsigned", V);
            ipow<F, unsigned char>(run, "unsigned char", V);
            ipow<F, unsigned short>(run, "unsigned short", V);
            ipow<F, long long>(run, "long long", V);
            ipow<F, unsigned long long>(run, "unsigned long long", V);
        }
        fpow<F>(run);
    });
    List<u32<16>, u16<8>, u64<32>>::each([&]<class F>() {
        const auto V = bases.operator()<F>();
        ipow<F, int>(run, "int", V);
        ipow<F, unsigned>(run, "unsigned", V);
    });
#    endif
#    endif
}
#endif

#if PROP == 19
static const LD E_ = 2.71828182845904523536028747135266250L;
// the format's own pi is smaller than pi by delta steps
template <class F>
static const real<F> delta = PI / ulp<F>() - std::floor(PI / ulp<F>());
template <class F>
static const real<F> dq = delta<F> / (PI - delta<F> * ulp<F>());
static auto cv = []<class F>(i128 a, mc::Ctx& c) {
    typedef real<F> R;
    const R u = ulp<F>(), x = rnum<F>(a);
    const F v = raw<F>(a);
    const R dg = x * R(180 / PI), rd = x * R(PI / 180);
    const R db = (R(181.1L) + dq<F> * std::fabs(dg)) * u, rb = (R(4.2L) + delta<F> * std::fabs(x) / 180) * u;
    if(representable<F>(dg + db) && representable<F>(dg - db))
    {
        ++c.valid;
        within<F>(c, "degrees", a, val(eirin::degrees(v)), dg, db);
    }
    if(representable<F>(rd))
    {
        ++c.valid;
        within<F>(c, "radians", a, val(eirin::radians(v)), rd, rb);
    }
    if(c.want) c.note("degrees and radians of %s", SH(F, a));
};
template <class F>
static void constants(mc::Run& run)
{
    using namespace eirin::numbers;
    const LD v[] = {E_, PI, std::log2(E_), 0.434294481903251827651128918916605082L, 1 / PI, 0.564189583547756286948079451560772586L, 0.693147180559945309417232121458176568L,
                    2.302585092994045684017991454684364208L, 1.414213562373095048801688724209698079L, 1.732050807568877293527446341505872367L, 0.577350269189625764509148780501957456L,
                    0.577215664901532860606512090082402431L, 1.618033988749894848204586834365638118L, E_, PI, PI / 2, PI / 4, 2 * PI};
    static const char* nm[] = {"e_v", "pi_v", "log2e_v", "log10e_v", "inv_pi_v", "inv_sqrtpi_v", "ln2_v", "ln10_v", "sqrt2_v", "sqrt3_v", "inv_sqrt3_v", "egamma_v", "phi_v", "e()", "pi()", "pi_2()", "pi_4()", "double_pi()"};
    const F got[] = {e_v<F>(), pi_v<F>(), log2e_v<F>(), log10e_v<F>(), inv_pi_v<F>(), inv_sqrtpi_v<F>(), ln2_v<F>(), ln10_v<F>(), sqrt2_v<F>(), sqrt3_v<F>(), inv_sqrt3_v<F>(), egamma_v<F>(), phi_v<F>(),
                     F::e(), F::pi(), F::pi_2(), F::pi_4(), F::double_pi()};
    run.space("constants " + Fm<F>::name(), 18, [&](uint64_t i, mc::Ctx& c) {
        if(!representable<F>(v[i])) return;
        ++c.valid;
        // the stored constants are doubles (53 bits) except e and pi
        const LD slack = i < 2 || i >= 13 ? std::ldexp(1.0L, -60) : std::ldexp(1.0L, -50);
        const LD d = v[i] - num<F>(val(got[i])), lo = Fm<F>::rounding ? -ulp<F>() / 2 - slack : -slack, hi = (Fm<F>::rounding ? 0.5L : i == 17 ? 2 : 1) * ulp<F>() + slack;
        MC_CHECK(c, d >= lo && d <= hi, "%s of %s is raw %s: off by %.4Lg steps", nm[i], Fm<F>::name().c_str(), str(val(got[i])).c_str(), d / ulp<F>());
        if(c.want) c.note("%s of %s", nm[i], Fm<F>::name().c_str());
    });
}
static void go(mc::Run& run)
{
#    if PART == 1
    every_format<8, true>(run, "degrees and radians", cv);
#    else
    full<f32>(run, "degrees and radians of", cv);
    List<f32, f64, i32<20>, i32<8>, i16<5>, i64<16>, i64<48>, i32<16, true>, u32<16>, u16<5>, u64<32>, i32L<16>, i64L<32>>::each([&]<class F>() { sweep<F>(run, "degrees and radians", cv); });
    each_frac(std::make_integer_sequence<unsigned, 60>{}, [&]<unsigned f>() {
        constants<i64<f>>(run);
        if constexpr(f < 61) constants<i64<f, true>>(run);
        if constexpr(f <= 29) { constants<i32<f>>(run); constants<i32<f, true>>(run); constants<u32<f>>(run); }
        if constexpr(f <= 13) constants<i16<f>>(run);
        if constexpr(f <= 5) constants<i8<f>>(run);
    });
    {
        using namespace eirin::numbers;
        const f32 a[] = {e, pi, log2e, log10e, inv_pi, inv_sqrtpi, ln2, ln10, sqrt2, sqrt3, inv_sqrt3, egamma, phi};
        const f32 av[] = {e_v<f32>(), pi_v<f32>(), log2e_v<f32>(), log10e_v<f32>(), inv_pi_v<f32>(), inv_sqrtpi_v<f32>(), ln2_v<f32>(), ln10_v<f32>(), sqrt2_v<f32>(), sqrt3_v<f32>(), inv_sqrt3_v<f32>(), egamma_v<f32>(), phi_v<f32>()};
        const f64 b[] = {e_f64, pi_f64, log2e_f64, log10e_f64, inv_pi_f64, inv_sqrtpi_f64, ln2_f64, ln10_f64, sqrt2_f64, sqrt3_f64, inv_sqrt3_f64, egamma_f64, phi_f64};
        const f64 bv[] = {e_v<f64>(), pi_v<f64>(), log2e_v<f64>(), log10e_v<f64>(), inv_pi_v<f64>(), inv_sqrtpi_v<f64>(), ln2_v<f64>(), ln10_v<f64>(), sqrt2_v<f64>(), sqrt3_v<f64>(), inv_sqrt3_v<f64>(), egamma_v<f64>(), phi_v<f64>()};
        run.space("predefined constants", 26, [&](uint64_t i, mc::Ctx& c) {
            ++c.valid;
            if(i < 13) MC_CHECK(c, a[i] == av[i], "predefined fixed32 constant %d differs from its template", int(i));
            else MC_CHECK(c, b[i - 13] == bv[i - 13], "predefined fixed64 constant %d differs from its template", int(i - 13));
        });
    }
#    endif
}
#endif

int main(int argc, char** argv)
{
    measuring = getenv("MC_MEASURE") != nullptr;
    mc::Run run(argc, argv, "C" STR(PROP));
    go(run);
    return run.finish();
}
