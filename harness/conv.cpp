// C06 construction and conversion, C07 decomposition and limits, C08 ceil/floor/trunc/round
#include "every.hpp"
#include <eirin/math.hpp>
#include <cmath>
#include <climits>
#ifndef PROP
#    define PROP 6
#endif
#ifndef PART
#    define PART 0
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

template <class F>
static std::vector<i128> values(const mc::Run& run)
{
    if(Fm<F>::bits <= 16) return complete<F>();
    const i128 o = Fm<F>::one, h = o / 2;
    std::vector<i128> extra;
    // every integer and half-integer near zero and near the ends, with its neighbours
    for(i128 k = -600; k <= 600; ++k)
        for(i128 d = -2; d <= 2; ++d)
        {
            extra.push_back(k * h + d);
            extra.push_back(floor_div(Fm<F>::hi, h) * h + k * h + d);
            extra.push_back(floor_div(Fm<F>::lo, h) * h + k * h + d);
        }
    return naf<F>(run.thorough ? 4 : 3, extra);
}

#if PROP == 6
// the exact value of a finite floating number times 2^f, as integer part and "rest is nonzero" etc.
template <class T>
static bool scaled_exact(T v, int f, i128& ip, int& cmp_half, bool& any_rest)
{
    // |v| < 2^62 is guaranteed by the alphabets; ldexp is exact here
    long double s = std::ldexp((long double)v, f);
    if(!(std::fabs(s) < 1.0e36L)) return false;
    long double t = std::trunc(s);
    long double rest = std::fabs(s - t); // exact
    ip = (i128)t;
    any_rest = rest != 0;
    cmp_half = rest > 0.5L ? 1 : rest == 0.5L ? 0 : -1;
    return true;
}

template <class F, class T>
static void from_float_one(T v, const char* tn, mc::Ctx& c)
{
    i128 ip;
    int ch;
    bool rest;
    if(!scaled_exact(v, Fm<F>::frac, ip, ch, rest)) return;
    if(!Fm<F>::is_signed && v < 0) return;
    // the scaled value itself has to be inside the store type
    if(!Fm<F>::fits(ip)) return;
    i128 want = ip;
    if(Fm<F>::rounding && ch >= 0) want += v < 0 ? -1 : 1;
    if(!Fm<F>::fits(want)) return;
    ++c.valid;
    const i128 got = val(F(v));
    MC_CHECK(c, got == want, "construction from the %s %.21Lg: raw %s, expected %s (%s)", tn, (long double)v, str(got).c_str(), str(want).c_str(), Fm<F>::name().c_str());
    if(c.want) c.note("%s constructed from %.21Lg has raw value %s", Fm<F>::name().c_str(), (long double)v, str(got).c_str());
}
template <class F, class T>
static void from_float(mc::Run& run, const char* tn)
{
    // m * 2^e with m having at most 3 nonzero signed binary digits inside the mantissa, plus the
    // neighbours (nextafter) of all of them: every halfway case and every neighbour of one
    std::vector<T> V;
    {
        std::vector<i128> m;
        naf_rec(m, 26, 3, 0, 0, -(i128(1) << 27), i128(1) << 27);
        std::sort(m.begin(), m.end());
        m.erase(std::unique(m.begin(), m.end()), m.end());
        std::vector<i128> big;
        naf_rec(big, std::numeric_limits<T>::digits, 2, 0, 0, -(i128(1) << 64), i128(1) << 64);
        for(i128 x : big) m.push_back(x);
        std::vector<T> base;
        for(i128 x : m)
            for(int e : {0, -1, -Fm<F>::frac, -Fm<F>::frac - 1, -Fm<F>::frac / 2}) base.push_back((T)std::ldexp((T)x, e));
        for(T b : base)
        {
            V.push_back(b);
            V.push_back(std::nextafter(b, T(1e30)));
            V.push_back(std::nextafter(b, T(-1e30)));
        }
        std::sort(V.begin(), V.end());
        V.erase(std::unique(V.begin(), V.end()), V.end());
        std::sort(V.begin(), V.end(), [](T a, T b) { return std::fabs(a) != std::fabs(b) ? std::fabs(a) < std::fabs(b) : a < b; });
    }
    run.space("from " + std::string(tn) + " " + Fm<F>::name(), V.size(), [&](uint64_t i, mc::Ctx& c) { from_float_one<F, T>(V[i], tn, c); });
}

template <class F, class J>
static void from_int(mc::Run& run, const char* jn)
{
    constexpr bool s = J(-1) < J(0);
    const int bits = std::is_same_v<J, bool> ? 1 : int(sizeof(J)) * 8;
    const i128 lo = s ? -(i128(1) << (bits - 1)) : 0, hi = s ? (i128(1) << (bits - 1)) - 1 : (i128(1) << bits) - 1;
    std::vector<i128> K;
    if(bits <= 16)
        for(i128 k = lo; k <= hi; ++k) K.push_back(k);
    else
        naf_rec(K, bits, 3, 0, 0, lo, hi);
    std::sort(K.begin(), K.end());
    K.erase(std::unique(K.begin(), K.end()), K.end());
    run.space("from " + std::string(jn) + " " + Fm<F>::name(), K.size(), [&](uint64_t i, mc::Ctx& c) {
        const i128 k = K[i];
        if(k < floor_div(Fm<F>::lo, Fm<F>::one) || k > floor_div(Fm<F>::hi, Fm<F>::one)) return;
        ++c.valid;
        const i128 got = val(F(static_cast<J>(k)));
        MC_CHECK(c, got == k * Fm<F>::one, "%s(%s of type %s) has raw value %s", Fm<F>::name().c_str(), str(k).c_str(), jn, str(got).c_str());
        if(c.want) c.note("%s(%s) has raw value %s", Fm<F>::name().c_str(), str(k).c_str(), str(got).c_str());
    });
}

template <class F, class J>
static void to_int_one(i128 a, mc::Ctx& c)
{
    constexpr bool s = J(-1) < J(0);
    const int bits = int(sizeof(J)) * 8;
    const i128 lo = s ? -(i128(1) << (bits - 1)) : 0, hi = s ? (i128(1) << (bits - 1)) - 1 : (i128(1) << bits) - 1;
    const i128 fl = floor_div(a, Fm<F>::one);
    if(fl < lo || fl > hi) return;
    const i128 got = (i128) static_cast<J>(raw<F>(a));
    MC_CHECK(c, got == fl, "casting %s to a %zu-byte %s integer gave %s, expected %s", SH(F, a), sizeof(J), s ? "signed" : "unsigned", str(got).c_str(), str(fl).c_str());
}
template <class F, class T>
static void to_float_one(i128 a, mc::Ctx& c)
{
    const T want = std::ldexp(static_cast<T>(a), -Fm<F>::frac); // nearest, then an exact scaling
    const T got = static_cast<T>(raw<F>(a));
    MC_CHECK(c, got == want, "casting %s to a %zu-byte float gave %.21Lg, expected %.21Lg", SH(F, a), sizeof(T), (long double)got, (long double)want);
}
template <class F>
static void to_all(i128 a, mc::Ctx& c)
{
    ++c.valid;
    to_int_one<F, int>(a, c);
    to_int_one<F, unsigned>(a, c);
    to_int_one<F, long>(a, c);
    to_int_one<F, unsigned long>(a, c);
    to_int_one<F, short>(a, c);
    to_int_one<F, unsigned short>(a, c);
    to_int_one<F, signed char>(a, c);
    to_int_one<F, unsigned char>(a, c);
    to_float_one<F, float>(a, c);
    to_float_one<F, double>(a, c);
    to_float_one<F, long double>(a, c);
    // and back: an exact float comes back unchanged
    {
        const F x = raw<F>(a);
        const i128 back = val(F(static_cast<long double>(x)));
        MC_CHECK(c, back == a, "%s through long double came back as raw %s", SH(F, a), str(back).c_str());
        const F copy(x);
        MC_CHECK(c, val(copy) == a, "a copy of %s differs", SH(F, a));
        F as = raw<F>(a == 0 ? 1 : 0);
        as = x;
        MC_CHECK(c, val(as) == a, "an assigned copy of %s differs", SH(F, a));
    }
    if(c.want) c.note("%s to every integer and floating type", SH(F, a));
}

template <class F, class G, bool count = true>
static void cross_one(i128 a, mc::Ctx& c)
{
    i128 want;
    if(Fm<G>::frac >= Fm<F>::frac)
    {
        const i128 m = i128(1) << (Fm<G>::frac - Fm<F>::frac);
        if(a > 0 ? a > Fm<G>::hi / m : a < Fm<G>::lo / m) return;
        want = a * m;
    }
    else
    {
        const i128 m = i128(1) << (Fm<F>::frac - Fm<G>::frac);
        want = Fm<G>::rounding ? round_div(a, m) : trunc_div(a, m);
    }
    if(!Fm<G>::fits(want)) return;
    if(count) ++c.valid;
    const i128 got = val(G(raw<F>(a)));
    MC_CHECK(c, got == want, "converting %s to %s gave raw %s, expected raw %s", SH(F, a), Fm<G>::name().c_str(), str(got).c_str(), str(want).c_str());
    const i128 got2 = val(G::template from_fixed_num_value<Fm<F>::frac>(raw<F>(a).internal_value()));
    MC_CHECK(c, got2 == want, "from_fixed_num_value of %s to %s gave raw %s, expected raw %s", SH(F, a), Fm<G>::name().c_str(), str(got2).c_str(), str(want).c_str());
    if(c.want) c.note("%s converted to %s has raw value %s", SH(F, a), Fm<G>::name().c_str(), str(got).c_str());
}
#    if PART == 0
using Src = List<i8<4>, i8<7>, u8<4>, i16<8>, i16<1>, u16<8>>;
using Dst = List<i8<4>, i8<1>, i8<4, true>, u8<4>, u8<7, true>, i16<8>, i16<15>, i16<8, true>, u16<8>, i32<16>, i32<20>, i32<30>, i32<16, true>, u32<16>, i64<32>, i64<61>, u64<32>>;
using Fs = List<i8<4>, i8<1>, i8<7>, u8<4>, i8<4, true>, u8<7, true>, i16<8>, i16<15>, u16<8>, i16<8, true>>;
#    elif PART == 1
using Src = List<i32<16>, i32<20>, i32<31>, u32<16>, i32L<16>>;
using Dst = List<i8<4>, i8<4, true>, u8<4>, i16<8>, i16<15, true>, u16<8>, i32<16>, i32<20>, i32<8>, i32<16, true>, u32<16>, i64<32>, i64<61>, i64<32, true>, u64<32>, i64L<32>>;
using Fs = List<i32<16>, i32<20>, i32<30>, u32<16>, i32<16, true>, u32<31, true>, i32L<16>>;
#    elif PART == 2
using Src = List<i64<32>, i64<16>, i64<61>, u64<32>, i64L<32>>;
using Dst = List<i8<4>, i16<8>, i16<8, true>, u16<8>, i32<16>, i32<20>, i32<16, true>, u32<16>, i64<32>, i64<48>, i64<61>, i64<32, true>, u64<32>, u64<32, true>, i32L<16>, i64L<32>>;
using Fs = List<i64<32>, i64<16>, i64<61>, u64<32>, i64<32, true>, u64<32, true>, i64L<32>>;
#    endif
#    if PART >= 3
// every number of fraction bits, with values() replaced by the smaller alphabets
static void go(mc::Run& run)
{
#        if PART == 3
    // from the integers and floats around each value, to all types, and to 8 formats
    each_format(run, "convert", every<0, true, true>([]<class F>(i128 a, mc::Ctx& c) {
        to_all<F>(a, c);
        const auto counted = c.valid; // one state, whatever is done with it
        for(int d = -1; d <= 1; ++d)
        {
            const long double h = std::ldexp((long double)a + d * 0.5L, -Fm<F>::frac);
            from_float_one<F, float>((float)h, "float", c);
            from_float_one<F, double>((double)h, "double", c);
            from_float_one<F, long double>(h, "long double", c);
            from_float_one<F, double>(std::nextafter((double)h, 1e30), "double", c);
            from_float_one<F, double>(std::nextafter((double)h, -1e30), "double", c);
        }
        const i128 k = floor_div(a, Fm<F>::one);
        if(k >= INT_MIN && k <= INT_MAX) MC_CHECK(c, val(F(int(k))) == k * Fm<F>::one, "%s of the int %s", Fm<F>::name().c_str(), str(k).c_str());
        if(k >= 0 && k <= UINT_MAX) MC_CHECK(c, val(F(unsigned(k))) == k * Fm<F>::one, "%s of the unsigned %s", Fm<F>::name().c_str(), str(k).c_str());
        if(k >= LLONG_MIN && k <= LLONG_MAX) MC_CHECK(c, val(F((long long)(k))) == k * Fm<F>::one, "%s of the long long %s", Fm<F>::name().c_str(), str(k).c_str());
        c.valid = counted;
    }));
#        elif PART == 4
    each_format(run, "convert to others", every<0, true, false>([]<class F>(i128 a, mc::Ctx& c) {
        ++c.valid;
        List<i8<4>, i8<7>, u8<4>, i16<8>, i16<8, true>, u16<1>, i32<16>, i32<30>, i32<16, true>, u32<16>, i64<32>, i64<61>, i64<16, true>, u64<32>>::each([&]<class G>() { cross_one<F, G, false>(a, c); });
    }));
#        else
    List<i8<4>, u8<5>, i16<8>, i32<16>, i32<28>, u32<12>, i64<32>, i64<58>, u64<32>>::each([&]<class F>() {
        // every format as target of a conversion from F: the values enumerated are those of F
        static Job src;
        src = {Fm<F>::name(), Fm<F>::bits, Fm<F>::frac, Fm<F>::lo, Fm<F>::hi, nullptr};
        const auto V = small(src, run.thorough);
        for(const Job& g : every<0, true, true>([]<class G>(i128 a, mc::Ctx& c) { cross_one<F, G>(a, c); }))
            run.space("every format: convert " + src.name + " to " + g.name, V.size(), [&](uint64_t i, mc::Ctx& c) { g.call(V[i], c); });
    });
#        endif
}
#    else
static void go(mc::Run& run)
{
    Fs::each([&]<class F>() {
        from_float<F, float>(run, "float");
        from_float<F, double>(run, "double");
        from_float<F, long double>(run, "long double");
        from_int<F, int>(run, "int");
        from_int<F, unsigned>(run, "unsigned");
        from_int<F, long>(run, "long");
        from_int<F, unsigned long>(run, "unsigned long");
        from_int<F, long long>(run, "long long");
        from_int<F, unsigned long long>(run, "unsigned long long");
        from_int<F, short>(run, "short");
        from_int<F, unsigned short>(run, "unsigned short");
        from_int<F, signed char>(run, "signed char");
        from_int<F, unsigned char>(run, "unsigned char");
        from_int<F, char>(run, "char");
        from_int<F, bool>(run, "bool");
        const auto V = values<F>(run);
        run.space("to " + Fm<F>::name(), V.size(), [&](uint64_t i, mc::Ctx& c) { to_all<F>(V[i], c); });
    });
#    if PART == 1
    // every fixed32
    using F32 = i32<16>;
    run.space("to, complete i32f16", uint64_t(1) << 32, [&](uint64_t i, mc::Ctx& c) {
        const i128 a = (int32_t)(uint32_t)i;
        ++c.valid;
        to_int_one<F32, int>(a, c);
        to_int_one<F32, unsigned short>(a, c);
        to_float_one<F32, double>(a, c);
        to_float_one<F32, float>(a, c);
        cross_one<F32, i64<32>, false>(a, c);
        cross_one<F32, i32<20>, false>(a, c);
        cross_one<F32, i16<8, true>, false>(a, c);
        if(c.want) c.note("%s", SH(F32, a));
    });
#    endif
    Src::each([&]<class F>() {
        const auto V = values<F>(run);
        Dst::each([&]<class G>() {
            run.space("convert " + Fm<F>::name() + " to " + Fm<G>::name(), V.size(), [&](uint64_t i, mc::Ctx& c) { cross_one<F, G>(V[i], c); });
        });
    });
}
#    endif
#endif

#if PROP == 7
template <class F>
static inline void body(i128 a, mc::Ctx& c)
{
    ++c.valid;
    const F x = raw<F>(a);
    const i128 m = a < 0 ? -a : a;
    MC_CHECK(c, signbit(x) == (a < 0), "signbit of %s is wrong", SH(F, a));
    const i128 ip = (i128)x.integral_part();
    MC_CHECK(c, ip == m / Fm<F>::one, "integral_part of %s is %s, expected %s", SH(F, a), str(ip).c_str(), str(m / Fm<F>::one).c_str());
    const i128 fp = (i128)x.fractional_part();
    MC_CHECK(c, fp == a % Fm<F>::one, "fractional_part of %s is raw %s, expected %s", SH(F, a), str(fp).c_str(), str(a % Fm<F>::one).c_str());
    if(Fm<F>::is_signed)
    {
        const i128 rp = (i128)x.raw_integral_part();
        const i128 want = (a & Fm<F>::hi) >> Fm<F>::frac;
        MC_CHECK(c, rp == want, "raw_integral_part of %s is %s, expected %s", SH(F, a), str(rp).c_str(), str(want).c_str());
    }
    if(Fm<F>::fits(m)) MC_CHECK(c, val(eirin::abs(x)) == m, "abs of %s is raw %s", SH(F, a), str(val(eirin::abs(x))).c_str());
    MC_CHECK(c, val(F::from_internal_value(x.internal_value())) == a, "the internal value of %s does not round trip", SH(F, a));
    typename F::value_type bytes;
    MC_CHECK(c, sizeof(F) == sizeof(bytes) && std::is_trivially_copyable_v<F> && std::is_standard_layout_v<F>, "%s is not stored as its raw value", Fm<F>::name().c_str());
    memcpy(&bytes, (const void*)&x, sizeof bytes);
    MC_CHECK(c, i128(bytes) == a, "the bytes of %s hold %s", SH(F, a), str(i128(bytes)).c_str());
    using L = std::numeric_limits<F>;
    MC_CHECK(c, !(x < L::min()) && !(x < L::lowest()) && !(x > L::max()), "%s is outside of numeric_limits", SH(F, a));
    if(c.want) c.note("%s: integral part %s, fraction %s", SH(F, a), str(ip).c_str(), str(fp).c_str());
}
#endif
#if PROP == 8
template <class F>
static inline void body(i128 a, mc::Ctx& c)
{
    ++c.valid;
    const F x = raw<F>(a);
    const i128 o = Fm<F>::one;
    const i128 fl = floor_div(a, o) * o, ce = -floor_div(-a, o) * o, tr = a / o * o;
    const i128 rd = round_div(a, o) * o;
    i128 g = val(eirin::floor(x));
    MC_CHECK(c, g == fl, "floor of %s is raw %s, expected raw %s", SH(F, a), str(g).c_str(), str(fl).c_str());
    g = val(eirin::trunc(x));
    MC_CHECK(c, g == tr, "trunc of %s is raw %s, expected raw %s", SH(F, a), str(g).c_str(), str(tr).c_str());
    g = val(eirin::ceil(x));
    const i128 cw = Fm<F>::fits(ce) ? ce : Fm<F>::hi;
    MC_CHECK(c, g == cw, "ceil of %s is raw %s, expected raw %s", SH(F, a), str(g).c_str(), str(cw).c_str());
    if(Fm<F>::fits(rd))
    {
        g = val(eirin::round(x));
        MC_CHECK(c, g == rd, "round of %s is raw %s, expected raw %s", SH(F, a), str(g).c_str(), str(rd).c_str());
    }
    if(c.want) c.note("%s: floor %s, ceil %s, trunc %s", SH(F, a), str(fl).c_str(), str(ce).c_str(), str(tr).c_str());
}
#endif
#if PROP != 6
template <class F>
static void limits(mc::Ctx& c)
{
    ++c.valid;
    using L = std::numeric_limits<F>;
    MC_CHECK(c, val(L::max()) == Fm<F>::hi, "numeric_limits max of %s is raw %s", Fm<F>::name().c_str(), str(val(L::max())).c_str());
    MC_CHECK(c, val(L::min()) == Fm<F>::lo, "numeric_limits min of %s is raw %s", Fm<F>::name().c_str(), str(val(L::min())).c_str());
    MC_CHECK(c, val(L::lowest()) == Fm<F>::lo, "numeric_limits lowest of %s is raw %s", Fm<F>::name().c_str(), str(val(L::lowest())).c_str());
    MC_CHECK(c, val(eirin::max_value<F>()) == Fm<F>::hi && val(eirin::min_value<F>()) == Fm<F>::lo, "max_value or min_value of %s", Fm<F>::name().c_str());
    MC_CHECK(c, L::is_signed == Fm<F>::is_signed && L::is_specialized && L::is_exact && L::is_bounded && !L::is_integer, "numeric_limits flags of %s", Fm<F>::name().c_str());
    MC_CHECK(c, !L::has_infinity && !L::has_quiet_NaN && !L::has_signaling_NaN && !L::is_iec559 && !L::is_modulo, "numeric_limits flags of %s", Fm<F>::name().c_str());
    // a difference of one tolerance is the largest that the nearly-comparisons ignore
    if(Fm<F>::hi > i128(val(L::epsilon())) + 1)
        MC_CHECK(c, F(0).nearly_eq(L::epsilon()) && !F(0).nearly_eq(raw<F>(i128(val(L::epsilon())) + 1)), "numeric_limits epsilon of %s is raw %s, which is not the tolerance of the nearly-comparisons", Fm<F>::name().c_str(), str(val(L::epsilon())).c_str());
    MC_CHECK(c, int(F::precision) == Fm<F>::frac, "precision of %s", Fm<F>::name().c_str());
    MC_CHECK(c, val(F(0)) == 0 && val(F{}) == 0, "zero of %s", Fm<F>::name().c_str());
    MC_CHECK(c, eirin::is_fixed_point_v<F> && eirin::is_fixed_point_v<const F> && !eirin::is_fixed_point_v<int> && !eirin::is_fixed_point_v<double>, "is_fixed_point");
}
static void go(mc::Run& run)
{
#    if PART == 1
    each_format(run, "values", every<0, true, true>([]<class F>(i128 a, mc::Ctx& c) {
        body<F>(a, c);
        if(a == 0) { limits<F>(c); --c.valid; }
    }));
#    else
    auto one = [&]<class F>() {
        const auto V = values<F>(run);
        run.space("values " + Fm<F>::name(), V.size(), [&](uint64_t i, mc::Ctx& c) { body<F>(V[i], c); });
        run.space("limits " + Fm<F>::name(), 1, [&](uint64_t, mc::Ctx& c) { limits<F>(c); });
    };
    Formats8::each(one);
    Formats16::each(one);
    Formats32::each(one);
    Formats64::each(one);
    run.space("predefined limits", 1, [&](uint64_t, mc::Ctx& c) {
        ++c.valid;
        MC_CHECK(c, val(eirin::f32_max) == 0x7fffffff && val(eirin::f32_min) == -(i128(1) << 31) && val(eirin::f64_max) == (i128(1) << 63) - 1 && val(eirin::f64_min) == -(i128(1) << 63), "f32/f64 max/min");
    });
    run.space("complete i32f16", uint64_t(1) << 32, [&](uint64_t i, mc::Ctx& c) { body<i32<16>>((int32_t)(uint32_t)i, c); });
    if(run.thorough)
    {
        run.space("complete i32f20", uint64_t(1) << 32, [&](uint64_t i, mc::Ctx& c) { body<i32<20>>((int32_t)(uint32_t)i, c); });
        run.space("complete i32f31", uint64_t(1) << 32, [&](uint64_t i, mc::Ctx& c) { body<i32<31>>((int32_t)(uint32_t)i, c); });
        run.space("complete i32f16r", uint64_t(1) << 32, [&](uint64_t i, mc::Ctx& c) { body<i32<16, true>>((int32_t)(uint32_t)i, c); });
        run.space("complete u32f16", uint64_t(1) << 32, [&](uint64_t i, mc::Ctx& c) { body<u32<16>>((uint32_t)i, c); });
    }
#    endif
}
#endif

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, "C0" STR(PROP));
    go(run);
    return run.finish();
}
