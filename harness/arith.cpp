// C01 add/sub/neg/inc/dec, C02 mul, C03 div, C04 mod/fmod/modf, C05 comparisons
#include "fmt.hpp"
#include <eirin/math.hpp>
#include <utility>

#ifndef PROP
#    define PROP 1
#endif
#ifndef PART
#    define PART 0
#endif
#define STR2(x) #x
#define STR(x) STR2(x)

#if PART == 0
using Formats = Formats8;
#elif PART == 1
using Formats = Formats16;
#elif PART == 2
using Formats = Formats32;
#elif PART == 3
using Formats = Formats64;
#else
// PART 4..11: every number of fraction bits (those congruent to PART modulo 8), all storage types
template <template <unsigned, bool> class X, unsigned bits, unsigned f, class G>
static void each_fraction(G& g)
{
    if constexpr(f < bits)
    {
        g.template operator()<X<f, false>>();
        g.template operator()<X<f, true>>();
        each_fraction<X, bits, f + 8>(g);
    }
}
struct Formats
{
    template <class G>
    static void each(G g)
    {
        constexpr unsigned f = PART - 4 ? PART - 4 : 8;
        each_fraction<i8, 8, f>(g);
        each_fraction<u8, 8, f>(g);
        each_fraction<i16, 16, f>(g);
        each_fraction<u16, 16, f>(g);
        each_fraction<i32, 32, f>(g);
        each_fraction<u32, 32, f>(g);
        each_fraction<i64, 64, f>(g);
        each_fraction<u64, 64, f>(g);
    }
};
#endif

template <class F>
static std::vector<i128> pair_alphabet(const mc::Run& run)
{
    if(Fm<F>::bits == 8) return complete<F>();
    if(Fm<F>::bits == 16) return naf<F>(3);
    const i128 o = Fm<F>::one;
    return naf<F>(run.thorough ? 3 : 2, {3 * o, 5 * o, o / 3, o / 10, o * 7 / 5, -o / 3, -o / 10, 10 * o, 100 * o, -10 * o, 12345, -12345, 0x1234567, -0x1234567});
}

// values with dense digits: n mantissas (spread evenly, then rounded) at every scale
template <class F>
static std::vector<i128> scaled(int n)
{
    std::vector<i128> v;
    std::map<i128, int> seen;
    for(int k = 1; k < Fm<F>::bits; ++k)
        for(int j = 0; j < n; ++j)
        {
            const i128 x = (i128(1) << k) + (i128)((u128(0x9E3779B97F4A7C15ull) * u128(2 * j + 1) & 0xFFFFFFFFFFFFFFFFull) >> (64 - k));
            for(i128 y : {x, -x})
                if(Fm<F>::fits(y) && seen.emplace(y, 0).second) v.push_back(y);
        }
    return v;
}

__attribute__((noinline)) static void paint(int v)
{
    volatile char b[768];
    for(auto& x : b) x = (char)v;
}
template <class F>
__attribute__((noinline)) static size_t hash_of(F x) { return eirin::fixed_hash<F>()(x); }

struct Expect
{
    bool defined;
    i128 v;
};

template <class F>
static Expect model_mul(i128 a, i128 b)
{
    // |a*b| < 2^128 for unsigned 64 bit: split to stay inside 127 bits
    if(!Fm<F>::is_signed && Fm<F>::bits == 64)
    {
        u128 p = u128(a) * u128(b);
        u128 q = Fm<F>::rounding ? (p >> Fm<F>::frac) + ((p >> (Fm<F>::frac - 1)) & 1) : p >> Fm<F>::frac;
        return {q <= u128(Fm<F>::hi), i128(q)};
    }
    i128 p = a * b;
    i128 q = Fm<F>::rounding ? round_div(p, Fm<F>::one) : floor_div(p, Fm<F>::one);
    return {Fm<F>::fits(q), q};
}
template <class F>
static Expect model_div(i128 a, i128 b)
{
    if(!Fm<F>::is_signed)
    {
        u128 n = u128(a) << Fm<F>::frac, ub = u128(b);
        u128 q = n / ub, r = n % ub;
        if(Fm<F>::rounding && r >= ub - r) ++q;
        return {q <= u128(Fm<F>::hi), i128(q)};
    }
    i128 n = a * Fm<F>::one;
    i128 q = Fm<F>::rounding ? round_div(n, b) : trunc_div(n, b);
    return {Fm<F>::fits(q), q};
}

#define OP_SAME(c, F, expr, want, what, a, b)                                                              \
    do {                                                                                                   \
        const i128 got_ = val(expr);                                                                       \
        MC_CHECK(c, got_ == (want), "%s: %s and %s gave raw %s, expected raw %s", what, SH(F, a), SH(F, b), str(got_).c_str(), str(want).c_str()); \
    } while(0)

// ------------------------------------------------------------------------------------------------
template <class F>
static void pair_body(i128 a, i128 b, mc::Ctx& c)
{
    const F x = raw<F>(a), y = raw<F>(b);
    bool any = false;
#if PROP == 1
    if(const i128 s = a + b; Fm<F>::fits(s))
    {
        any = true;
        OP_SAME(c, F, x + y, s, "x + y", a, b);
        F z = x;
        F& ref = (z += y);
        OP_SAME(c, F, z, s, "x += y", a, b);
        MC_CHECK(c, &ref == &z, "x += y does not return x");
    }
    if(const i128 d = a - b; Fm<F>::fits(d))
    {
        any = true;
        OP_SAME(c, F, x - y, d, "x - y", a, b);
        F z = x;
        F& ref = (z -= y);
        OP_SAME(c, F, z, d, "x -= y", a, b);
        MC_CHECK(c, &ref == &z, "x -= y does not return x");
        if(a == b)
        {
            F w = x;
            w -= w;
            OP_SAME(c, F, w, i128(0), "x -= x", a, a);
        }
    }
    if(a == b && Fm<F>::fits(a + a))
    {
        F w = x;
        w += w;
        OP_SAME(c, F, w, a + a, "x += x", a, a);
    }
    MC_CHECK(c, val(x) == a && val(y) == b, "an operand of + or - changed: %s %s", SH(F, a), SH(F, b));
#elif PROP == 2
    const Expect e = model_mul<F>(a, b);
    if(e.defined)
    {
        any = true;
        OP_SAME(c, F, x * y, e.v, "x * y", a, b);
        F z = x;
        F& ref = (z *= y);
        OP_SAME(c, F, z, e.v, "x *= y", a, b);
        MC_CHECK(c, &ref == &z, "x *= y does not return x");
        if(a == b)
        {
            F w = x;
            w *= w;
            OP_SAME(c, F, w, e.v, "x *= x", a, a);
        }
    }
    MC_CHECK(c, val(x) == a && val(y) == b, "an operand of * changed: %s %s", SH(F, a), SH(F, b));
#elif PROP == 3
    if(b != 0)
    {
        const Expect e = model_div<F>(a, b);
        if(e.defined)
        {
            any = true;
            OP_SAME(c, F, x / y, e.v, "x / y", a, b);
            F z = x;
            F& ref = (z /= y);
            OP_SAME(c, F, z, e.v, "x /= y", a, b);
            MC_CHECK(c, &ref == &z, "x /= y does not return x");
            OP_SAME(c, F, x.divide(y), e.v, "x.divide(y)", a, b);
            F w = x;
            F& ref2 = w.divide_by(y);
            OP_SAME(c, F, w, e.v, "x.divide_by(y)", a, b);
            MC_CHECK(c, &ref2 == &w, "x.divide_by(y) does not return x");
            if(a == b)
            {
                F s = x;
                s /= s;
                OP_SAME(c, F, s, e.v, "x /= x", a, a);
                F t = x;
                t.divide_by(t);
                OP_SAME(c, F, t, e.v, "x.divide_by(x)", a, a);
            }
        }
    }
    else
    {
        any = true;
        bool thrown = false;
        try { (void)x.divide(y); }
        catch(const eirin::divide_by_zero&) { thrown = true; }
        MC_CHECK(c, thrown, "divide by zero did not throw divide_by_zero: %s", SH(F, a));
        F w = x;
        thrown = false;
        try { (void)w.divide_by(y); }
        catch(const eirin::divide_by_zero&) { thrown = true; }
        MC_CHECK(c, thrown, "divide_by zero did not throw divide_by_zero: %s", SH(F, a));
        MC_CHECK(c, val(w) == a, "a failed divide_by changed its operand: %s", SH(F, a));
    }
    MC_CHECK(c, val(x) == a && val(y) == b, "an operand of / changed: %s %s", SH(F, a), SH(F, b));
#elif PROP == 4
    if(b != 0)
    {
        any = true;
        const i128 r = a % b;
        OP_SAME(c, F, x % y, r, "x % y", a, b);
        F z = x;
        F& ref = (z %= y);
        OP_SAME(c, F, z, r, "x %= y", a, b);
        MC_CHECK(c, &ref == &z, "x %%= y does not return x");
        if(a == b)
        {
            F w = x;
            w %= w;
            OP_SAME(c, F, w, i128(0), "x %= x", a, a);
        }
        i128 m = r;
        if(m != 0 && ((m < 0) != (b < 0))) m += b;
        OP_SAME(c, F, eirin::fmod(x, y), m, "fmod(x, y)", a, b);
    }
    MC_CHECK(c, val(x) == a && val(y) == b, "an operand of %% changed: %s %s", SH(F, a), SH(F, b));
#elif PROP == 5
    any = true;
    MC_CHECK(c, (x == y) == (a == b), "== is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, (x != y) == (a != b), "!= is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, (x < y) == (a < b), "< is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, (x > y) == (a > b), "> is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, (x <= y) == (a <= b), "<= is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, (x >= y) == (a >= b), ">= is wrong for %s %s", SH(F, a), SH(F, b));
    const auto o = x <=> y;
    MC_CHECK(c, (o < 0) == (a < b) && (o > 0) == (a > b) && (o == 0) == (a == b), "<=> is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, val(eirin::min(x, y)) == std::min(a, b), "min is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, val(eirin::max(x, y)) == std::max(a, b), "max is wrong for %s %s", SH(F, a), SH(F, b));
    const i128 eps = ((i128(5) << Fm<F>::frac) + (Fm<F>::rounding ? 32768 : 0)) >> 16, d = a - b;
    MC_CHECK(c, val(F::nearly_compare_epsilon()) == eps, "the tolerance of %s is raw %s, expected %s", Fm<F>::name().c_str(), str(val(F::nearly_compare_epsilon())).c_str(), str(eps).c_str());
    const bool gt = d > eps, lt = -d > eps;
    MC_CHECK(c, x.nearly_eq(y) == (!gt && !lt), "nearly_eq is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, x.nearly_ne(y) == (gt || lt), "nearly_ne is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, x.nearly_gt(y) == gt, "nearly_gt is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, x.nearly_lt(y) == lt, "nearly_lt is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, x.nearly_gt_eq(y) == !lt, "nearly_gt_eq is wrong for %s %s", SH(F, a), SH(F, b));
    MC_CHECK(c, x.nearly_lt_eq(y) == !gt, "nearly_lt_eq is wrong for %s %s", SH(F, a), SH(F, b));
    if(a == b)
    {
        eirin::fixed_hash<F> h1, h2;
        MC_CHECK(c, h1(x) == h2(y) && h1(x) == h1(y), "equal values hash differently: %s", SH(F, a));
        // whatever the stack contains
        paint(0x00);
        const size_t k1 = hash_of<F>(x);
        paint(0xa5);
        const size_t k2 = hash_of<F>(y);
        MC_CHECK(c, k1 == k2 && k1 == h1(x), "equal values hash differently: %s", SH(F, a));
    }
#endif
    if(any) ++c.valid;
    if(c.want) c.note("%s with %s", SH(F, a), SH(F, b));
}

// a single value
template <class F>
static void unary_body(i128 a, mc::Ctx& c)
{
    const F x = raw<F>(a);
    bool any = false;
#if PROP == 1
    if(Fm<F>::is_signed && Fm<F>::fits(-a)) { any = true; OP_SAME(c, F, -x, -a, "-x", a, a); }
    // (a format without integer bits cannot represent the step 1)
    if(Fm<F>::fits(Fm<F>::one) && Fm<F>::fits(a + Fm<F>::one))
    {
        any = true;
        F z = x, w = x;
        OP_SAME(c, F, ++z, a + Fm<F>::one, "++x", a, a);
        OP_SAME(c, F, z, a + Fm<F>::one, "x after ++x", a, a);
        OP_SAME(c, F, w++, a, "x++", a, a);
        OP_SAME(c, F, w, a + Fm<F>::one, "x after x++", a, a);
    }
    if(Fm<F>::fits(Fm<F>::one) && Fm<F>::fits(a - Fm<F>::one))
    {
        any = true;
        F z = x, w = x;
        OP_SAME(c, F, --z, a - Fm<F>::one, "--x", a, a);
        OP_SAME(c, F, z, a - Fm<F>::one, "x after --x", a, a);
        OP_SAME(c, F, w--, a, "x--", a, a);
        OP_SAME(c, F, w, a - Fm<F>::one, "x after x--", a, a);
    }
#elif PROP == 4
    any = true;
    const i128 fl = floor_div(a, Fm<F>::one) * Fm<F>::one;
    F ip = raw<F>(0);
    const F fp = eirin::modf(x, ip);
    OP_SAME(c, F, ip, fl, "integral part of modf", a, a);
    OP_SAME(c, F, fp, a - fl, "fraction of modf", a, a);
#endif
    MC_CHECK(c, val(x) == a, "an operand changed: %s", SH(F, a));
    if(any) ++c.valid;
    if(c.want) c.note("%s alone", SH(F, a));
}

// ---- a fixed number with an integer of every integral type -------------------------------------
template <class J>
static std::vector<i128> ints(int w)
{
    constexpr bool s = J(-1) < J(0);
    const int bits = std::is_same_v<J, bool> ? 1 : int(sizeof(J)) * 8;
    const i128 lo = s ? -(i128(1) << (bits - 1)) : 0, hi = s ? (i128(1) << (bits - 1)) - 1 : (i128(1) << bits) - 1;
    std::vector<i128> v;
    naf_rec(v, bits, w, 0, 0, lo, hi);
    for(i128 k = -20; k <= 20; ++k)
        if(k >= lo && k <= hi) v.push_back(k);
    v.push_back(lo);
    v.push_back(hi);
    std::sort(v.begin(), v.end(), [](i128 a, i128 b) { i128 x = a < 0 ? -a : a, y = b < 0 ? -b : b; return x != y ? x < y : a > b; });
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}

#define MIX(c, F, expr, want, what)                                                                             \
    do {                                                                                                        \
        const i128 got_ = val(expr);                                                                            \
        MC_CHECK(c, got_ == (want), "%s with a %zu-byte %s integer: x = %s, k = %s gave raw %s, expected raw %s", what, sizeof(J), J(-1) < J(0) ? "signed" : "unsigned", SH(F, a), str(kv).c_str(), str(got_).c_str(), str(want).c_str()); \
    } while(0)

template <class F, class J>
static void mixed_body(i128 a, i128 kv, mc::Ctx& c)
{
    const F x = raw<F>(a);
    const J k = static_cast<J>(kv);
    const i128 one = Fm<F>::one;
    // |k| * one could leave 127 bits only for 64-bit k and f = 63
    const bool kfits = kv >= floor_div(Fm<F>::lo, one) && kv <= floor_div(Fm<F>::hi, one);
    const i128 kr = kfits ? kv * one : 0;
    bool any = false;
#if PROP == 1
    if(kfits)
    {
        if(Fm<F>::fits(a + kr))
        {
            any = true;
            MIX(c, F, x + k, a + kr, "x + k");
            MIX(c, F, k + x, a + kr, "k + x");
            F z = x;
            F& ref = (z += k);
            MIX(c, F, z, a + kr, "x += k");
            MC_CHECK(c, &ref == &z, "x += k does not return x");
        }
        if(Fm<F>::fits(a - kr))
        {
            any = true;
            MIX(c, F, x - k, a - kr, "x - k");
            F z = x;
            F& ref = (z -= k);
            MIX(c, F, z, a - kr, "x -= k");
            MC_CHECK(c, &ref == &z, "x -= k does not return x");
        }
        if(Fm<F>::fits(kr - a))
        {
            any = true;
            MIX(c, F, k - x, kr - a, "k - x");
        }
    }
#elif PROP == 2
    // exact product; overflow of i128 is impossible for 64 x 64 bits except u64 * u64
    bool ok;
    i128 p = 0;
    if(a != 0 && kv != 0 && (mc::u128(a < 0 ? -a : a) > mc::u128(Fm<F>::hi) + 1 - (Fm<F>::is_signed ? 0 : 1) || mc::u128(kv < 0 ? -kv : kv) > (mc::u128(1) << 65) / mc::u128(a < 0 ? -a : a))) ok = false;
    else { p = a * kv; ok = Fm<F>::fits(p); }
    if(ok)
    {
        any = true;
        MIX(c, F, x * k, p, "x * k");
        MIX(c, F, k * x, p, "k * x");
        F z = x;
        F& ref = (z *= k);
        MIX(c, F, z, p, "x *= k");
        MC_CHECK(c, &ref == &z, "x *= k does not return x");
    }
#elif PROP == 3
    if(kv == 0)
    {
        any = true;
        bool thrown = false;
        try { (void)x.divide(k); }
        catch(const eirin::divide_by_zero&) { thrown = true; }
        MC_CHECK(c, thrown, "divide by integer zero did not throw divide_by_zero: %s", SH(F, a));
        F w = x;
        thrown = false;
        try { (void)w.divide_by(k); }
        catch(const eirin::divide_by_zero&) { thrown = true; }
        MC_CHECK(c, thrown, "divide_by integer zero did not throw divide_by_zero: %s", SH(F, a));
        MC_CHECK(c, val(w) == a, "a failed divide_by changed its operand: %s", SH(F, a));
    }
    else if((Fm<F>::is_signed || kv > 0) && Fm<F>::fits(a / kv))
    {
        any = true;
        const i128 q = a / kv;
        MIX(c, F, x / k, q, "x / k");
        F z = x;
        F& ref = (z /= k);
        MIX(c, F, z, q, "x /= k");
        MC_CHECK(c, &ref == &z, "x /= k does not return x");
        MIX(c, F, x.divide(k), q, "x.divide(k)");
        F w = x;
        F& ref2 = w.divide_by(k);
        MIX(c, F, w, q, "x.divide_by(k)");
        MC_CHECK(c, &ref2 == &w, "x.divide_by(k) does not return x");
    }
    if(a != 0 && kfits)
    {
        const Expect e = model_div<F>(kr, a);
        if(e.defined)
        {
            any = true;
            MIX(c, F, k / x, e.v, "k / x");
        }
    }
#elif PROP == 4
    if(kfits)
    {
        if(kr != 0)
        {
            any = true;
            MIX(c, F, x % k, a % kr, "x % k");
        }
        if(a != 0)
        {
            any = true;
            MIX(c, F, k % x, kr % a, "k % x");
        }
    }
#endif
    MC_CHECK(c, val(x) == a, "an operand changed: %s", SH(F, a));
    if(any) ++c.valid;
    if(c.want) c.note("%s with the integer %s of %zu bytes", SH(F, a), str(kv).c_str(), sizeof(J));
}

template <class F, class J>
static void mixed(mc::Run& run, const std::vector<i128>& A, const char* jn)
{
    const auto K = ints<J>(run.thorough ? 3 : 2);
    run.space("mixed " + Fm<F>::name() + " " + jn, uint64_t(A.size()) * K.size(), [&](uint64_t i, mc::Ctx& c) { mixed_body<F, J>(A[i % A.size()], K[i / A.size()], c); });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, "C0" STR(PROP));
#if PART >= 4
    Formats::each([&]<class F>() {
        const std::string n = Fm<F>::name();
        auto A = naf<F>(run.thorough ? 2 : 1, {3 * Fm<F>::one, Fm<F>::one / 3, -Fm<F>::one / 3, Fm<F>::one / 10, 10 * Fm<F>::one, -10 * Fm<F>::one});
        for(i128 x : scaled<F>(run.thorough ? 9 : 3)) A.push_back(x);
        run.space("pairs " + n, uint64_t(A.size()) * A.size(), [&](uint64_t i, mc::Ctx& c) { pair_body<F>(A[i % A.size()], A[i / A.size()], c); });
        if(PROP == 1 || PROP == 4) run.space("unary " + n, A.size(), [&](uint64_t i, mc::Ctx& c) { unary_body<F>(A[i], c); });
        if(PROP <= 4) mixed<F, int>(run, naf<F>(1), "int");
    });
    return run.finish();
#else
    Formats::each([&]<class F>() {
        const std::string n = Fm<F>::name();
        const auto A = pair_alphabet<F>(run);
        if(Fm<F>::bits > 16)
        {
            const auto S = scaled<F>(run.thorough ? 200 : Fm<F>::bits == 32 ? 64 : 36);
            run.space("pairs with dense digits " + n, uint64_t(S.size()) * S.size(), [&](uint64_t i, mc::Ctx& c) { pair_body<F>(S[i % S.size()], S[i / S.size()], c); });
        }
        if(Fm<F>::bits == 16)
        {
            // one operand complete; the other complete in the thorough tier
            const auto all = complete<F>();
            const bool both = (Fm<F>::frac == 8 || Fm<F>::frac == 15) && sizeof(typename Fm<F>::inter) == 4 && (run.thorough || (Fm<F>::frac == 8 && Fm<F>::is_signed && !Fm<F>::rounding));
            const auto B = both ? complete<F>() : naf<F>(2);
            run.space("pairs " + n, uint64_t(all.size()) * B.size(), [&](uint64_t i, mc::Ctx& c) { pair_body<F>(all[i % all.size()], B[i / all.size()], c); });
            if(!both) run.space("swapped pairs " + n, uint64_t(all.size()) * B.size(), [&](uint64_t i, mc::Ctx& c) { pair_body<F>(B[i / all.size()], all[i % all.size()], c); });
        }
        else
        {
            const auto B = run.thorough && Fm<F>::bits > 16 ? naf<F>(2) : A;
            run.space("pairs " + n, uint64_t(A.size()) * B.size(), [&](uint64_t i, mc::Ctx& c) { pair_body<F>(A[i % A.size()], B[i / A.size()], c); });
            if(run.thorough && Fm<F>::bits > 16)
                run.space("swapped pairs " + n, uint64_t(A.size()) * B.size(), [&](uint64_t i, mc::Ctx& c) { pair_body<F>(B[i / A.size()], A[i % A.size()], c); });
            if constexpr(std::is_same_v<F, i32<16>>)
            {
                const auto T = naf<F>(3);
                run.space("weight 3 pairs " + n, uint64_t(T.size()) * T.size(), [&](uint64_t i, mc::Ctx& c) { pair_body<F>(T[i % T.size()], T[i / T.size()], c); });
            }
            if constexpr(std::is_same_v<F, i64<32>>)
            {
                const auto T = naf<F>(3), S = naf<F>(1, {Fm<F>::one / 3, Fm<F>::one * 10, -Fm<F>::one / 10});
                run.space("weight 3 and 1 " + n, uint64_t(T.size()) * S.size(), [&](uint64_t i, mc::Ctx& c) { pair_body<F>(T[i % T.size()], S[i / T.size()], c); });
                run.space("weight 1 and 3 " + n, uint64_t(T.size()) * S.size(), [&](uint64_t i, mc::Ctx& c) { pair_body<F>(S[i / T.size()], T[i % T.size()], c); });
            }
        }
        if(PROP == 1 || PROP == 4)
        {
            const auto U = Fm<F>::bits <= 16 ? complete<F>() : naf<F>(run.thorough ? 4 : 3);
            run.space("unary " + n, U.size(), [&](uint64_t i, mc::Ctx& c) { unary_body<F>(U[i], c); });
        }
        if(PROP <= 4)
        {
            const auto M = Fm<F>::bits == 8 ? complete<F>() : naf<F>(run.thorough ? 2 : (Fm<F>::bits == 64 ? 1 : 2));
            mixed<F, int>(run, M, "int");
            mixed<F, unsigned>(run, M, "unsigned");
            mixed<F, long>(run, M, "long");
            mixed<F, unsigned long>(run, M, "unsigned long");
            mixed<F, long long>(run, M, "long long");
            mixed<F, unsigned long long>(run, M, "unsigned long long");
            mixed<F, short>(run, M, "short");
            mixed<F, unsigned short>(run, M, "unsigned short");
            mixed<F, signed char>(run, M, "signed char");
            mixed<F, unsigned char>(run, M, "unsigned char");
            mixed<F, char>(run, M, "char");
            mixed<F, bool>(run, M, "bool");
        }
    });
    return run.finish();
#endif
}
