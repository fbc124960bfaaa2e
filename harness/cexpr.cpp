// C24: calls evaluated by the compiler as constant expressions, compared with the same calls at run
// time.  -DPART selects the format; every table below is computed during compilation.
#include "fmt.hpp"
#include <eirin/eirin.hpp>
#include <eirin/io/parse.hpp>
#include <eirin/numbers.hpp>
#include <eirin/ext/cordic.hpp>
#include <eirin/ext/builtin_ints.hpp>
#include <eirin/detail/util.hpp>
#include <array>
#include <string_view>

#ifndef PART
#    define PART 0
#endif
using f32 = eirin::fixed32;
using f64 = eirin::fixed64;
#if PART == 0
using F = f32;
#elif PART == 1
using F = f64;
#elif PART == 2
using F = i32<16, true>;
#elif PART == 3
using F = i32<20>;
#elif PART == 4
using F = i16<8>;
#elif PART == 5
using F = i64<48>;
#else
using F = u32<16>;
#endif
using M = Fm<F>;
using T = M::type;
static constexpr bool is_signed = M::is_signed;
static constexpr double ONE = (double)M::one, TOP = (double)M::hi / ONE;
static constexpr int INT_BITS = M::bits - is_signed - M::frac;

// ---- arguments -----------------------------------------------------------------------------
template <int N>
struct Args
{
    std::array<T, N> v{};
    int n = 0;
    constexpr void add(i128 x)
    {
        if(n >= N || x < M::lo || x > M::hi) return;
        for(int k = 0; k < n; ++k)
            if(v[k] == (T)x) return;
        v[n++] = (T)x;
    }
};
template <int N>
static constexpr Args<N> arguments(int lattice)
{
    Args<N> a;
    a.add(0);
    for(int k = 0; k < M::bits; ++k)
        for(int s = 0; s < (is_signed ? 2 : 1); ++s) a.add(s ? -(i128(1) << k) : i128(1) << k);
    a.add(M::hi);
    a.add(M::lo);
    for(int k = 1; k <= lattice; ++k) // [-1, 1], [-8, 8], the whole range
    {
        a.add((M::one * 2 * k / (lattice + 1) - (is_signed ? M::one : 0)) + (k * 7919) % (M::one >> 6));
        a.add((M::one * 16 * k / (lattice + 1) - (is_signed ? M::one * 8 : 0)) + (k * 104729) % (M::one >> 3));
        a.add(M::lo + ((i128(1) << M::bits) / (lattice + 1)) * k + (k * 1299709));
    }
    for(int k = M::frac - 2; k < M::frac + 3; ++k)
        for(int d = -1; d <= 1; ++d)
        {
            a.add((i128(1) << k) + d);
            if(is_signed) a.add(-(i128(1) << k) + d);
        }
    return a;
}
static constexpr int N1 = 320, N2 = 28;
static constexpr auto A1 = arguments<N1>(60);
static constexpr auto A2 = arguments<N2 * 4>(4);
static constexpr double num(T a) { return (double)a / ONE; }
static constexpr double mag(double v) { return v < 0 ? -v : v; }

// ---- functions of one argument ---------------------------------------------------------------
template <class R>
static constexpr uint64_t u(R x)
{
    if constexpr(eirin::is_fixed_point_v<R>) return (uint64_t)x.internal_value();
    else return (uint64_t)x;
}
struct Unary { const char* name; const uint64_t* folded; uint64_t (*call)(T); bool (*in)(T); };
template <class Fn>
struct Folded
{
    static constexpr std::array<uint64_t, N1> value = [] {
        std::array<uint64_t, N1> a{};
        for(int k = 0; k < A1.n; ++k)
            if(Fn::in(A1.v[k])) a[k] = Fn::call(A1.v[k]);
        return a;
    }();
};
static std::vector<Unary> unary;
#define U(DOMAIN, CALL) { \
    struct Fn { \
        static constexpr bool in(T a) { const double v = num(a); (void)v; return DOMAIN; } \
        static constexpr uint64_t call(T a) { const F x = F::from_internal_value(a); (void)x; const double v = num(a); (void)v; return u(CALL); } \
    }; \
    unary.push_back({#CALL, Folded<Fn>::value.data(), Fn::call, Fn::in}); }
static void ones()
{
    U(a != M::lo || !is_signed, is_signed ? -x : x)
    U(true, eirin::floor(x)) U(true, eirin::trunc(x)) U(v < TOP - 1, eirin::ceil(x)) U(mag(v) < TOP - 1, eirin::round(x)) U(a != M::lo || !is_signed, eirin::abs(x))
    U(a != M::lo, ([](F y) { F i(0); const F r = eirin::modf(y, i); return u(r) * 31 + u(i); }(x)))
    U(a != M::lo, eirin::fmod(x, F(0.75)))
    U(true, eirin::sqrt(x)) U(true, eirin::cbrt(x))
    U(mag(v) < TOP / 2, eirin::min(x, F(0.5))) U(true, eirin::max(x, F(0.5)))
    U(true, (uint64_t)signbit(x)) U(true, (uint64_t)x.nearly_eq(F(0.5)))
    U(true, x.integral_part()) U(true, x.fractional_part())
    U(v > 0, eirin::log2(x)) U(v > 0, eirin::log(x)) U(v > 0, eirin::log10(x))
    U(mag(v) < 0.69 * (INT_BITS - 1), eirin::exp(x))
    U(mag(v) < TOP / 57.4 - 1, eirin::degrees(x)) U(true, eirin::radians(x))
    U(v * v < TOP - 1, x * x) U(mag(v * v * v * v * v) < TOP - 1, eirin::pow(x, 5)) U(mag(v) > 0.25 && mag(v) < 4, eirin::pow(x, -2)) U(v > 0 && v < 2, eirin::pow(x, F(0.75)))
    U(v * v < TOP / 2 - 2, eirin::hypot(x, F(1))) U(v * v < TOP / 2 - 4, eirin::hypot(x, F(1), F(0.5)))
    U(true, x / 3) U(mag(v) * 3 < TOP - 1, x * 3) U(mag(v) * 3 < TOP - 1, 3 * x) U(v < TOP - 2, x + 2) U(v > 2 - TOP * is_signed, x - 2)
    U(mag(v) > 1.01 / (TOP - 1), 1 / x) U(mag(v) > 3.1 / (TOP - 1), F(3) / x) U(mag(v) > 3.1 / (TOP - 1), F(3).divide(x))
    U(true, (uint64_t)(int64_t)(int)x) U(true, (uint64_t)(int64_t)(x)) U(v < 32000, (uint64_t)(int64_t)((double)x * 4096)) U(v < 32000, (uint64_t)(int64_t)((float)x * 4096)) U(v < 32000, (uint64_t)(int64_t)((long double)x * 4096))
    U(mag(v) < 32000, f32(x)) U(true, f64(x)) U(mag(v) < 32000 && (is_signed || v > 0), (i32<12, true>(x)))
    U(mag(v) < TOP - 1, F((double)x)) U(mag(v) < TOP - 1, F((float)(v / 2))) U(mag(v) < TOP - 1, F((long double)(v / 3))) U(mag(v) < 30000 && mag(v) < TOP - 1, F((int)v))
    U(v < TOP - 4 && v > 4 - TOP * is_signed, ([](F y) { F z = y; z += 2; z -= F(1); z -= 1; return z; }(x)))
    U(mag(v) < TOP / 8, ([](F y) { F z = y; z *= 2; z *= F(1.5); z /= 3; z /= F(0.75); z %= F(5); return z; }(x)))
    U(true, (uint64_t)(x < F(0.5)) | (uint64_t)(x > F(0.5)) << 1 | (uint64_t)(x == F(0.5)) << 2 | (uint64_t)(x <= F(2)) << 3 | (uint64_t)(x >= F(2)) << 4 | (uint64_t)(x != F(2)) << 5)
    U(true, ([](F y) { char b[160] = {}; char* e = F::copy_as_chars_to(y, b); uint64_t h = e - b; for(char* p = b; p != e; ++p) h = h * 31 + (unsigned char)*p; return h; }(x)))
    U(true, ([](F y) { char b[160] = {}; char* e = F::copy_as_chars_to(y, b, 16, true); uint64_t h = e - b; for(char* p = b; p != e; ++p) h = h * 31 + (unsigned char)*p; return h; }(x)))
    U(true, ([](F y) { char b[160] = {}; char* e = F::copy_as_chars_to(y, b, 2); uint64_t h = e - b; for(char* p = b; p != e; ++p) h = h * 31 + (unsigned char)*p; F z(0); const bool ok = eirin::fixed_from_cstring("12.75", 5, z); return h * 31 + ok + u(z); }(x)))
    U(true, ([](F y) { char b[160] = {}; char* e = F::copy_as_chars_to(y, b); F z(0); const bool ok = eirin::fixed_from_cstring(b, e - b, z); return u(z) * 2 + ok; }(x)))
#if PART < 6
    U(true, eirin::sin(x)) U(mag(v) < TOP - 8, eirin::cos(x)) U(mag(v) < 1.4, eirin::tan(x))
    U(true, eirin::atan(x)) U(mag(v) <= 1, eirin::asin(x)) U(mag(v) <= 1, eirin::acos(x))
#endif
#if PART < 2
    U(true, eirin::cordic_sine(x))
#endif
#if PART == 1
    U(true, (uint64_t)(int64_t)(eirin::ext::int128(int64_t(a < 0 ? -1 : 0), int64_t(a)) + eirin::ext::int128(int64_t(-1), int64_t(-77))))
    U(v > 0 && v < 30000, (uint64_t)eirin::util::eval_value<int64_t>(v, 40))
#endif
}

// ---- functions of two arguments --------------------------------------------------------------
struct Binary { const char* name; const uint64_t* folded; uint64_t (*call)(T, T); bool (*in)(T, T); };
static constexpr int NB = A2.n;
template <class Fn>
struct Folded2
{
    static constexpr std::array<uint64_t, NB * NB> value = [] {
        std::array<uint64_t, NB * NB> a{};
        for(int k = 0; k < NB * NB; ++k)
            if(Fn::in(A2.v[k % NB], A2.v[k / NB])) a[k] = Fn::call(A2.v[k % NB], A2.v[k / NB]);
        return a;
    }();
};
static std::vector<Binary> binary;
#define B(DOMAIN, CALL) { \
    struct Fn { \
        static constexpr bool in(T a, T b) { const double v = num(a), w = num(b); (void)v; (void)w; return DOMAIN; } \
        static constexpr uint64_t call(T a, T b) { const F x = F::from_internal_value(a), y = F::from_internal_value(b); return u(CALL); } \
    }; \
    binary.push_back({#CALL, Folded2<Fn>::value.data(), Fn::call, Fn::in}); }
static constexpr bool fits(double v) { return v < TOP - 1 && v > (is_signed ? 1 - TOP : -1 / ONE); }
static void twos()
{
    B(fits(v + w), x + y) B(fits(v - w), x - y) B(fits(v * w), x * y) B(b != 0 && fits(v / w), x / y) B(b != 0 && fits(v / w), x.divide(y)) B(b != 0, x % y) B(b != 0, eirin::fmod(x, y))
    B(true, (uint64_t)(x < y) | (uint64_t)(x == y) << 1 | (uint64_t)(x <= y) << 2 | (uint64_t)x.nearly_eq(y) << 3)
    B(fits(v * v + w * w), eirin::hypot(x, y)) B(true, eirin::min(x, y)) B(true, eirin::max(x, y))
    B(v > 0.3 && v < 2 && mag(w) < 2, eirin::pow(x, y))
}

// ---- text ------------------------------------------------------------------------------------
static constexpr std::string_view TEXT[] = {"0", "-0", "1", "7.5", "-7.5", "0.1", "0.999999999999", "127.996", "-128", "128", "32767.9999", "32768", "-32768", "-32768.5", "2147483647.9", "-2147483648", "99999999999999999999", "1.2.3", "12x", "x", "-x", "1e5", " 1", "1 ", "3.", ".5", "-.25", "00012.50", "0.00000000000000000000000000001", "4294967295.99", "65535.75", "--1", "+1"};
static constexpr size_t NT = sizeof TEXT / sizeof TEXT[0];
static constexpr uint64_t parsed(std::string_view t)
{
    F z = F::from_internal_value(5);
    const bool ok = eirin::fixed_from_cstring(t.data(), t.size(), z);
    return u(z) * 2 + ok;
}
static constexpr auto PARSED = [] {
    std::array<uint64_t, NT> a{};
    for(size_t k = 0; k < NT; ++k) a[k] = parsed(TEXT[k]);
    return a;
}();

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, "C24");
    ones();
    twos();
    const std::string in = " in " + M::name();
    run.space("one argument, constant and at run time" + in, unary.size() * A1.n, [&](uint64_t i, mc::Ctx& c) {
        const Unary& f = unary[i / A1.n];
        const int k = int(i % A1.n);
        if(!f.in(A1.v[k])) return;
        ++c.valid;
        volatile T a = A1.v[k];
        const uint64_t got = f.call(a);
        MC_CHECK(c, got == f.folded[k], "%s with x = %s: %llx as a constant expression, %llx at run time", f.name, SH(F, i128(a)), (unsigned long long)f.folded[k], (unsigned long long)got);
        if(c.want) c.note("%s, x = %s", f.name, SH(F, i128(a)));
    });
    run.space("two arguments, constant and at run time" + in, binary.size() * NB * NB, [&](uint64_t i, mc::Ctx& c) {
        const Binary& f = binary[i / (NB * NB)];
        const int k = int(i % (NB * NB));
        if(!f.in(A2.v[k % NB], A2.v[k / NB])) return;
        ++c.valid;
        volatile T a = A2.v[k % NB], b = A2.v[k / NB];
        const uint64_t got = f.call(a, b);
        MC_CHECK(c, got == f.folded[k], "%s with x = %s, y = %s: %llx as a constant expression, %llx at run time", f.name, SH(F, i128(a)), SH(F, i128(b)), (unsigned long long)f.folded[k], (unsigned long long)got);
        if(c.want) c.note("%s, x = %s, y = %s", f.name, SH(F, i128(a)), SH(F, i128(b)));
    });
    run.space("texts, constant and at run time" + in, NT, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const std::string t(TEXT[i]);
        const uint64_t got = parsed(t);
        MC_CHECK(c, got == PARSED[i], "\"%s\" is parsed to %llx in a constant expression, to %llx at run time", t.c_str(), (unsigned long long)PARSED[i], (unsigned long long)got);
        if(c.want) c.note("%s", t.c_str());
    });
    return run.finish();
}
