// C28: every call ends, whatever its arguments: it returns or throws a std::domain_error (or, for literals
// of text that is no number, a std::invalid_argument), and touches
// no memory but its own (built with the address sanitizer, which ends the program otherwise).
// Arguments outside the domain of a function and results that do not fit are included.
#include "every.hpp"
#include <eirin/eirin.hpp>
#include <eirin/io/format.hpp>
#include <eirin/io/parse.hpp>
#include <eirin/numbers.hpp>
#include <eirin/random.hpp>
#include <eirin/ext/builtin_ints.hpp>
#include <eirin/ext/cordic.hpp>
#include <eirin/detail/util.hpp>
#include <format>
#include <memory>
#include <sstream>

#ifndef PART
#    define PART 0
#endif
// some of the rounding formats (the others are left to the properties about arithmetic)
template <class B> static std::vector<Job> rounding(B)
{
    std::vector<Job> v;
    const auto add = [&]<class F>() { v.push_back({Fm<F>::name(), Fm<F>::bits, Fm<F>::frac, Fm<F>::lo, Fm<F>::hi, job<F, B>}); };
    List<i8<1, true>, i8<6, true>, i16<8, true>, i32<1, true>, i32<16, true>, i32<20, true>, i32<30, true>, i64<1, true>, i64<32, true>, i64<62, true>, u8<4, true>, u32<16, true>, u64<32, true>>::each(add);
    return v;
}
template <class F> static constexpr int ints = Fm<F>::bits - Fm<F>::is_signed - Fm<F>::frac;
static volatile uint64_t sink;
template <class T> static void use(const T& v)
{
    if constexpr(requires { v.internal_value(); }) sink = (uint64_t)v.internal_value();
    else if constexpr(std::is_arithmetic_v<T>) { volatile T w = v; (void)w; }
    else sink = v.size();
}
#define CALL(...) try { ++c.trans; use(__VA_ARGS__); } catch(const std::domain_error&) {} catch(const std::invalid_argument&) {} \
    catch(const std::exception& e) { c.fail("%s of %s throws \"%s\"", #__VA_ARGS__, what(), e.what()); return; } \
    catch(...) { c.fail("%s of %s throws something", #__VA_ARGS__, what()); return; }
// calls that never throw
#define SAFE(...) ++c.trans; use(__VA_ARGS__);

// ---- functions of one number ----------------------------------------------------------------
#if PART == 0
struct Unary
{
    template <class F> void operator()(i128 a, mc::Ctx& c) const
    {
        using namespace eirin;
        const F x = raw<F>(a);
        const auto what = [&] { static std::string s; s = SH(F, a); return s.c_str(); };
        ++c.valid;
        SAFE(floor(x)) SAFE(ceil(x)) SAFE(trunc(x)) SAFE(round(x)) SAFE(abs(x)) CALL(sqrt(x))
        CALL(log(x)) CALL(log2(x)) CALL(log10(x))
        F ip; SAFE(modf(x, ip))
        if constexpr(ints<F> >= 2 && Fm<F>::is_signed) { SAFE(atan(x)) CALL(asin(x)) CALL(acos(x)) }
        if constexpr(ints<F> >= 4 && Fm<F>::is_signed) { SAFE(sin(x)) SAFE(cos(x)) CALL(tan(x)) }
        if constexpr(ints<F> >= 5) { SAFE(cbrt(x)) SAFE(exp(x)) }
        if constexpr(ints<F> >= 8) { SAFE(degrees(x)) SAFE(radians(x)) }
        for(int n : {0, 1, -1, 2, -2, 3, -7, 31, 64, -64, 1000, 2147483647, -2147483647 - 1}) { CALL(pow(x, n)) }
        for(long long n : {(long long)1 << 40, std::numeric_limits<long long>::max(), std::numeric_limits<long long>::min()}) { CALL(pow(x, n)) }
        for(unsigned n : {5u, 4294967295u}) { CALL(pow(x, n)) }
        for(int n : {-32768, -128, -1, 0, 127, 32767}) { CALL(pow(x, (short)n)) CALL(pow(x, (signed char)n)) CALL(pow(x, (unsigned char)n)) }
    }
};
struct Special
{
    template <class F> void operator()(i128 a, mc::Ctx& c) const
    {
        using namespace eirin;
        const F x = raw<F>(a);
        const auto what = [&] { static std::string s; s = SH(F, a); return s.c_str(); };
        ++c.valid;
        CALL(cordic_sine(x))
        if constexpr(std::is_same_v<F, fixed64>) { CALL(util::lut::lut_calc_sin(x)) CALL(util::lut::lut_calc_sin<64>(x)) }
        CALL(fixed_hash<F>()(x))
    }
};
#endif
// ---- functions of two numbers ---------------------------------------------------------------
#if PART == 1
struct Binary
{
    // the argument is the first operand; the second goes through all values with at most one digit, and their neighbours
    template <class F> void operator()(i128 a, mc::Ctx& c) const
    {
        using namespace eirin;
        using T = typename Fm<F>::type;
        static const auto V = [] {
            std::vector<i128> v;
            for(int k = 0; k < Fm<F>::bits; ++k)
                for(int d = -1; d <= 1; ++d)
                    for(int s = -1; s <= 1; s += 2)
                        if(const i128 w = s * ((i128(1) << k) + d); Fm<F>::fits(w)) v.push_back(w);
            v.push_back(Fm<F>::lo);
            std::sort(v.begin(), v.end());
            v.erase(std::unique(v.begin(), v.end()), v.end());
            return v;
        }();
        const F x = raw<F>(a);
        ++c.valid;
        for(i128 b : V)
        {
            const F y = raw<F>(b);
            const auto what = [&] { static std::string s; s = std::string(SH(F, a)) + ", " + SH(F, b); return s.c_str(); };
            SAFE(x + y) SAFE(x - y) SAFE(x * y) SAFE(x < y) SAFE(x == y) SAFE(x.nearly_eq(y)) CALL(x.divide(y)) SAFE(min(x, y)) SAFE(max(x, y))
            SAFE(hypot(x, y)) SAFE(x + T(b)) SAFE(x - T(b)) SAFE(x * T(b)) CALL(x.divide(T(b)))
            SAFE(hypot(x, y, x))
            if constexpr(ints<F> >= 5) { CALL(pow(x, y)) }
            if(b != 0) { SAFE(x / y) SAFE(x % y) SAFE(fmod(x, y)) SAFE(x / T(b)) SAFE(x / int8_t(T(b) & T(127) ? T(b) & T(127) : T(-1))) }
            if(a != 0) { SAFE(T(b) / x) }
            F z = x; SAFE(z += y) SAFE(z *= y) SAFE(z -= T(b)) CALL(z.divide_by(y)) SAFE(++z) SAFE(z--) SAFE(-z)
        }
    }
};
#endif
// ---- conversions, printing, formatting ------------------------------------------------------
#if PART == 2
struct Text
{
    template <class F> void operator()(i128 a, mc::Ctx& c) const
    {
        using namespace eirin;
        const F x = raw<F>(a);
        const auto what = [&] { static std::string s; s = SH(F, a); return s.c_str(); };
        ++c.valid;
        SAFE((int8_t)x) SAFE((uint8_t)x) SAFE((short)x) SAFE((unsigned)x) SAFE((int)x) SAFE((long long)x) SAFE((unsigned long long)x) SAFE((float)x) SAFE((double)x) SAFE((long double)x) SAFE((bool)x)
        SAFE(fixed32(x)) SAFE(fixed64(x)) SAFE(i8<4>(x)) SAFE(u8<7>(x)) SAFE(i16<8, true>(x)) SAFE(u64<32>(x)) SAFE(i64<63>(x)) SAFE(x.integral_part()) SAFE(x.fractional_part())
        for(int base : {2, 8, 10, 16}) { std::string s; CALL((F::copy_as_chars_to(x, std::back_inserter(s), base, base == 16), s)) }
        for(auto flags : {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::fmtflags()})
        {
            std::ostringstream s;
            s.flags(flags);
            s.width(9);
            CALL((s << x, s.str()))
        }
        CALL(std::format("{}", x)) CALL(std::format("{:x}", x)) CALL(std::format("{:#B}", x)) CALL(std::format("{:o}", x)) CALL(std::format("{:.3f}", x)) CALL(std::format("{:.99F}", x)) CALL(std::format("{:+030.0g}", x)) CALL(std::format("{:d}", x)) CALL(std::format("{:?}", x)) CALL(std::format(L"{:*^70}", x))
    }
};
// numbers of other types
template <class F> static void from(mc::Run& run)
{
    std::vector<double> d{0.0, -0.0, 0.1, -0.1, 1e300, -1e300, 5e-324, -5e-324, HUGE_VAL, -HUGE_VAL, std::nan(""), -std::nan("")};
    for(int e = -140; e <= 140; ++e)
        for(double m : {1.0, 1.5, 1.9999999999999998, 1.0000000000000002})
            for(int s = -1; s <= 1; s += 2) d.push_back(s * std::ldexp(m, e));
    run.space("numbers of other types to " + Fm<F>::name(), d.size(), [&](uint64_t i, mc::Ctx& c) {
        const double v = d[i];
        const auto what = [&] { static std::string s; s = std::to_string(v); return s.c_str(); };
        ++c.valid;
        CALL(F(v)) CALL(F(float(v))) CALL(F((long double)v)) CALL(F((long double)v * 1e3000L))
        const uint64_t n = [&] { uint64_t u; memcpy(&u, &v, 8); return u; }();
        CALL(F(n)) CALL(F((int64_t)n)) CALL(F((int)n)) CALL(F((unsigned)n)) CALL(F((short)n)) CALL(F((signed char)n))
    });
}
#endif
// ---- texts ----------------------------------------------------------------------------------
#if PART == 3
// the text lies at the end of a block of memory of just its size
template <class C> static void read_all(const std::basic_string<C>& t, mc::Ctx& c)
{
    using namespace eirin;
    const std::unique_ptr<C[]> b(new C[t.size()]);
    std::copy(t.begin(), t.end(), b.get());
    const C* const p = b.get();
    const size_t n = t.size();
    const auto what = [&] { static std::string s; s.clear(); for(C ch : t) { char h[16]; snprintf(h, sizeof h, ch > 32 && ch < 127 ? "%c" : "\\x%x", (unsigned)ch & 0xffffff); s += h; } return s.c_str(); };
    ++c.valid;
    if constexpr(std::is_same_v<C, char>)
    {
        const auto text = [&]<class F>(F x) { CALL(fixed_from_cstring(p, n, x)) };
        text(fixed32()); text(fixed64()); text(i8<7>()); text(u8<4>()); text(i16<8, true>()); text(u32<31>()); text(i64<63>()); text(u64<1>());
        if(c.failed) return;
        fixed32 f;
        CALL(f32_from_cstring(p, n, f))
        CALL(io::parse(std::string_view(p, n), f) - p) const std::string z(p, n); CALL(io::parse(z.c_str(), z.c_str() + n, f) - z.c_str())
        CALL(eirin::operator""_f32(p, n)) CALL(eirin::operator""_f64(p, n))
    }
    std::basic_istringstream<C> s(t);
    fixed64 g;
    CALL((s >> g, s.good()))
    s.clear();
    i8<4> h;
    CALL((s >> h, s.good()))
}
#endif

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, "C28");
    run.small_space = PART == 1 ? 64 : 1024;
#if PART == 0
    each_format(run, "functions of", every<1, true, false>(Unary()), 8, 512);
    each_format(run, "functions of", rounding(Unary()), 8, 512);
    for(const auto& j : {Job{"fixed32", 32, 16, Fm<eirin::fixed32>::lo, Fm<eirin::fixed32>::hi, job<eirin::fixed32, Special>}, Job{"fixed64", 64, 32, Fm<eirin::fixed64>::lo, Fm<eirin::fixed64>::hi, job<eirin::fixed64, Special>}})
    {
        const auto V = small(j, run.thorough, 16, 1 << 16, 3);
        run.space("cordic_sine, lut_calc_sin and hash of " + j.name, V.size(), [&](uint64_t i, mc::Ctx& c) { j.call(V[i], c); });
    }
#elif PART == 1
    each_format(run, "functions of two", every<1, true, false>(Binary()), 8, 16, 1);
    each_format(run, "functions of two", rounding(Binary()), 8, 16, 1);
#elif PART == 2
    each_format(run, "text and conversion of", every<0, true, false>(Text()), 8, 64, 1);
    each_format(run, "text and conversion of", rounding(Text()), 8, 64, 1);
    from<eirin::fixed32>(run); from<eirin::fixed64>(run); from<i8<4>>(run); from<u8<7>>(run); from<i16<8, true>>(run); from<u32<16>>(run); from<i64<63>>(run); from<u64<32>>(run); from<i64<1, true>>(run);
#else
    {
        const std::string A("0-.9+ ex\0\xff", 10);
        uint64_t total = 0, p = 1;
        const int L = run.thorough ? 8 : 6;
        for(int l = 0; l <= L; ++l) { total += p; p *= A.size(); }
        run.space("every text of up to " + std::to_string(L) + " characters", total, [&](uint64_t i, mc::Ctx& c) {
            std::string t;
            const uint64_t n = A.size();
            int len = 0;
            for(uint64_t k = 1; i >= k; k *= n, ++len) i -= k;
            for(; len > 0; --len, i /= n) t += A[i % n];
            read_all(t, c);
        });
    }
    {
        static const char* PIECE[] = {"0", "9", "1", "05", "184467440737095516"};
        static const char* HEAD[] = {"", "-", "0.", "-0.", "1.", "99999.", ".", "-.", " "};
        static const char* TAIL[] = {"", ".", "-", "x", "5", ".5"};
        run.space("long texts", 9 * 5 * 6 * 400, [&](uint64_t i, mc::Ctx& c) {
            std::string t = HEAD[i % 9], q = PIECE[i / 9 % 5];
            const size_t n = i / 9 / 5 / 6 + 1;
            std::string m;
            while(m.size() < n) m += q;
            t += m + TAIL[i / 45 % 6];
            read_all(t, c);
            read_all(std::wstring(t.begin(), t.end()), c);
        });
        run.space("every pair of bytes in a number", 65536 * 3, [&](uint64_t i, mc::Ctx& c) {
            const char a = (char)(i & 255), b = (char)(i >> 8 & 255);
            const std::string t = i >> 16 == 0 ? std::string{a, b} : i >> 16 == 1 ? std::string{'1', a, b, '5'} : std::string{'-', '2', '.', a, '5', b};
            read_all(t, c);
        });
    }
#endif
    return run.finish();
}
