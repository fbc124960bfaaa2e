// One call of every part of the library, as text: used for concurrent executions (C23) and call histories (C25).
#pragma once
#include <eirin/eirin.hpp>
#include <eirin/io/format.hpp>
#include <eirin/io/parse.hpp>
#include <eirin/random.hpp>
#include <eirin/numbers.hpp>
#include <eirin/ext/cordic.hpp>
#include <eirin/detail/util.hpp>
#include <eirin/ext/builtin_ints.hpp>
#include <array>
#ifdef __AVX2__
#    include <eirin/ext/simd_math.hpp>
#endif
#include <cstdio>
#include <format>
#include <sstream>
#include <string>

namespace ops
{
using f32 = eirin::fixed32;
using f64 = eirin::fixed64;
using r32 = eirin::fixed_num<int32_t, int64_t, 16, true>;
using q20 = eirin::fixed_num<int32_t, int64_t, 20, false>;
using s16 = eirin::fixed_num<int16_t, int32_t, 8, false>;
using u32 = eirin::fixed_num<uint32_t, uint64_t, 16, false>;

struct Out
{
    char b[1200];
    int n = 0;
    void add(long long v) { if(n < 1140) n += snprintf(b + n, sizeof b - n, "%llx ", v); }
    void add(const char* s, size_t k)
    {
        for(size_t i = 0; i < k && n < 1140; ++i) b[n++] = s[i];
        if(n < 1140) b[n++] = ' ';
        b[n] = 0;
    }
    void add(const std::string& s) { add(s.data(), s.size()); }
    template <class T, class I, unsigned f, bool r>
    void add(eirin::fixed_num<T, I, f, r> x) { add((long long)x.internal_value()); }
};
// argument number v (0..2) of a format
template <class F>
static inline F arg(int v, int k = 0)
{
    static constexpr double d[3][3] = {{0.7, 2.6875, 5.3}, {-1.25, 0.015625, 9.0}, {3.3, -0.6, 11.75}};
    return F(d[v][k]);
}
template <class Call>
static inline void guarded(Out& o, Call call)
{
    try { o.add(call()); }
    catch(const std::exception& e) { o.add(e.what(), strlen(e.what())); }
}

struct Op { const char* name; void (*run)(Out& o, int v); };
#define F_OP(NAME, ...) {NAME, [](Out& o, int v) { __VA_ARGS__ }}
static const Op all[] = {
    F_OP("cpu features",
#ifdef __AVX2__
        using S = eirin::simd::platform_support;
        o.add(v == 0 ? S::supports_avx2() : v == 1 ? S::supports_sse2() : S::supports_avx512_f()); o.add(S::supports_avx()); o.add(S::supports_sse4_2()); o.add(S::supports_avx512_dq());
#endif
        (void)v;),
    F_OP("simd reduce",
#ifdef __AVX2__
        auto r = eirin::simd::simd_reduce_angle({f64(100.5 + v), f64(-7.25), f64(3.0), f64(1e6)}); for(auto x : r) o.add(x);
        auto q = eirin::simd::simd_reduce_angle_2({f64(55.5 + v), f64(-77.25)}); for(auto x : q) o.add(x);
#endif
        (void)v;),
    F_OP("lut sin", o.add(eirin::util::lut::lut_calc_sin(arg<f64>(v))); o.add(eirin::util::lut::lut_calc_sin(arg<f64>(v, 1)));),
    F_OP("arithmetic f32", auto a = arg<f32>(v), b = arg<f32>(v, 1); o.add(a + b); o.add(a - b); o.add(a * b); o.add(a / b); o.add(a % b); o.add(a * 3); o.add(7 / b); o.add(-a); ++a; o.add(a); o.add(a < b); o.add(eirin::fmod(a, b));),
    F_OP("arithmetic f64", auto a = arg<f64>(v), b = arg<f64>(v, 1); o.add(a + b); o.add(a - b); o.add(a * b); o.add(a / b); o.add(a % b); o.add(a * 3); o.add(7 / b); o.add(a.divide(b));),
    F_OP("rounding formats", auto a = arg<r32>(v), b = arg<r32>(v, 1); o.add(a * b); o.add(a / b); auto c = arg<q20>(v); o.add(f32(c)); o.add(c * c); o.add(f64(c)); auto u = u32(2.5 + v); o.add(u * u); o.add(u / 3); o.add(eirin::sqrt(u)); auto s = arg<s16>(v); o.add(s * s); o.add(eirin::sqrt(eirin::abs(s)));),
    F_OP("divide by zero", auto a = arg<f32>(v); guarded(o, [&] { return a.divide(f32(0)); }); o.add(a);),
    F_OP("rounding functions", auto a = arg<f32>(v); o.add(eirin::floor(a)); o.add(eirin::ceil(a)); o.add(eirin::round(a)); o.add(eirin::trunc(a)); f32 ip; o.add(eirin::modf(a, ip)); o.add(ip); o.add(eirin::min(a, ip)); o.add(eirin::max(a, ip)); auto b = arg<f64>(v, 1); o.add(eirin::floor(b)); o.add(eirin::ceil(b)); o.add(eirin::round(b)); o.add(eirin::trunc(b)); f64 iq; o.add(eirin::modf(b, iq)); o.add(iq); o.add(eirin::abs(b)); o.add(eirin::fmod(b, arg<f64>(v, 2)));),
    F_OP("roots", o.add(eirin::sqrt(arg<f32>(v, 2))); o.add(eirin::sqrt(arg<f64>(v, 2))); o.add(eirin::cbrt(arg<f32>(v, 2))); o.add(eirin::cbrt(arg<f64>(v))); o.add(eirin::hypot(arg<f32>(v), arg<f32>(v, 1))); o.add(eirin::sqrt(arg<q20>(v, 2))); o.add(eirin::hypot(arg<f64>(v), arg<f64>(v, 1))); o.add(eirin::hypot(arg<f32>(v), arg<f32>(v, 1), arg<f32>(v, 2))); o.add(eirin::sqrt(arg<r32>(v, 2))); o.add(eirin::cbrt(arg<q20>(v, 1)));),
    F_OP("trigonometry", o.add(eirin::sin(arg<f32>(v))); o.add(eirin::cos(arg<f64>(v, 2))); o.add(eirin::tan(arg<f32>(v))); o.add(eirin::sin(arg<f64>(v))); o.add(eirin::cos(arg<q20>(v))); o.add(eirin::degrees(arg<f32>(v))); o.add(eirin::radians(arg<f64>(v, 2))); o.add(eirin::cos(arg<f32>(v, 1))); o.add(eirin::tan(arg<f64>(v, 1))); o.add(eirin::sin(arg<q20>(v, 2))); o.add(eirin::degrees(arg<f64>(v))); o.add(eirin::radians(arg<f32>(v, 2))); o.add(eirin::sin(arg<r32>(v, 2)));),
    F_OP("inverse trigonometry", o.add(eirin::atan(arg<f32>(v))); o.add(eirin::atan(arg<f64>(v, 2))); guarded(o, [&] { return eirin::asin(arg<f32>(v, 1)); }); guarded(o, [&] { return eirin::acos(arg<f64>(v)); }); guarded(o, [&] { return eirin::asin(arg<f64>(v, 1)); }); guarded(o, [&] { return eirin::acos(arg<f32>(v)); }); guarded(o, [&] { return eirin::acos(arg<f32>(v, 1)); }); o.add(eirin::atan(arg<q20>(v, 1)));),
    F_OP("logarithms", guarded(o, [&] { return eirin::log(arg<f32>(v)); }); guarded(o, [&] { return eirin::log2(arg<f64>(v, 2)); }); guarded(o, [&] { return eirin::log10(arg<f32>(v, 2)); }); guarded(o, [&] { return eirin::log2(arg<f32>(v)); }); guarded(o, [&] { return eirin::log(arg<f64>(v, 1)); }); guarded(o, [&] { return eirin::log10(arg<f64>(v, 2)); }); guarded(o, [&] { return eirin::log2(arg<q20>(v, 2)); });),
    F_OP("exp and pow", o.add(eirin::exp(arg<f32>(v))); o.add(eirin::exp(arg<f64>(v, 1))); o.add(eirin::pow(arg<f32>(v), 5)); guarded(o, [&] { return eirin::pow(arg<f32>(v, 2), arg<f32>(v, 1)); }); guarded(o, [&] { return eirin::pow(arg<f64>(v), -3); }); o.add(eirin::exp(arg<q20>(v, 1))); guarded(o, [&] { return eirin::pow(arg<f64>(v, 2), arg<f64>(v, 1)); });),
    F_OP("cordic", o.add(eirin::cordic_sine(arg<f32>(v))); o.add(eirin::cordic_sine(arg<f64>(v, 1))); o.add(eirin::cordic_sine(arg<f32>(v, 2))); o.add(eirin::cordic_sine(arg<f64>(v)));),
    F_OP("constants and limits", o.add(eirin::numbers::pi_v<f32>()); o.add(eirin::numbers::e_v<f64>()); o.add(f32::double_pi()); o.add(std::numeric_limits<f32>::max()); o.add(eirin::f64_min); o.add(eirin::numbers::phi_v<q20>()); o.add((long long)std::hash<int>()(v));),
    F_OP("conversion", auto a = arg<f32>(v); o.add((long long)(int)a); o.add((long long)((double)a * 65536)); o.add(f64(a)); o.add(f32(arg<f64>(v))); o.add(u32(3.5 + v)); o.add((long long)a.integral_part()); o.add((long long)a.fractional_part()); o.add((long long)(float)a); o.add((long long)((long double)arg<f64>(v, 1) * 4294967296.0L)); o.add(f32(2.7182818f)); o.add(f64(0.1L * (v + 1))); o.add(r32(arg<f64>(v, 1))); o.add(s16(a)); o.add(f32(0.1 * (v + 1)));),
    F_OP("parse", static const char* t[3][2] = {{"12.375", "-0.5"}, {"-7.0625", "99999999999"}, {"3.14159265", "12x"}};
        f32 a(1); o.add(eirin::f32_from_cstring(t[v][0], strlen(t[v][0]), a)); o.add(a); f64 b(1); o.add(eirin::fixed_from_cstring(t[v][1], strlen(t[v][1]), b)); o.add(b); f32 c(2); o.add((long long)(eirin::io::parse(std::string_view(t[v][1]), c) - t[v][1])); o.add(c); const char* e = t[v][0] + strlen(t[v][0]); o.add((long long)(eirin::io::parse(t[v][0], e, c) - t[v][0])); o.add(c); o.add(eirin::operator""_f32(t[v][0], strlen(t[v][0]))); o.add(eirin::operator""_f64(t[v][0], strlen(t[v][0])));),
    F_OP("stream input", static const char* t[3] = {"1.5 -2.25 x", "  -77.0001 3", "40000 1"};
        std::istringstream s(t[v]); f32 a(1); f32 b(2); s >> a; o.add(a); s >> b; o.add(b); o.add((long long)s.rdstate()); std::istringstream s2(t[v]); f64 c(3); s2 >> c; o.add(c); std::wistringstream w(v ? L" -1.75 2" : L"33.125x"); f32 d(4); w >> d; o.add(d); o.add((long long)w.rdstate());),
    F_OP("stream output", std::ostringstream s; s << arg<f32>(v) << ' ' << arg<f64>(v, 2); if(v == 1) s << std::hex << arg<f32>(v, 2) << std::uppercase; s << arg<f32>(v, 1); if(v == 1) { s.unsetf(std::ios_base::basefield); s << arg<s16>(v); } if(v == 2) s << std::oct << std::uppercase; s.width(20); s << arg<q20>(v, 1); o.add(s.str());),
    F_OP("format", const auto w = std::format(L"{:>9}|{:.2F}", arg<f32>(v), arg<q20>(v, 1)); o.add(std::string(w.begin(), w.end())); o.add(v == 0 ? std::format("{}|{:.3f}", arg<f32>(v), arg<f64>(v)) : v == 1 ? std::format("{:*^12}|{:+x}", arg<f32>(v), arg<f64>(v)) : std::format("{:08.2f}|{:?}", arg<f32>(v), arg<f64>(v)));),
    F_OP("format types", o.add(v == 0 ? std::format("{:X}|{:#b}|{:G}", arg<f32>(v, 1), arg<f64>(v), arg<q20>(v, 2)) : v == 1 ? std::format("{:#o}|{: d}|{:.1F}", arg<f32>(v, 2), arg<s16>(v), arg<f64>(v, 1)) : std::format("{:#B}|{:#X}|{:14.4g}", arg<f32>(v), arg<f64>(v, 2), arg<f64>(v, 1)));),
    F_OP("engines", eirin::fixed_random_engine_adapter<f32, eirin::pcg2014> a; eirin::fixed_random_engine_adapter<f64, eirin::pcg2014_64> b; if(v) { a.seed(v); b.discard(v); } o.add(a()); o.add(a()); o.add(b()); o.add(b()); eirin::pcg2014 p(v); o.add((long long)p()); o.add((long long)p()); eirin::pcg2014_64 q(v + 9); q.discard(v); o.add((long long)q()); std::ostringstream s; s.imbue(std::locale::classic()); s << q; o.add(s.str()); eirin::pcg2014 p2(p); o.add(p2 == p);),
    F_OP("distributions", eirin::pcg2014 p(v + 5); eirin::fixed_int_distribution_adapter<f32, std::uniform_int_distribution<int>> d(f32(-v), f32(v)); o.add(d(p)); o.add(d(p)); eirin::fixed_random_engine_adapter<f32, eirin::pcg2014> e; eirin::fixed_distribution_adapter<f32, std::uniform_int_distribution<int>> g(f32(0), f32(1 + v)); o.add(g(e)); o.add(g(e));),
    F_OP("hash and compare", auto a = arg<f32>(v), b = arg<f32>(v, 1); o.add((long long)eirin::fixed_hash<f32>()(a)); o.add(a == b); o.add(a < b); o.add(a.nearly_eq(b)); o.add(signbit(a)); o.add((long long)eirin::fixed_hash<f64>()(arg<f64>(v))); o.add((long long)eirin::fixed_hash<s16>()(arg<s16>(v)));),
    F_OP("helpers", o.add((long long)eirin::util::eval_value<int64_t>(2.71828 + v, 32)); o.add((long long)(int64_t)(eirin::ext::int128(int64_t(5) << v) + eirin::ext::int128(int64_t(-7)))); const auto t = eirin::util::lut::angels_lut<8>(); o.add(t[v + 1]); o.add((long long)eirin::util::pi_calc::bbp_calc_pi<int64_t, 40, 12>());),
};
static constexpr int count = sizeof all / sizeof all[0];
} // namespace ops
