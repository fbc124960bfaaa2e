// C24: the library's results in one build configuration, as block checksums (det.py compares the
// configurations).  Every space is a finite list of calls; the same list in every configuration.
//   det --out FILE [--tier t]      all checksums
//   det --dump SPACE BLOCK         every single result of one block
#include "fmt.hpp"
#include <eirin/eirin.hpp>
#include <eirin/io/format.hpp>
#include <eirin/io/parse.hpp>
#include <eirin/random.hpp>
#include <eirin/numbers.hpp>
#include <eirin/ext/cordic.hpp>
#include <cmath>
#include <csetjmp>
#include <exception>
#include <format>
#include <sstream>

using f32 = eirin::fixed32;
using f64 = eirin::fixed64;
typedef uint64_t W;
static const W SKIP = 0x736b6970; // not in the domain of the property

static inline W mix(W h, W v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
static W text(const std::string& s)
{
    W h = s.size();
    for(unsigned char ch : s) h = mix(h, ch);
    return h;
}
template <class F> static inline W res(F x) { return (W)(typename Fm<F>::type)x.internal_value(); }
// a call that fails: throws, or terminates the program in a build without exceptions
#ifdef __cpp_exceptions
template <class Call>
static inline W caught(Call call)
{
    try { return res(call()); }
    catch(const std::exception&) { return 0xFA11; }
}
#else
static jmp_buf terminated;
template <class Call>
static inline W caught(Call call)
{
    static const bool once = (std::set_terminate([] { longjmp(terminated, 1); }), true);
    (void)once;
    if(setjmp(terminated)) return 0xFA11;
    return res(call());
}
#endif
template <class F> static constexpr double num(i128 a) { return (double)a / (double)Fm<F>::one; }

// ---- unary functions: name, domain, call -------------------------------------------------------
#define U(NAME, DOMAIN, CALL) \
    struct U_##NAME { \
        static constexpr const char* name = #NAME; \
        template <class F> static bool in(i128 a, double v) { (void)a; (void)v; return DOMAIN; } \
        template <class F> static constexpr F call(F x) { return CALL; } \
    };
template <class F> static constexpr double top = (double)Fm<F>::hi / (double)Fm<F>::one;
U(negate, a != Fm<F>::lo, -x)
U(floor, true, eirin::floor(x))
U(trunc, true, eirin::trunc(x))
U(ceil, v < top<F> - 1, eirin::ceil(x))
U(round, std::fabs(v) < top<F> - 1, eirin::round(x))
U(abs, a != Fm<F>::lo, eirin::abs(x))
U(sqrt, true, eirin::sqrt(x))
U(cbrt, true, eirin::cbrt(x))
U(sin, true, eirin::sin(x))
U(cos, std::fabs(v) < top<F> - 8, eirin::cos(x))
U(tan, std::fabs(v) < top<F> - 8 && std::fabs(std::cos(v)) > std::ldexp(1.0 + std::fabs(v), 8 - Fm<F>::frac), eirin::tan(x))
U(atan, true, eirin::atan(x))
U(asin, true, eirin::asin(x))
U(acos, true, eirin::acos(x))
U(log2, true, eirin::log2(x))
U(log, true, eirin::log(x))
U(log10, true, eirin::log10(x))
U(exp, v < std::log(top<F>) - 0.01, eirin::exp(x))
U(degrees, std::fabs(v) < top<F> / 57.3 - 1, eirin::degrees(x))
U(radians, true, eirin::radians(x))
U(square, v * v < top<F> - 1, x * x)
U(fifth_power, std::fabs(v * v * v * v * v) < top<F> - 1, eirin::pow(x, 5))
U(third, true, x / 3)
U(reciprocal, a != 0 && std::fabs(1 / v) < top<F> - 1, 1 / x)

static void unary_list(auto g)
{
    g.template operator()<U_negate>(); g.template operator()<U_floor>(); g.template operator()<U_trunc>(); g.template operator()<U_ceil>();
    g.template operator()<U_round>(); g.template operator()<U_abs>(); g.template operator()<U_sqrt>(); g.template operator()<U_cbrt>();
    g.template operator()<U_sin>(); g.template operator()<U_cos>(); g.template operator()<U_tan>(); g.template operator()<U_atan>();
    g.template operator()<U_asin>(); g.template operator()<U_acos>(); g.template operator()<U_log2>(); g.template operator()<U_log>();
    g.template operator()<U_log10>(); g.template operator()<U_exp>(); g.template operator()<U_degrees>(); g.template operator()<U_radians>();
    g.template operator()<U_square>(); g.template operator()<U_fifth_power>(); g.template operator()<U_third>(); g.template operator()<U_reciprocal>();
}

// ---- the spaces --------------------------------------------------------------------------------
static const uint64_t BLOCK = 1024;
struct Det
{
    FILE* out = nullptr;
    std::string dump_space;
    uint64_t dump_block = 0;
    bool dump = false, thorough = false;
    uint64_t calls = 0;
    template <class G>
    void space(const std::string& name, uint64_t n, G g)
    {
        if(dump)
        {
            if(name != dump_space) return;
            for(uint64_t i = dump_block * BLOCK; i < n && i < (dump_block + 1) * BLOCK; ++i) printf("%llu %llx\n", (unsigned long long)i, (unsigned long long)g(i));
            return;
        }
        fprintf(out, "%s\t%llu", name.c_str(), (unsigned long long)n);
        uint64_t skipped = 0;
        for(uint64_t b = 0; b < n; b += BLOCK)
        {
            W h = 0;
            for(uint64_t i = b; i < n && i < b + BLOCK; ++i)
            {
                const W r = g(i);
                skipped += r == SKIP;
                h = mix(h, r);
            }
            fprintf(out, " %llx", (unsigned long long)h);
        }
        fprintf(out, "\t%llu\n", (unsigned long long)skipped);
        fflush(out);
    }
};
template <class F>
static std::vector<i128> some(int weight, int lattice_bits)
{
    std::vector<i128> extra;
    const i128 span = (i128(1) << Fm<F>::bits) >> lattice_bits, near = i128(16) * Fm<F>::one >> lattice_bits;
    for(i128 k = 0; k < i128(1) << lattice_bits; ++k)
    {
        if(span > 0) extra.push_back(Fm<F>::lo + span * k + (k * 7919) % span);
        if(near > 0) extra.push_back(-8 * Fm<F>::one + near * k + (k * 104729) % near);
    }
    return naf<F>(weight, extra);
}
template <class F>
static void functions(Det& d)
{
    const auto V = some<F>(Fm<F>::bits == 64 ? 2 : 3, d.thorough ? 18 : 14);
    unary_list([&]<class Fn>() {
        d.space(std::string(Fn::name) + " " + Fm<F>::name(), V.size(), [&](uint64_t i) -> W {
            const i128 a = V[i];
            if(!Fn::template in<F>(a, num<F>(a))) return SKIP;
            return caught([&] { return Fn::call(raw<F>(a)); });
        });
    });
}
// ---- the same functions as constant expressions ------------------------------------------------
template <class F>
static constexpr int NC = 14;
template <class F>
static constexpr F cvalue(int k)
{
    // values in the domain of everything below: (0, 1] and a few larger ones for the others
    constexpr int one = 1 << 6;
    const int n[14] = {1, 3, 7, 13, 20, 31, 32, 33, 45, 52, 60, 63, 64, 2};
    return F(n[k]) / F(one);
}
template <class Fn, class F>
struct Folded
{
    static constexpr std::array<F, NC<F>> value = [] {
        std::array<F, NC<F>> a{};
        for(int k = 0; k < NC<F>; ++k) a[k] = Fn::call(cvalue<F>(k));
        return a;
    }();
    static constexpr std::array<F, NC<F>> negative = [] {
        std::array<F, NC<F>> a{};
        if constexpr(std::is_same_v<Fn, U_sin> || std::is_same_v<Fn, U_cos> || std::is_same_v<Fn, U_tan> || std::is_same_v<Fn, U_atan> || std::is_same_v<Fn, U_asin> || std::is_same_v<Fn, U_acos>
                     || std::is_same_v<Fn, U_exp> || std::is_same_v<Fn, U_cbrt> || std::is_same_v<Fn, U_floor> || std::is_same_v<Fn, U_trunc> || std::is_same_v<Fn, U_ceil> || std::is_same_v<Fn, U_round>
                     || std::is_same_v<Fn, U_abs> || std::is_same_v<Fn, U_sqrt> || std::is_same_v<Fn, U_negate> || std::is_same_v<Fn, U_degrees> || std::is_same_v<Fn, U_radians> || std::is_same_v<Fn, U_third>)
            for(int k = 0; k < NC<F>; ++k) a[k] = Fn::call(-cvalue<F>(k));
        else
            for(int k = 0; k < NC<F>; ++k) a[k] = Fn::call(cvalue<F>(k) + F(2));
        return a;
    }();
    static constexpr int kind = std::is_same_v<Fn, U_log2> || std::is_same_v<Fn, U_log> || std::is_same_v<Fn, U_log10> || std::is_same_v<Fn, U_square> || std::is_same_v<Fn, U_fifth_power> || std::is_same_v<Fn, U_reciprocal>;
};
template <class F>
static void folded(Det& d)
{
    unary_list([&]<class Fn>() {
        using T = Folded<Fn, F>;
        // fed through volatile, so that the call really happens at run time
        d.space(std::string("run time ") + Fn::name + " " + Fm<F>::name(), 2 * NC<F>, [&](uint64_t i) -> W {
            const int k = int(i % NC<F>);
            volatile typename Fm<F>::type v = (i < (uint64_t)NC<F> ? cvalue<F>(k) : T::kind ? cvalue<F>(k) + F(2) : -cvalue<F>(k)).internal_value();
            return res(Fn::call(F::from_internal_value(v)));
        });
        d.space(std::string("constant ") + Fn::name + " " + Fm<F>::name(), 2 * NC<F>, [&](uint64_t i) -> W {
            return res(i < (uint64_t)NC<F> ? T::value[i] : T::negative[i - NC<F>]);
        });
    });
}
// ---- pairs -------------------------------------------------------------------------------------
template <class F>
static void pairs(Det& d)
{
    const auto V = naf<F>(d.thorough ? 2 : 1, {Fm<F>::one * 3 / 7, -Fm<F>::one * 22 / 7, Fm<F>::one * 10, Fm<F>::one / 10, -Fm<F>::one * 5 / 3});
    const uint64_t n = V.size();
    auto fits = [](double v) { return v < top<F> - 1 && v > (Fm<F>::is_signed ? 1 - top<F> : 0.0); };
    auto space = [&](const char* name, auto in, auto call) {
        d.space(std::string(name) + " " + Fm<F>::name(), n * n, [&](uint64_t i) -> W {
            const i128 a = V[i % n], b = V[i / n];
            if(!in(a, b, num<F>(a), num<F>(b))) return SKIP;
            const F x = raw<F>(a), y = raw<F>(b);
            return call(x, y);
        });
    };
    space("x+y x-y", [&](i128 a, i128 b, double, double) { return Fm<F>::fits(a + b) && Fm<F>::fits(a - b); }, [](F x, F y) { return mix(res(x + y), res(x - y)); });
    space("x*y", [&](i128, i128, double x, double y) { return fits(x * y); }, [](F x, F y) { return res(x * y); });
    space("x/y", [&](i128, i128 b, double x, double y) { return b != 0 && fits(x / y); }, [](F x, F y) { return mix(res(x / y), caught([&] { return x.divide(y); })); });
    space("x%y", [&](i128, i128 b, double, double) { return b != 0; }, [](F x, F y) { return mix(res(x % y), res(eirin::fmod(x, y))); });
    space("comparison", [&](i128, i128, double, double) { return true; }, [](F x, F y) { return W(x < y) | W(x == y) << 1 | W(x <= y) << 2 | W(x.nearly_eq(y)) << 3 | W(x > y) << 4; });
    space("hypot", [&](i128, i128, double x, double y) { return fits(x * x + y * y); }, [](F x, F y) { return res(eirin::hypot(x, y)); });
    space("pow", [&](i128 a, i128 b, double x, double y) { const double p = std::pow(std::fabs(x), y); return std::fabs(y) < 40 && (a != 0 || b > 0) && fits(p * 1.05 + 1) && fits(1.05 * std::pow(std::fabs(x), std::trunc(y))) && std::pow(std::fabs(x), std::trunc(std::fabs(y))) < top<F> - 1 && (a <= 0 || std::fabs(std::log(x)) < 30 || b == std::trunc(y)) && (y >= 0 || std::pow(std::fabs(x), std::trunc(-y)) > 8 * std::ldexp(1.0, -Fm<F>::frac)); }, [](F x, F y) { return caught([&] { return eirin::pow(x, y); }); });
}
// ---- floating point ----------------------------------------------------------------------------
template <class F, class D>
static void floats(Det& d, const char* dn)
{
    const auto V = some<F>(2, d.thorough ? 14 : 11);
    d.space("to " + std::string(dn) + " " + Fm<F>::name(), V.size(), [&](uint64_t i) -> W {
        const volatile D v = static_cast<D>(raw<F>(V[i]));
        const D w = v;
        long double l = w;
        int e;
        l = std::frexp(l, &e);
        return mix((W)(int64_t)std::ldexp(l, 63), (W)e);
    });
    d.space("from " + std::string(dn) + " " + Fm<F>::name(), V.size() * 8, [&](uint64_t i) -> W {
        // (computed in long double, which is the same in every configuration, then rounded to D)
        const volatile long double l = std::ldexp((long double)V[i / 8], -Fm<F>::frac);
        static const volatile long double f[8] = {1, 1, 1, 1.5L, 1 / 3.0L, 1 / 1024.0L, 0.1L, 0.999L};
        const volatile long double m = l * f[i % 8];
        volatile D v = (D)m;
        if(i % 8 == 1) v = std::nextafter((D)v, (D)1e30);
        if(i % 8 == 2) v = std::nextafter((D)v, (D)-1e30);
        const D w = v;
        if(!((double)w < top<F> * 0.999) || !((double)w > (Fm<F>::is_signed ? -0.999 * top<F> : 0.0))) return SKIP;
        return res(F(w));
    });
}
// ---- text --------------------------------------------------------------------------------------
template <class F>
static void texts(Det& d)
{
    const auto V = naf<F>(Fm<F>::bits == 64 ? 1 : 2, {Fm<F>::one * 3 / 7, -Fm<F>::one * 22 / 7, Fm<F>::one * 10, Fm<F>::one / 10, -Fm<F>::one * 5 / 3, Fm<F>::one * 99 / 100});
    d.space("write " + Fm<F>::name(), V.size() * 4, [&](uint64_t i) -> W {
        std::ostringstream s;
        if(i % 4 == 1) s << std::hex; else if(i % 4 == 2) s << std::oct; else if(i % 4 == 3) s << std::uppercase << std::hex;
        s << raw<F>(V[i / 4]);
        return text(s.str());
    });
    d.space("format " + Fm<F>::name(), V.size() * 8, [&](uint64_t i) -> W {
        const F x = raw<F>(V[i / 8]);
        switch(i % 8)
        {
        case 0: return text(std::format("{}", x));
        case 1: return text(std::format("{:.3f}", x));
        case 2: return text(std::format("{:+012.2f}", x));
        case 3: return text(std::format("{:#x}", x));
        case 4: return text(std::format("{:*^20g}", x));
        case 5: return text(std::format("{:d}", x));
        case 6: return text(std::format("{:?}", x));
        default: return text(std::format("{:<30.9}", x));
        }
    });
    d.space("read back " + Fm<F>::name(), V.size(), [&](uint64_t i) -> W {
        std::stringstream s;
        s << raw<F>(V[i]);
        F x(0), y(0);
        const std::string t = s.str();
        const bool ok = eirin::fixed_from_cstring(t.c_str(), t.size(), x);
        s >> y;
        return mix(mix(ok, res(x)), mix(res(y), s.rdstate()));
    });
    static const char cs[] = "-019. a\xe9";
    const uint64_t k = sizeof cs - 1;
    uint64_t n = 0, p = 1;
    for(int l = 0; l < 6; ++l, p *= k) n += p;
    d.space("parse " + Fm<F>::name(), n, [&](uint64_t i) -> W {
        std::string t;
        uint64_t len = 0, q = 1, j = i;
        while(j >= q) { j -= q; q *= k; ++len; }
        for(uint64_t c = 0; c < len; ++c) { t += cs[j % k]; j /= k; }
        F x(3), z(3);
        if(t.empty() || t == "-" || t == ".") return SKIP;
        const bool ok = eirin::fixed_from_cstring(t.c_str(), t.size(), x);
        W e = 0;
        if constexpr(std::is_same_v<F, f32>)
        {
            const char* q2 = eirin::io::parse(std::string_view(t), z);
            e = (W)(q2 ? q2 - t.data() : -1);
        }
        std::istringstream s(t);
        F y(3);
        s >> y;
        return mix(mix(mix(ok, ok ? res(x) : 0), mix(res(y), s.rdstate())), mix(res(z), e));
    });
}
template <class E>
static void engines(Det& d, const char* name)
{
    d.space(std::string("engine ") + name, d.thorough ? 100000 : 8000, [](uint64_t i) -> W {
        E e((typename E::result_type)(i * 2654435761u));
        W h = e();
        h = mix(h, e());
        e.discard(i % 17);
        return mix(h, e());
    });
}

int main(int argc, char** argv)
{
    Det d;
    std::string out;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if(a == "--out") out = argv[++i];
        else if(a == "--tier") d.thorough = !strcmp(argv[++i], "thorough");
        else if(a == "--dump") { d.dump = true; d.dump_space = argv[++i]; d.dump_block = strtoull(argv[++i], nullptr, 10); }
    }
    if(!d.dump) d.out = fopen(out.c_str(), "w");
    using r32 = i32<16, true>;
    functions<f32>(d); functions<f64>(d); functions<i32<20>>(d); functions<r32>(d); functions<i16<8>>(d); functions<i64<16>>(d);
    folded<f32>(d); folded<f64>(d); folded<r32>(d);
    pairs<f32>(d); pairs<f64>(d); pairs<i32<20>>(d); pairs<r32>(d); pairs<i16<8>>(d); pairs<i64<48>>(d); pairs<i64<32, true>>(d);
    floats<f32, float>(d, "float"); floats<f32, double>(d, "double"); floats<f32, long double>(d, "long double");
    floats<f64, float>(d, "float"); floats<f64, double>(d, "double"); floats<f64, long double>(d, "long double");
    floats<r32, float>(d, "float"); floats<r32, double>(d, "double"); floats<i64<32, true>, double>(d, "double"); floats<i16<8>, double>(d, "double"); floats<u32<16>, double>(d, "double");
    texts<f32>(d); texts<f64>(d); texts<i32<20>>(d); texts<i16<8>>(d); texts<u32<16>>(d);
    const auto V32 = some<f32>(3, 13), V64 = some<f64>(2, 13);
    d.space("cordic_sine f32", V32.size(), [&](uint64_t i) -> W { return res(eirin::cordic_sine(raw<f32>(V32[i]))); });
    d.space("cordic_sine f64", V64.size(), [&](uint64_t i) -> W { return res(eirin::cordic_sine(raw<f64>(V64[i]))); });
    d.space("f32 to f64 and back", V32.size(), [&](uint64_t i) -> W { const f64 w(raw<f32>(V32[i])); return mix(res(w), res(f32(w))); });
    engines<eirin::pcg2014>(d, "pcg2014");
    engines<eirin::pcg2014_64>(d, "pcg2014_64");
    using namespace eirin::numbers;
    d.space("constants", 1, [&](uint64_t) -> W { W h = 0; for(W v : {res(pi_v<f32>()), res(e_v<f64>()), res(phi_v<r32>()), res(ln2_v<i64<61>>()), res(sqrt3_v<i32<20>>()), res(egamma_v<f64>()), res(f32::double_pi()), res(inv_pi_v<r32>())}) h = mix(h, v); return h; });
    if(d.out) { fprintf(d.out, "end\n"); fclose(d.out); }
    return 0;
}
