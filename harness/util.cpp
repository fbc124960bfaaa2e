// C26: the 128-bit extension type and the helper functions (constant evaluation, pi, tables, error measurement)
#include "fmt.hpp"
#include <eirin/eirin.hpp>
#include <eirin/ext/builtin_ints.hpp>
#include <eirin/detail/util.hpp>
#include <eirin/detail/perf.hpp>
#include <cmath>

using X = eirin::ext::int128;
using f64 = eirin::fixed64;
static i128 value(X x) { return (i128)((u128)(uint64_t)x.high_bits() << 64 | (uint64_t)x.low_bits()); }
static X make(i128 v) { return X((int64_t)(v >> 64), (int64_t)v); }
static std::vector<i128> naf128(int weight)
{
    std::vector<i128> v;
    struct R
    {
        static void rec(std::vector<i128>& v, int left, int from, u128 acc)
        {
            v.push_back((i128)acc);
            if(!left) return;
            for(int b = from; b < 128; ++b)
            {
                rec(v, left - 1, b + 1, acc + (u128(1) << b));
                rec(v, left - 1, b + 1, acc - (u128(1) << b));
            }
        }
    };
    R::rec(v, weight, 0, 0);
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
template <class T>
static void from(mc::Run& run, const char* name)
{
    std::vector<i128> V;
    for(i128 v : naf128(3))
        if(v >= (i128)std::numeric_limits<T>::min() && v <= (i128)std::numeric_limits<T>::max()) V.push_back(v);
    run.space(std::string("int128 from ") + name, V.size(), [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const X x((T)V[i]);
        MC_CHECK(c, value(x) == V[i], "int128 of the %s %s is %s", name, str(V[i]).c_str(), str(value(x)).c_str());
        if constexpr(sizeof(T) < 8 || std::is_signed_v<T>) MC_CHECK(c, (int64_t)x == (int64_t)V[i], "the %s %s comes back as %lld", name, str(V[i]).c_str(), (long long)(int64_t)x);
        if(c.want) c.note("%s", str(V[i]).c_str());
    });
}
template <class I>
static void eval(mc::Run& run, const char* name)
{
    const int bits = sizeof(I) * 8;
    std::vector<double> M; // mantissas of 53 bits with structure
    for(int a = 0; a < 53; ++a)
        for(int b = 0; b <= a; ++b)
            for(int cc = 0; cc <= b; ++cc)
                for(int s = -1; s <= 1; ++s)
                {
                    const double m = std::ldexp(1.0, a) + std::ldexp(1.0, b) + s * std::ldexp(1.0, cc);
                    if(m > 0 && m < 9007199254740992.0) M.push_back(m);
                }
    M.push_back(3.141592653589793 * (1ll << 50));
    M.push_back(2.718281828459045 * (1ll << 50));
    std::sort(M.begin(), M.end());
    M.erase(std::unique(M.begin(), M.end()), M.end());
    const int ne = 14;
    run.space(std::string("eval_value ") + name, (uint64_t)M.size() * ne * (bits - 1), [&](uint64_t i, mc::Ctx& c) {
        const int fr = 1 + int(i % (bits - 1)), e = int(i / (bits - 1) % ne);
        static const int ex[14] = {-53, -52, -51, -50, -48, -40, -30, -60, -54, -20, -70, -45, -10, 0};
        const double v = std::ldexp(M[i / (bits - 1) / ne], ex[e]);
        if(!(v < std::ldexp(1.0, bits - 1 - fr))) return;
        ++c.valid;
        const I got = eirin::util::eval_value<I>(v, fr);
        const I want = (I)std::ldexp((long double)v, fr); // truncated; exact in long double
        MC_CHECK(c, got == want, "eval_value<%s>(%.17g, %d) is %lld, expected %lld", name, v, fr, (long long)got, (long long)want);
        if(c.want) c.note("eval_value<%s>(%.17g, %d) is %lld", name, v, fr, (long long)got);
    });
}
struct PiRow { const char* type; int fraction, n; long double (*calc)(); };
static std::vector<PiRow> PI_ROWS;
template <class T, int fraction>
static void pis(const char* name)
{
    auto add = [&]<int N>() { PI_ROWS.push_back({name, fraction, N, [] { return (long double)eirin::util::pi_calc::bbp_calc_pi<T, fraction, N>(); }}); };
    add.template operator()<1>();
    add.template operator()<2>();
    add.template operator()<3>();
    add.template operator()<5>();
    add.template operator()<8>();
    add.template operator()<13>();
    add.template operator()<17>();
}
template <class T, int... f>
static void all_pis(const char* name, std::integer_sequence<int, f...>) { (pis<T, f + 1>(name), ...); }

// an error of the measured function for each of the sampled arguments
static int DEV[8];
template <size_t N>
static void luts(mc::Run& run)
{
    run.space("tables of " + std::to_string(N), 1, [&](uint64_t, mc::Ctx& c) {
        ++c.valid;
        const auto a = eirin::util::lut::angels_lut<N>();
        const auto s = eirin::util::lut::func_ptr_lut<N>([](f64 x) { return x * 2 - 1; });
        const long double pi = 3.14159265358979323846264338327950288L;
        for(size_t i = 0; i < N; ++i)
        {
            const long double e = std::ldexp(pi * i / N, 32);
            MC_CHECK(c, std::fabs((long double)a[i].internal_value() - e) <= i + 1.0L, "angels_lut<%zu>[%zu] is raw %lld", N, i, (long long)a[i].internal_value());
            MC_CHECK(c, s[i] == a[i] * 2 - 1, "func_ptr_lut<%zu>[%zu] is not the function at angels_lut[%zu]", N, i, i);
        }
    });
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, "C26");
    from<signed char>(run, "signed char"); from<unsigned char>(run, "unsigned char"); from<short>(run, "short"); from<unsigned short>(run, "unsigned short");
    from<int>(run, "int"); from<unsigned>(run, "unsigned"); from<long>(run, "long"); from<unsigned long>(run, "unsigned long");
    from<long long>(run, "long long"); from<unsigned long long>(run, "unsigned long long"); from<char>(run, "char");
    const auto V = naf128(3);
    run.space("int128 to int64_t saturates", V.size(), [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const i128 v = V[i], lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
        X x = make(v);
        MC_CHECK(c, value(x) == v && x.high_bits() == (int64_t)(v >> 64) && x.low_bits() == (int64_t)v, "%s has the halves %lld and %lld", str(v).c_str(), (long long)x.high_bits(), (long long)x.low_bits());
        const int64_t g = (int64_t)x;
        MC_CHECK(c, g == (int64_t)(v < lo ? lo : v > hi ? hi : v), "int64_t of %s is %lld", str(v).c_str(), (long long)g);
        if(c.want) c.note("%s", str(v).c_str());
    });
    const auto W = naf128(run.thorough ? 2 : 1);
    const auto Y = naf128(run.thorough ? 2 : 2);
    run.space("int128 sums", (uint64_t)W.size() * Y.size(), [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const i128 a = W[i % W.size()], b = Y[i / W.size()];
        const i128 want = (i128)((u128)a + (u128)b);
        const X x = make(a), y = make(b);
        MC_CHECK(c, value(x + y) == want && value(y + x) == want && value(x) == a && value(y) == b, "%s + %s is %s", str(a).c_str(), str(b).c_str(), str(value(x + y)).c_str());
        if(c.want) c.note("%s + %s", str(a).c_str(), str(b).c_str());
    });
    std::vector<double> D;
    for(i128 v : naf128(2))
        if(v >= std::numeric_limits<int64_t>::min() / 2 && v <= std::numeric_limits<int64_t>::max() / 2)
            for(int k = 0; k < 5; ++k) D.push_back((double)v + (k == 0 ? 0 : k == 1 ? 0.5 : k == 2 ? -0.5 : k == 3 ? 0.999 : -0.999));
    run.space("int128 from floating point", D.size(), [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const X x(D[i]), y((float)D[i]);
        MC_CHECK(c, value(x) == (i128)D[i], "int128 of %.17g is %s", D[i], str(value(x)).c_str());
        MC_CHECK(c, value(y) == (i128)(float)D[i], "int128 of the float %.9g is %s", (float)D[i], str(value(y)).c_str());
    });
    eval<int64_t>(run, "int64_t"); eval<int32_t>(run, "int32_t"); eval<int16_t>(run, "int16_t"); eval<int8_t>(run, "int8_t");
    all_pis<int8_t>("int8_t", std::make_integer_sequence<int, 5>());
    all_pis<int16_t>("int16_t", std::make_integer_sequence<int, 13>());
    all_pis<int32_t>("int32_t", std::make_integer_sequence<int, 29>());
    all_pis<int64_t>("int64_t", std::make_integer_sequence<int, 61>());
    all_pis<uint32_t>("uint32_t", std::make_integer_sequence<int, 30>());
    run.space("bbp_calc_pi", PI_ROWS.size(), [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const PiRow& r = PI_ROWS[i];
        const long double got = r.calc();
        const long double want = std::ldexp(3.14159265358979323846264338327950288L, r.fraction);
        const long double bound = 4.0L * r.n + std::ldexp(1.0L, r.fraction - 4 * r.n); // 4 truncations per term, and the rest of the series
        MC_CHECK(c, std::fabs(got - want) <= bound, "bbp_calc_pi<%s, %d, %d>() is %.0Lf, expected %.0Lf", r.type, r.fraction, r.n, got, want);
        if(c.want) c.note("bbp_calc_pi<%s, %d, %d>() is %.0Lf", r.type, r.fraction, r.n, got);
    });
    luts<1>(run); luts<2>(run); luts<3>(run); luts<7>(run); luts<64>(run); luts<512>(run); luts<1000>(run);
    const int len = run.thorough ? 7 : 6;
    uint64_t total = 1;
    for(int k = 0; k < len; ++k) total *= 9;
    // print_constants: the text printed for every storage type and number of fraction bits
    {
        static const struct { const char* name; void (*print)(int); int bits; } T[] = {
            {"int64_t", [](int n) { eirin::util::print_constants<int64_t>(n); }, 63}, {"uint64_t", [](int n) { eirin::util::print_constants<uint64_t>(n); }, 64},
            {"int32_t", [](int n) { eirin::util::print_constants<int32_t>(n); }, 31}, {"uint32_t", [](int n) { eirin::util::print_constants<uint32_t>(n); }, 32},
            {"int16_t", [](int n) { eirin::util::print_constants<int16_t>(n); }, 15}, {"int8_t", [](int n) { eirin::util::print_constants<int8_t>(n); }, 7}};
        static const struct { const char* name; long double v; } K[] = {{"log2e", 1.442695040888963407359924681001892137L}, {"log10e", 0.434294481903251827651128918916605082L}, {"inv_pi", 0.318309886183790671537767526745028724L},
            {"inv_sqrtpi", 0.564189583547756286948079451560772586L}, {"ln2", 0.693147180559945309417232121458176568L}, {"ln10", 2.302585092994045684017991454684364208L}, {"sqrt2", 1.414213562373095048801688724209698079L},
            {"sqrt3", 1.732050807568877293527446341505872367L}, {"inv_sqrt3", 0.577350269189625764509148780501957456L}, {"egamma", 0.577215664901532860606512090082402431L}, {"phi", 1.618033988749894848204586834365638118L}};
        run.space("print_constants", 6 * 62, [&](uint64_t i, mc::Ctx& c) {
            const auto& t = T[i % 6];
            const int n = int(i / 6) + 1;
            if(n > t.bits - 2) return;
            ++c.valid;
            fflush(stdout);
            const int keep = dup(1), fd = memfd_create("printed", 0);
            if(keep < 0 || fd < 0) { c.fail("cannot redirect the output"); return; }
            dup2(fd, 1);
            t.print(n);
            fflush(stdout);
            std::cout.flush();
            dup2(keep, 1);
            close(keep);
            std::string s(size_t(lseek(fd, 0, SEEK_END)), 0);
            (void)!pread(fd, s.data(), s.size(), 0);
            close(fd);
            size_t at = 0;
            for(const auto& k : K)
            {
                at = s.find(std::string(" ") + k.name + "_v()", at);
                MC_CHECK(c, at != std::string::npos, "print_constants<%s>(%d) does not print %s in its place", t.name, n, k.name);
                if(at == std::string::npos) return;
                const size_t from = s.find("from_fixed_num_value<", at);
                int bits = 0;
                unsigned long long v = 0;
                MC_CHECK(c, from != std::string::npos && sscanf(s.c_str() + from, "from_fixed_num_value<%d>(0x%llxll)", &bits, &v) == 2, "print_constants<%s>(%d) prints no value for %s", t.name, n, k.name);
                const long double d = ldexpl((long double)v, -bits) - k.v;
                MC_CHECK(c, fabsl(d) <= ldexpl(1, -n) + ldexpl(k.v, -52), "print_constants<%s>(%d) prints %llx with %d fraction bits for %s, which is %.18Lg", t.name, n, v, bits, k.name, ldexpl((long double)v, -bits));
            }
            if(c.want) c.note("print_constants<%s>(%d)", t.name, n);
        });
    }
    run.space("measure_esp, every pattern of deviations", total, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        static const int dev[9] = {0, 1, -1, 5, -5, 300 * 16, -300 * 16, 254 * 16, -255 * 16};
        for(int k = 0; k < len; ++k, i /= 9) DEV[k] = dev[i % 9];
        using q = eirin::fixed_num<int32_t, int64_t, 4, false>;
        const q start(3), step(2), end(3 + 2 * (len - 1));
        const auto r = eirin::perf::measure_esp<q>(start, end, step, [](q x) { return x + q::from_internal_value(DEV[((int)x - 3) / 2]); }, [](q x) { return x; }, +[](int64_t v) { return q(v); });
        int mx = 0, mn = 255 * 16;
        for(int k = 0; k < len; ++k) { mx = std::max(mx, std::abs(DEV[k])); mn = std::min(mn, std::abs(DEV[k])); }
        auto at = [&](q x) { const int k = ((int)x - 3) / 2; return (int)x >= 3 && k < len && x == start + step * k ? std::abs(DEV[k]) : -1; };
        MC_CHECK(c, r.max_esp.internal_value() == mx && (mx == 0 || at(r.max_esp_input) == mx), "the largest deviation is %d/16, measure_esp reports %d/16 at %d", mx, (int)r.max_esp.internal_value(), (int)r.max_esp_input);
        MC_CHECK(c, r.min_esp.internal_value() == mn && (mn == 255 * 16 || at(r.min_esp_input) == mn), "the smallest deviation is %d/16, measure_esp reports %d/16 at %d", mn, (int)r.min_esp.internal_value(), (int)r.min_esp_input);
    });
    return run.finish();
}
