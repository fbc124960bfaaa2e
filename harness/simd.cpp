// C22 SIMD angle reduction and CPU feature detection
#include "fmt.hpp"
#include <eirin/eirin.hpp>
#include <array>
#include <eirin/ext/simd_math.hpp>

using f64 = eirin::fixed64;
#ifndef NEED
#    define NEED "avx2"
#endif

static const i128 TWO_PI = val(eirin::numbers::pi_v<f64>()) * 2;

static inline void judge(mc::Ctx& c, const char* fn, int lane, int64_t x, int64_t r)
{
    // x - r is a whole multiple of the format's 2*pi; r is on x's side of 0 and less than a turn away
    // (plus what the truncated reciprocal of 2*pi costs)
    const i128 d = i128(x) - r;
    const i128 ax = x < 0 ? -i128(x) : i128(x);
    const i128 ar = x < 0 ? -i128(r) : i128(r);
    const i128 bound = TWO_PI + (TWO_PI * ((ax >> 32) + 2) >> 32) + 2;
    c.trans += 1;
    const bool ok = int64_t(d % TWO_PI) == 0 && ar >= 0 && ar <= bound;
    if(!ok) [[unlikely]]
        c.fail("%s, lane %d: %s was reduced to raw %s (%s 2*pi apart, remainder %s steps)", fn, lane, SH(f64, x), str(r).c_str(), str(d / TWO_PI).c_str(), str(d % TWO_PI).c_str());
    const double share = double((long double)ar / (long double)bound);
    if(share > c.peak) { c.peak = share; c.peak_at = c.index; }
}
static inline void four(mc::Ctx& c, const int64_t (&x)[4])
{
    std::array<f64, 4> a = {raw<f64>(x[0]), raw<f64>(x[1]), raw<f64>(x[2]), raw<f64>(x[3])};
    const auto r = eirin::simd::simd_reduce_angle(a);
    for(int k = 0; k < 4; ++k) judge(c, "simd_reduce_angle", k, x[k], r[k].internal_value());
    const auto p = eirin::simd::simd_reduce_angle_2({a[0], a[1]}), q = eirin::simd::simd_reduce_angle_2({a[3], a[2]});
    judge(c, "simd_reduce_angle_2", 0, x[0], p[0].internal_value());
    judge(c, "simd_reduce_angle_2", 1, x[1], p[1].internal_value());
    judge(c, "simd_reduce_angle_2", 0, x[3], q[0].internal_value());
    judge(c, "simd_reduce_angle_2", 1, x[2], q[1].internal_value());
    // the lanes do not influence each other, and both widths agree
    c.trans += 1;
    if(p[0] != r[0] || p[1] != r[1] || q[0] != r[3] || q[1] != r[2]) c.fail("simd_reduce_angle and simd_reduce_angle_2 differ for %s, %s, %s, %s", SH(f64, x[0]), SH(f64, x[1]), SH(f64, x[2]), SH(f64, x[3]));
}

static bool cpu_bit(int which)
{
    unsigned a, b, cc, d;
    if(which < 3)
    {
        asm volatile("cpuid" : "=a"(a), "=b"(b), "=c"(cc), "=d"(d) : "a"(1), "c"(0));
        return which == 0 ? d >> 26 & 1 : which == 1 ? cc >> 20 & 1 : cc >> 28 & 1;
    }
    asm volatile("cpuid" : "=a"(a), "=b"(b), "=c"(cc), "=d"(d) : "a"(7), "c"(0));
    return b >> (which == 3 ? 5 : which == 4 ? 16 : 17) & 1;
}
static bool claims(int which)
{
    using S = eirin::simd::platform_support;
    switch(which)
    {
    case 0: return S::supports_sse2();
    case 1: return S::supports_sse4_2();
    case 2: return S::supports_avx();
    case 3: return S::supports_avx2();
    case 4: return S::supports_avx512_f();
    default: return S::supports_avx512_dq();
    }
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, "C22");
    // every order of 3 queries, each order in a fresh process
    run.space("feature queries", 6 * 6 * 6, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        int p[2];
        if(pipe(p)) { c.fail("pipe"); return; }
        fflush(nullptr);
        const pid_t q = fork();
        if(q == 0)
        {
            char ok = 1;
            for(uint64_t k = 0, j = i; k < 3; ++k, j /= 6)
                if(claims(int(j % 6)) != cpu_bit(int(j % 6))) { ok = char(2 + j % 6); break; }
            (void)!write(p[1], &ok, 1);
            _exit(0);
        }
        char ok = 0;
        close(p[1]);
        (void)!read(p[0], &ok, 1);
        close(p[0]);
        waitpid(q, nullptr, 0);
        c.trans += 3;
        if(ok != 1) c.fail("querying the features in the order %llu: feature %d is reported wrongly", (unsigned long long)i, ok - 2);
        if(c.want) c.note("queries %llu", (unsigned long long)i);
    });
    if(!__builtin_cpu_supports("avx2") || !__builtin_cpu_supports(NEED)) return run.finish(); // nothing can be executed here
    std::vector<i128> extra;
    for(int k = 1; k <= (run.thorough ? 2000000 : 200000); ++k)
        for(int s = -1; s <= 1; s += 2)
            for(int d = -2; d <= 2; ++d) extra.push_back(s * (TWO_PI * k + d));
    // multiples spread over the whole range
    for(i128 k = 1; k * TWO_PI < Fm<f64>::hi; k += 1 + k / 3000)
        for(int s = -1; s <= 1; s += 2)
            for(int d = -2; d <= 2; ++d) extra.push_back(s * (TWO_PI * k + d));
    const auto V = naf<f64>(3, extra);
    run.space("angles, one value and its neighbours of the alphabet in the lanes", V.size(), [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const size_t n = V.size();
        const int64_t x[4] = {(int64_t)V[i], (int64_t)V[(i + 1) % n], (int64_t)V[(i + n / 3) % n], (int64_t)V[(i + n / 2) % n]};
        four(c, x);
        if(c.want) c.note("%s", SH(f64, x[0]));
    });
    const auto W = naf<f64>(1, {TWO_PI, TWO_PI - 1, -TWO_PI, 1 - TWO_PI, 3 * TWO_PI + 17, -12345678901});
    const uint64_t m = W.size();
    run.space("all pairs of values in lanes 0/1 and 2/3", m * m, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const int64_t a = (int64_t)W[i % m], b = (int64_t)W[i / m];
        const int64_t x[4] = {a, b, b, a}, y[4] = {a, a, b, b};
        four(c, x);
        four(c, y);
        if(c.want) c.note("%s and %s", SH(f64, a), SH(f64, b));
    });
    run.space("lattice over the whole range", uint64_t(1) << (run.thorough ? 32 : 27), [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const uint64_t step = run.thorough ? (1ull << 32) - 12345 : (1ull << 37) - 987653;
        const int64_t x[4] = {(int64_t)(i * step), (int64_t)(i * step + step / 2), (int64_t)~(i * step), (int64_t)(i * 3)};
        four(c, x);
        if(c.want) c.note("%s", SH(f64, x[0]));
    });
    // within one turn of 0, every raw value of a dense window
    run.space("every raw value around one turn", 1 << 22, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const int64_t o = int64_t(i) - (1 << 21);
        const int64_t x[4] = {o, int64_t(TWO_PI) + o, -int64_t(TWO_PI) + o, 5 * int64_t(TWO_PI) + o};
        four(c, x);
    });
    return run.finish();
}
