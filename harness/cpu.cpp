// C22, feature queries on every kind of processor: the instruction that asks the processor is replaced by a
// model of a processor (highest leaf, the six feature bits, the bits around them, what an unspecified
// sub-leaf register happens to hold), and every such processor is asked in several orders.
#include "mc.hpp"
#include <cpuid.h>

struct Cpu { unsigned feature, others, max_leaf, leftover; };
static Cpu cpu;
static bool asked[2]; // leaf 1, leaf 7 (or the compiler's own feature query) went through the model
static constexpr int LEAF[6] = {1, 1, 1, 7, 7, 7}, BIT[6] = {26, 20, 28, 5, 16, 17};
static constexpr char REG[6] = {'d', 'c', 'c', 'b', 'b', 'b'};
static void fake(unsigned leaf, unsigned sub, unsigned& a, unsigned& b, unsigned& c, unsigned& d)
{
    const unsigned noise = cpu.others ? ~0u : 0;
    a = b = c = d = noise;
    if(leaf == 0) { a = cpu.max_leaf; b = 0x756e6547; d = 0x49656e69; c = 0x6c65746e; return; }
    if(leaf == 0x80000000u) { a = 0x80000008u; return; }
    if(leaf == 1) asked[0] = true;
    if(leaf == 7) asked[1] = true;
    if(leaf > cpu.max_leaf && leaf < 0x80000000u) return; // whatever the highest leaf says
    if(leaf == 7) a = 1;
    for(int k = 0; k < 6; ++k)
    {
        if(leaf != (unsigned)LEAF[k]) continue;
        const bool on = cpu.feature >> k & 1;
        unsigned& r = REG[k] == 'b' ? b : REG[k] == 'c' ? c : d;
        // another sub-leaf has nothing to do with these features
        const bool shown = leaf == 7 && sub != 0 ? !on : on;
        r = (r & ~(1u << BIT[k])) | unsigned(shown) << BIT[k];
    }
}
static bool has(int k) { return (cpu.feature >> k & 1) && (unsigned)LEAF[k] <= cpu.max_leaf; }
static unsigned fake_max(unsigned ext, unsigned* sig) { if(sig) *sig = 0x756e6547; return ext ? 0x80000008u : cpu.max_leaf; }
static int fake_get(unsigned leaf, unsigned sub, unsigned* a, unsigned* b, unsigned* c, unsigned* d)
{
    if(fake_max(leaf & 0x80000000u, nullptr) < leaf)
    {
        if(leaf == 7) asked[1] = true;
        return 0;
    }
    fake(leaf, sub, *a, *b, *c, *d);
    return 1;
}
static int fake_supports(const char* n)
{
    static const char* N[6] = {"sse2", "sse4.2", "avx", "avx2", "avx512f", "avx512dq"};
    for(int k = 0; k < 6; ++k)
        if(!strcmp(n, N[k])) { asked[k >= 3] = true; return has(k); }
    return cpu.others;
}
static void fake_msvc(int* r, int leaf, int sub) { unsigned a, b, c, d; fake(leaf, sub, a, b, c, d); r[0] = a; r[1] = b; r[2] = c; r[3] = d; }
// the library's header sees these instead
#undef __cpuid
#undef __cpuid_count
#define __cpuid(l, a, b, c, d) fake(l, cpu.leftover, a, b, c, d)
#define __cpuid_count(l, s, a, b, c, d) fake(l, s, a, b, c, d)
#define __cpuidex(r, l, s) fake_msvc(r, l, s)
#define __get_cpuid_max fake_max
#define __get_cpuid(l, a, b, c, d) fake_get(l, cpu.leftover, a, b, c, d)
#define __get_cpuid_count(l, s, a, b, c, d) fake_get(l, s, a, b, c, d)
#define __builtin_cpu_init() 0
#define __builtin_cpu_supports(n) fake_supports(n)
#include <eirin/eirin.hpp>
#include <array>
#include <eirin/ext/simd_math.hpp>

static bool claims(int which)
{
    using S = eirin::simd::platform_support;
    switch(which)
    {
    case 0: return S::supports_sse2();
    case 1: return S::supports_sse4_2();
    case 2: return S::supports_avx();
    case 3: return S::supports_avx2();
    case 4: return S::supports_avx512_f();
    default: return S::supports_avx512_dq();
    }
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, "C22");
    static const unsigned MAX[] = {1, 6, 7, 13, 0x20};
    static const char* NAME[6] = {"sse2", "sse4.2", "avx", "avx2", "avx512f", "avx512dq"};
    // all 64 sets of features x other bits clear or set x highest leaf x leftover sub-leaf x the first query
    run.space("feature queries on every processor", 64ull * 2 * 5 * 2 * 6, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        cpu = {unsigned(i % 64), unsigned(i / 64 % 2), MAX[i / 128 % 5], unsigned(i / 640 % 2)};
        const int first = int(i / 1280);
        int p[2];
        if(pipe(p)) { c.fail("pipe"); return; }
        fflush(nullptr);
        const pid_t q = fork();
        if(q == 0)
        {
            char r[8];
            for(int k = 0; k < 6; ++k) { const int w = (first + k) % 6; r[w] = claims(w); }
            r[6] = asked[0];
            r[7] = asked[1];
            (void)!write(p[1], r, 8);
            _exit(0);
        }
        char r[8];
        close(p[1]);
        const bool got = read(p[0], r, 8) == 8;
        close(p[0]);
        waitpid(q, nullptr, 0);
        if(!got) { c.fail("the program ended while asking for the features"); return; }
        for(int k = 0; k < 6; ++k)
            if(r[6 + (k >= 3)]) // otherwise the processor was asked in some other way
                MC_CHECK(c, bool(r[k]) == has(k), "on a processor whose highest cpuid leaf is %u, with%s %s (features %#x, other bits %s), platform_support says %s", cpu.max_leaf, has(k) ? "" : "out", NAME[k], cpu.feature, cpu.others ? "set" : "clear", r[k] ? "yes" : "no");
        if(c.want) c.note("features %#x, highest leaf %u, first query %d", cpu.feature, cpu.max_leaf, first);
    });
    return run.finish();
}
