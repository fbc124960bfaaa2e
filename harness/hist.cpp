// C25: the outcome of a call depends on its arguments only: not on earlier calls, not on the state
// of the process (stack and heap contents, floating-point mode, global locale, errno).
// A history = an environment and a sequence of calls, executed in a fresh process; every outcome is
// compared with that of the same call made alone in a fresh process in the default environment.
#include "mc.hpp"
#include "ops.hpp"
#include <cerrno>
#include <cfenv>
#include <locale>
#include <malloc.h>
#include <xmmintrin.h>

static const int VARS = 3, CAP = 1200;
struct Page { char out[4][CAP]; int done; };
static Page* page;
static std::string alone[ops::count][VARS];

struct Comma : std::numpunct<char>
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1\2\3"; }
    std::string do_truename() const override { return "ja"; }
};
struct WComma : std::numpunct<wchar_t>
{
    wchar_t do_decimal_point() const override { return L','; }
    wchar_t do_thousands_sep() const override { return L'\''; }
    std::string do_grouping() const override { return "\1\2\3"; }
};
static const char* ENVS[] = {"default", "stack and heap filled with 0xff", "stack and heap filled with 0x55", "global locale with , and grouping", "errno set", "rounding up", "rounding down", "rounding to zero", "denormals flushed"};
static const int NENV = sizeof ENVS / sizeof ENVS[0];
static int fill = -1;
__attribute__((noinline)) static void paint(int v)
{
    volatile char b[48 * 1024];
    for(size_t i = 0; i < sizeof b; ++i) b[i] = (char)v;
}
static void enter(int env)
{
    switch(env)
    {
    case 1: fill = 0xff; mallopt(M_PERTURB, 0x00); break; // malloc fills with the complement
    case 2: fill = 0x55; mallopt(M_PERTURB, 0xaa); break;
    case 3: std::locale::global(std::locale(std::locale(std::locale::classic(), new Comma), new WComma)); break;
    case 4: errno = ERANGE; break;
    case 5: fesetround(FE_UPWARD); break;
    case 6: fesetround(FE_DOWNWARD); break;
    case 7: fesetround(FE_TOWARDZERO); break;
    case 8: _mm_setcsr(_mm_getcsr() | 0x8040); break;
    }
}
struct H { int env, n, op[4], var[4]; };
static std::string describe(const H& h)
{
    std::string s = ENVS[h.env];
    s += ": ";
    for(int k = 0; k < h.n; ++k) s += std::string(k ? "; " : "") + ops::all[h.op[k]].name + "#" + std::to_string(h.var[k]);
    return s;
}
// returns an empty string, or why the process did not finish
static std::string execute(const H& h)
{
    if(!page) page = (Page*)mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    page->done = 0;
    const pid_t p = fork();
    if(p == 0)
    {
        alarm(100);
        enter(h.env);
        for(int k = 0; k < h.n; ++k)
        {
            if(fill >= 0) paint(fill);
            ops::Out o;
            o.b[0] = 0;
            ops::all[h.op[k]].run(o, h.var[k]);
            memcpy(page->out[k], o.b, o.n + 1);
            page->done = k + 1;
        }
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if(WIFSIGNALED(st)) return std::string("the program ends with ") + strsignal(WTERMSIG(st)) + " in call " + std::to_string(page->done + 1);
    if(WEXITSTATUS(st) != 0) return "the program exits with status " + std::to_string(WEXITSTATUS(st));
    return "";
}
static void judge(mc::Ctx& c, const H& h)
{
    ++c.valid;
    for(int k = 0; k < h.n; ++k)
        if(alone[h.op[k]][h.var[k]].empty())
        {
            H a{0, 1, {h.op[k]}, {h.var[k]}};
            const std::string w = execute(a);
            if(!w.empty()) { c.fail("%s: %s", describe(a).c_str(), w.c_str()); return; }
            alone[h.op[k]][h.var[k]] = page->out[0];
        }
    const std::string w = execute(h);
    if(!w.empty()) { c.fail("%s: %s", describe(h).c_str(), w.c_str()); return; }
    for(int k = 0; k < h.n; ++k)
    {
        const std::string& e = alone[h.op[k]][h.var[k]];
        MC_CHECK(c, e == page->out[k], "%s: call %d gives \"%s\" but alone in a fresh process \"%s\"", describe(h).c_str(), k + 1, page->out[k], e.c_str());
    }
    if(c.want) c.note("%s: \"%s\"", describe(h).c_str(), page->out[h.n - 1]);
}

static void repeat(mc::Ctx& c, const H& h, int times)
{
    for(int k = 0; k < h.n; ++k)
    {
        H a{0, 1, {h.op[k]}, {h.var[k]}};
        judge(c, a);
        if(c.failed) return;
    }
    page->done = -1;
    const pid_t p = fork();
    if(p == 0)
    {
        alarm(200);
        for(int t = 0; t < times; ++t)
        {
            ops::Out o;
            o.b[0] = 0;
            ops::all[h.op[t % 2]].run(o, h.var[t % 2]);
            if(alone[h.op[t % 2]][h.var[t % 2]] != o.b) { memcpy(page->out[0], o.b, o.n + 1); page->done = t; _exit(0); }
        }
        page->done = times;
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if(page->done == times) { c.trans += times; return; }
    if(page->done < 0) { c.fail("%s, alternating: %s", describe(h).c_str(), WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exits"); return; }
    const int k = page->done % 2;
    c.fail("%s, alternating: call %d gives \"%s\" but alone in a fresh process \"%s\"", describe(h).c_str(), page->done + 1, page->out[0], alone[h.op[k]][h.var[k]].c_str());
}

// ---- every pair of arguments of one function ------------------------------------------------
// (a result remembered for an argument that is only similar, a buffer kept from the last call ...)
static uint64_t hash(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for(unsigned char ch : s) h = (h ^ ch) * 1099511628211ull;
    return h;
}
template <class T, class I, unsigned f, bool r>
static uint64_t u(eirin::fixed_num<T, I, f, r> x) { return (uint64_t)x.internal_value(); }
static uint64_t u(double x) { uint64_t v; memcpy(&v, &x, 8); return v; }
static uint64_t u(uint64_t x) { return x; }
static uint64_t u(const std::string& s) { return hash(s); }
struct Fn { std::string name; std::vector<int64_t> args; uint64_t (*call)(int64_t); };
static std::vector<Fn> fns;
template <class F>
static std::vector<int64_t> arguments()
{
    using T = typename F::value_type;
    std::vector<int64_t> v;
    auto add = [&](int64_t x) { if((int64_t)(T)x == x && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); };
    for(int k = 0; k < int(sizeof(T)) * 8; ++k)
        for(int d = -1; d <= 1; ++d)
            for(int sign = -1; sign <= 1; sign += 2) add(sign * int64_t((uint64_t(1) << k) + d));
    for(double x : {0.7, -0.7, 2.6875, 5.3, -1.25, 9.0, 3.3, -0.6, 11.75, 1.5, 0.1, 100.5, -33.3})
        for(int d = -4; d <= 4; ++d) add((int64_t)F(x).internal_value() + d);
    return v;
}
#define FN(NAME, ...) fns.push_back({std::string(NAME) + " " + tag, args, [](int64_t a) -> uint64_t { \
    const F x = F::from_internal_value((typename F::value_type)a); (void)x; \
    try { return u(__VA_ARGS__); } catch(const std::exception& e) { return hash(e.what()) ^ 1; } }})
template <class F>
static void functions(const char* tag)
{
    using namespace eirin;
    const auto args = arguments<F>();
    FN("sin", sin(x)); FN("cos", cos(x)); FN("tan", tan(x)); FN("atan", atan(x)); FN("asin", asin(x)); FN("acos", acos(x));
    FN("sqrt", sqrt(x)); FN("cbrt", cbrt(x)); FN("log", log(x)); FN("log2", log2(x)); FN("log10", log10(x)); FN("exp", exp(x));
    FN("floor", floor(x)); FN("ceil", ceil(x)); FN("trunc", trunc(x)); FN("round", round(x)); FN("abs", abs(x));
    FN("degrees", degrees(x)); FN("radians", radians(x)); FN("pow 3", pow(x, 3)); FN("pow -2", pow(x, -2)); FN("pow 0.5", pow(x, F(0.5))); FN("pow of 1.5", pow(F(1.5), x));
    FN("product", x * F(1.25)); FN("quotient", x / F(1.25)); FN("reciprocal", x == F(0) ? F(0) : F(1) / x); FN("remainder", x % F(1.25)); FN("fmod", fmod(x, F(-1.25))); FN("hypot", hypot(x, F(1.25)));
    FN("hypot of three", hypot(x, F(1.25), F(-0.5)));
    FN("sum", x + F(1.25)); FN("difference", x - 3); FN("negative", -x); FN("divide", x.divide(F(0.75))); FN("divide by", x == F(0) ? F(0) : F(0.75).divide(x)); FN("integer quotient", x / 3); FN("integer product", 3 * x);
    FN("to double", (double)x); FN("to float", (double)(float)x); FN("to int", (uint64_t)(int64_t)x); FN("to fixed64", fixed64(x)); FN("to fixed32", fixed32(x));
    FN("hash", (uint64_t)fixed_hash<F>()(x)); FN("nearly equal", (uint64_t)x.nearly_eq(F(0.7))); FN("less", (uint64_t)(x < F(0.7)));
    FN("printed", [](F v) { std::ostringstream s; s << v; return s.str(); }(x)); FN("printed in hex", [](F v) { std::ostringstream s; s << std::hex << v; return s.str(); }(x));
    FN("printed in upper-case hex", [](F v) { std::ostringstream s; s << std::hex << std::uppercase << v; return s.str(); }(x)); FN("printed in octal", [](F v) { std::ostringstream s; s << std::oct << v << ' ' << v; return s.str(); }(x));
    FN("printed in binary", [](F v) { std::ostringstream s; s.unsetf(std::ios_base::basefield); s << v; return s.str(); }(x)); FN("printed padded", [](F v) { std::ostringstream s; s.width(40); s.fill('_'); s.setf(std::ios_base::left, std::ios_base::adjustfield); s << v << v; return s.str(); }(x));
    FN("printed without fraction", [](F v) { std::string s; F::copy_as_chars_to(v, std::back_inserter(s), 16, true); return s; }(x));
    FN("format X", std::format("{:X}", x)); FN("format b", std::format("{:#b}", x)); FN("format B", std::format("{:#B}", x)); FN("format o", std::format("{:#o}", x)); FN("format g", std::format("{:#.2G}", x)); FN("format d", std::format("{: d}", x)); FN("nested format", std::format("{:*>{}}", std::format("{:+}", x), 30)); FN("two formats", std::format("{0:X}{1:x}{0:F}{1:}", x, F(1.25)));
    FN("read twice", [](F v) { std::ostringstream s; s << v << "  x" << v; std::istringstream i(s.str()); F a(1), b(2); i >> a >> b; const uint64_t st = i.rdstate(); i.clear(); i.ignore(); i >> b; return (u(a) * 31 + u(b)) * 31 + st * 7 + i.rdstate(); }(x)); FN("read wide", [](F v) { std::ostringstream s; s << v; const std::string t = s.str(); std::wistringstream i(std::wstring(t.begin(), t.end())); F a(1); i >> a; return u(a) * 31 + i.rdstate(); }(x));
    FN("literal", [](F v) { std::ostringstream s; s << v; const std::string t = s.str(); return u(eirin::operator""_f32(t.data(), t.size())) * 31 + u(eirin::operator""_f64(t.data(), t.size())); }(x));
    FN("modf", [](F v) { F i(1); const F r = modf(v, i); return u(r) * 31 + u(i); }(x)); FN("counted", [](F v) { F w = v; ++w; w++; --w; w--; w += v; w -= 2; w *= F(0.5); w /= F(1.25); return u(w); }(x)); FN("sign", (uint64_t)signbit(x) + 2 * (x > F(3)) + 4 * (0.5 <= (double)x) + 8 * (bool)(x != F(0)));
    FN("engine text", [](F v) { pcg2014_64 q(u(v)); pcg2014 a((uint32_t)u(v)); std::ostringstream s; s << std::hex << q << ' ' << a; a.discard(3); s << a; return s.str(); }(x));
    FN("format", std::format("{}", x)); FN("format f", std::format("{:+012.3f}", x)); FN("format x", std::format("{:#x}", x)); FN("format raw", std::format("{:?}", x)); FN("wide format", [](F v) { const auto w = std::format(L"{:^12}", v); return std::string(w.begin(), w.end()); }(x));
    FN("read back", [](F v) { std::ostringstream s; s << v << " 3.5"; std::istringstream i(s.str()); F a(1), b(2); i >> a >> b; return u(a) * 31 + u(b); }(x));
    FN("parsed", [](F v) { std::ostringstream s; s << v; F a(1); const bool ok = fixed_from_cstring(s.str().c_str(), s.str().size(), a); return u(a) * 2 + ok; }(x));
    FN("io parsed", [](F v) { std::ostringstream s; s << v; fixed32 a(1), b(2); const std::string t = s.str(); const auto e = io::parse(std::string_view(t), a); const bool ok = f32_from_cstring(t.c_str(), t.size(), b); return (u(a) * 31 + u(b)) * 2 + ok + uint64_t(e - t.data()) * 1000003; }(x));
    FN("engine", [](F v) { pcg2014 p((uint32_t)u(v)); pcg2014_64 q(u(v)); const uint64_t a = p(), b = q(); return a * 31 + b; }(x));
    FN("distribution", [](F v) { pcg2014 p(5); const F w = v < F(0) ? (v == std::numeric_limits<F>::min() ? F(0) : -v) : v; fixed_int_distribution_adapter<F, std::uniform_int_distribution<int64_t>> d(F(0), w); const auto a = d(p), b = d(p); return u(a) * 31 + u(b); }(x));
    FN("adapter", [](F v) { fixed_random_engine_adapter<fixed32, pcg2014> e; e.discard(u(v)); fixed_distribution_adapter<F, std::uniform_int_distribution<int64_t>> d(F(0), F(1.25)); const auto a = e(); return u(a) * 31 + u(d(e)); }(x));
}
static void more_functions()
{
    using namespace eirin;
    {
        using F = fixed64;
        const char* tag = "fixed64";
        const auto args = arguments<F>();
        FN("cordic", cordic_sine(x)); FN("lut sin", util::lut::lut_calc_sin(x)); FN("lut sin 64", util::lut::lut_calc_sin<64>(x));
        FN("int128", (uint64_t)(int64_t)(ext::int128(a) + ext::int128(int64_t(77))));
        FN("eval_value", (uint64_t)util::eval_value<int64_t>(double(a < 0 ? 0 : a % 1000) / 7, 40));
#ifdef __AVX2__
        FN("simd", [](F v) { const auto r = simd::simd_reduce_angle({v, F(100.5), -F(7.25), v}); const auto q = simd::simd_reduce_angle_2({v, F(55.5)}); return ((u(r[0]) * 31 + u(r[1])) * 31 + u(r[2]) + u(r[3])) * 31 + u(q[0]) + u(q[1]) * 7; }(x));
#endif
    }
    {
        using F = fixed32;
        const char* tag = "fixed32";
        const auto args = arguments<F>();
        FN("cordic", cordic_sine(x));
    }
}
static uint64_t* answers; // of one function, filled in by fresh processes
static void argument_pairs(const Fn& f, mc::Ctx& c)
{
    const size_t n = f.args.size();
    if(!answers) answers = (uint64_t*)mmap(nullptr, 1 << 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for(size_t k = 0; k < n; ++k)
    {
        const pid_t p = fork();
        if(p == 0) { alarm(100); answers[k] = f.call(f.args[k]); _exit(0); }
        int st;
        waitpid(p, &st, 0);
        if(st != 0) { c.fail("%s with raw argument %lld ends the program", f.name.c_str(), (long long)f.args[k]); return; }
    }
    // in a process of its own, so that this one has still made no call
    uint64_t* const r = answers + n;
    r[0] = 0;
    const pid_t p = fork();
    if(p == 0)
    {
        alarm(300);
        for(size_t a = 0; a < n; ++a)
            for(size_t b = 0; b < n; ++b)
            {
                const uint64_t ra = f.call(f.args[a]), rb = f.call(f.args[b]);
                if(ra != answers[a] || rb != answers[b]) [[unlikely]] { r[1] = a; r[2] = b; r[3] = ra; r[4] = rb; r[0] = 2; _exit(0); }
            }
        r[0] = 1;
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if(r[0] == 2)
        c.fail("%s of raw %lld and then of raw %lld (after other pairs): %llx and %llx, but as the only calls of a fresh process %llx and %llx", f.name.c_str(), (long long)f.args[r[1]], (long long)f.args[r[2]], (unsigned long long)r[3], (unsigned long long)r[4], (unsigned long long)answers[r[1]], (unsigned long long)answers[r[2]]);
    else if(r[0] != 1) c.fail("%s ends the program after some calls", f.name.c_str());
    if(c.failed) return;
    c.valid += n * n;
    c.trans += 2 * n * n;
    c.states += n * n - 1;
    if(c.want) c.note("%s, all pairs of %zu arguments", f.name.c_str(), n);
}

// ---- every pair of functions ------------------------------------------------------------------
// (something remembered by one function and used by another, or for another format)
static std::vector<std::vector<uint64_t>> first_answers;
static std::vector<int64_t> shared_arguments()
{
    return {0, 1, -1, 255, -32768, 45875, -45875, 81920, 16384, 11, 3006477107, -3006477107, int64_t(11) << 30, 734003, 179, -320, 65536, 1048576, int64_t(1) << 32};
}
static int64_t nearest(const Fn& f, int64_t a)
{
    // narrower formats take the low part of it
    const bool in = a >= *std::min_element(f.args.begin(), f.args.end()) && a <= *std::max_element(f.args.begin(), f.args.end());
    return in ? a : a % 32768;
}
static void function_pairs(size_t first, mc::Ctx& c)
{
    static const auto V = shared_arguments();
    const size_t n = fns.size(), m = V.size();
    static uint64_t* r = (uint64_t*)mmap(nullptr, 1 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(first_answers.empty())
        for(size_t k = 0; k < n; ++k)
        {
            r[m] = 0;
            for(size_t j = 0; j < m; ++j)
            {
                const pid_t p = fork();
                if(p == 0) { alarm(100); r[j] = fns[k].call(nearest(fns[k], V[j])); ++r[m]; _exit(0); }
                int st;
                waitpid(p, &st, 0);
            }
            if(r[m] != m) { c.fail("%s ends the program", fns[k].name.c_str()); return; }
            first_answers.push_back({r, r + m});
        }
    r[0] = 0;
    const pid_t p = fork();
    if(p == 0)
    {
        alarm(300);
        for(size_t k = 0; k < n; ++k)
            for(size_t j = 0; j < m; ++j)
            {
                const Fn &a = fns[first], &b = fns[k];
                const uint64_t ra = a.call(nearest(a, V[j])), rb = b.call(nearest(b, V[j]));
                if(ra != first_answers[first][j] || rb != first_answers[k][j]) { r[1] = k; r[2] = j; r[3] = ra; r[4] = rb; r[0] = 2; _exit(0); }
            }
        r[0] = 1;
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if(r[0] == 2)
        c.fail("%s and then %s of raw %lld (after other calls): %llx and %llx, but as the only calls of a fresh process %llx and %llx", fns[first].name.c_str(), fns[r[1]].name.c_str(), (long long)V[r[2]], (unsigned long long)r[3], (unsigned long long)r[4], (unsigned long long)first_answers[first][r[2]], (unsigned long long)first_answers[r[1]][r[2]]);
    else if(r[0] != 1) c.fail("%s ends the program after other calls", fns[first].name.c_str());
    if(c.failed) return;
    c.valid += n * m;
    c.trans += 2 * n * m;
    c.states += n * m - 1;
    if(c.want) c.note("%s before each of %zu functions", fns[first].name.c_str(), n);
}

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, "C25");
    run.hang_secs = 200;
    run.hang_alone = 200;
    run.small_space = 2;
    const int n = ops::count, m = n * VARS;
    // the table of sines is computed with the C library's sin when it is first used, so it may depend on the rounding mode
    auto allowed = [](int env, int op) { return env < 5 || strcmp(ops::all[op].name, "lut sin") != 0; };
    run.space("one call in each environment", m * NENV, [&](uint64_t i, mc::Ctx& c) {
        H h{int(i / m), 1, {int(i % m) % n}, {int(i % m) / n}};
        if(allowed(h.env, h.op[0])) judge(c, h);
    });
    run.space("two calls in each environment", uint64_t(m) * m * NENV, [&](uint64_t i, mc::Ctx& c) {
        const int a = int(i % m), b = int(i / m % m);
        H h{int(i / m / m), 2, {a % n, b % n}, {a / n, b / n}};
        if(allowed(h.env, h.op[0]) && allowed(h.env, h.op[1])) judge(c, h);
    });
    // counters: a call repeated, alone or alternating with another one
    run.space("two calls alternating", uint64_t(m) * m, [&](uint64_t i, mc::Ctx& c) {
        const int a = int(i % m), b = int(i / m);
        H h{0, 2, {a % n, b % n}, {a / n, b / n}};
        const int times = a == b ? (run.thorough ? 70000 : 5000) : run.thorough ? 300 : 40;
        repeat(c, h, times);
    });
    run.space("three calls", uint64_t(m) * m * m, [&](uint64_t i, mc::Ctx& c) {
        const int a = int(i % m), b = int(i / m % m), d = int(i / m / m);
        H h{0, 3, {a % n, b % n, d % n}, {a / n, b / n, d / n}};
        judge(c, h);
    });
    functions<ops::f32>("fixed32");
    functions<ops::f64>("fixed64");
    functions<ops::q20>("q11.20");
    functions<ops::r32>("rounding q15.16");
    functions<ops::s16>("q7.8");
    more_functions();
    run.space("every pair of arguments of a function", fns.size(), [&](uint64_t i, mc::Ctx& c) { argument_pairs(fns[i], c); });
    run.space("every pair of functions", fns.size(), [&](uint64_t i, mc::Ctx& c) { function_pairs(i, c); });
    if(run.thorough)
        run.space("four calls", uint64_t(m) * m * n * n, [&](uint64_t i, mc::Ctx& c) {
            const int a = int(i % m), b = int(i / m % m), d = int(i / m / m % n), e = int(i / m / m / n);
            H h{0, 4, {a % n, b % n, d, e}, {a / n, b / n, 1, 2}};
            judge(c, h);
        });
    return run.finish();
}
