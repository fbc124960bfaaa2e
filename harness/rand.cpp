// C20 random engines: histories of operations against a model; C21 distributions: every answer of the source
#include "every.hpp"
#include <eirin/eirin.hpp>
#include <eirin/random.hpp>
#include <iomanip>
#include <sstream>
#include <random>

#ifndef PROP
#    define PROP 20
#endif
#ifndef PART
#    define PART 0
#endif
using f32 = eirin::fixed32;
using f64 = eirin::fixed64;

#if PROP == 20
// ---- the model: a seed and a position ---------------------------------------------------------
template <class U> struct Consts;
template <> struct Consts<uint32_t>
{
    static constexpr uint32_t mul = 0xB5297A4D, inc = 0x68E31DA4, mix = 0x1B56C4E9, xo = 0x92D68CA2;
};
template <> struct Consts<uint64_t>
{
    static constexpr uint64_t mul = 0x5851F42D4C957F2D, inc = 0x9E3779B97F4A7C15, mix = 0x94D049BB133111EB, xo = 0xBF58476D1CE4E5B9;
};
template <class U>
static inline U word(U seed, U pos)
{
    using K = Consts<U>;
    U v = U(pos * K::mul + seed);
    v = U((v ^ (v >> 8)) + K::inc);
    v = U(((v << 8) ^ v) * K::xo);
    v = U((v ^ (v >> 8)) * K::mix);
    return U((v & 0x7FFFFFFE) ^ (v >> 8));
}
template <class U>
struct PcgModel
{
    using result_type = U;
    U s = 0x89ABCD, k = 0;
    PcgModel() = default;
    explicit PcgModel(U x) : s(x) {}
    U operator()() { return word<U>(s, k++); }
    void seed() { s = 0x89ABCD; k = 0; }
    void seed(U x) { s = x; k = 0; }
    void seed(std::seed_seq& q)
    {
        std::vector<U> v(2);
        q.generate(v.begin(), v.end());
        s = v[0];
        k = v[1];
    }
    void discard(unsigned long long z) { k = U(k + U(z)); }
    bool operator==(const PcgModel& o) const { return s == o.s && k == o.k; }
    std::string text() const { return std::to_string(s) + " " + std::to_string(k); }
};
// the standard engines are their own model
template <class E>
struct StdModel : E
{
    using E::E;
    std::string text() const
    {
        std::ostringstream o;
        o << static_cast<const E&>(*this);
        return o.str();
    }
    void seed() { E::seed(); }
    void seed(typename E::result_type x) { E::seed(x); }
    void seed(std::seed_seq& q) { E::seed(q); }
};

template <class E>
static uint64_t draw(E& e)
{
    if constexpr(eirin::is_fixed_point_v<typename E::result_type>) return (uint64_t)(int64_t)e().internal_value();
    else return (uint64_t)e();
}
template <class E, class M>
static uint64_t draw_model(M& m)
{
    if constexpr(eirin::is_fixed_point_v<typename E::result_type>) return (uint64_t)(int64_t) static_cast<typename E::result_type::value_type>(m());
    else return (uint64_t)m();
}

// two engines a and b and every sequence of operations on them
enum Op { DRAW_A, DRAW_B, SEED0_A, SEED1_A, SEED2_B, SEQ_A, DISC0_A, DISC1_A, DISC5_B, DISCBIG_A, DISCMAX_B, COPY_AB, COPY_BA, SWAP, COPYCTOR, WRITE, NOPS };
static const char* op_name[] = {"a()", "b()", "a.seed()", "a.seed(1)", "b.seed(max)", "a.seed(seq)", "a.discard(0)", "a.discard(1)", "b.discard(5)", "a.discard(2^32+3)", "b.discard(2^64-1)", "b=a", "a=b", "swap(a,b)", "a=E(E(a))", "write a"};

template <class E, class M, bool big_discards>
static void history(mc::Ctx& c, uint64_t i, int depth, const std::vector<int>& ops)
{
    ++c.valid;
    const uint64_t i0 = i;
    E a, b;
    M ma, mb;
    auto hist = [&](int upto) {
        std::string s;
        uint64_t j = i0;
        for(int k = 0; k <= upto && k < depth; ++k) { s += std::string(k ? ", " : "") + op_name[ops[j % ops.size()]]; j /= ops.size(); }
        return s;
    };
    using R = typename M::result_type;
    for(int k = 0; k < depth; ++k)
    {
        const int op = ops[i % ops.size()];
        i /= ops.size();
        switch(op)
        {
        case DRAW_A: { const uint64_t w = draw_model<E>(ma), g = draw(a); MC_CHECK(c, g == w, "after %s the draw gave %llx, expected %llx", hist(k).c_str(), (unsigned long long)g, (unsigned long long)w); break; }
        case DRAW_B: { const uint64_t w = draw_model<E>(mb), g = draw(b); MC_CHECK(c, g == w, "after %s the draw gave %llx, expected %llx", hist(k).c_str(), (unsigned long long)g, (unsigned long long)w); break; }
        case SEED0_A:
            // the adapter's default seed argument is not available for every underlying engine's name
            a.seed();
            ma.seed();
            break;
        case SEED1_A: a.seed(1); ma.seed(R(1)); break;
        case SEED2_B: b.seed(std::numeric_limits<R>::max()); mb.seed(std::numeric_limits<R>::max()); break;
        case SEQ_A: { std::seed_seq q1{1, 2, 3}, q2{1, 2, 3}; a.seed(q1); ma.seed(q2); break; }
        case DISC0_A: a.discard(0); ma.discard(0); break;
        case DISC1_A: a.discard(1); ma.discard(1); break;
        case DISC5_B: b.discard(5); mb.discard(5); break;
        case DISCBIG_A: if constexpr(big_discards) { a.discard((1ull << 32) + 3); ma.discard((1ull << 32) + 3); } break;
        case DISCMAX_B: if constexpr(big_discards) { b.discard(~0ull); mb.discard(~0ull); } break;
        case COPY_AB: b = a; mb = ma; break;
        case COPY_BA: a = b; ma = mb; break;
        case SWAP: std::swap(a, b); std::swap(ma, mb); break;
        case COPYCTOR: { E t(a); E u(std::move(t)); (void)draw(t); a = u; break; }
        case WRITE:
        {
            std::ostringstream o;
            o << std::hex << std::showbase << std::right << std::setfill('*');
            const auto fl = o.flags();
            o << a;
            MC_CHECK(c, o.str() == ma.text(), "after %s the engine is written as %s, expected %s", hist(k).c_str(), o.str().c_str(), ma.text().c_str());
            MC_CHECK(c, o.flags() == fl && o.fill() == '*', "after %s writing the engine changed the stream's flags", hist(k).c_str());
            break;
        }
        }
        MC_CHECK(c, (a == b) == (ma == mb) && (a != b) == !(ma == mb), "after %s a==b is %d, expected %d", hist(k).c_str(), int(a == b), int(ma == mb));
        if(c.failed) return;
    }
    for(int k = 0; k < 2; ++k)
    {
        const uint64_t w = draw_model<E>(ma), g = draw(a), w2 = draw_model<E>(mb), g2 = draw(b);
        MC_CHECK(c, g == w && g2 == w2, "after %s the draws gave %llx and %llx, expected %llx and %llx", hist(depth).c_str(), (unsigned long long)g, (unsigned long long)g2, (unsigned long long)w, (unsigned long long)w2);
    }
    if(c.want) c.note("%s", hist(depth).c_str());
}
template <class E, class M, bool big>
static void histories(mc::Run& run, const std::string& name, int depth)
{
    std::vector<int> ops;
    for(int k = 0; k < NOPS; ++k)
        if(big || (k != DISCBIG_A && k != DISCMAX_B)) ops.push_back(k);
    uint64_t n = 1;
    for(int k = 0; k < depth; ++k) n *= ops.size();
    run.space("histories of " + std::to_string(depth) + " operations on " + name, n, [&](uint64_t i, mc::Ctx& c) { history<E, M, big>(c, i, depth, ops); });
}
template <class U, class E>
static void words(mc::Run& run, const std::string& name, const std::vector<U>& seeds, uint64_t n)
{
    // position by position in one engine per chunk, and freshly seeded with discard at every 4096th
    run.space("words of " + name, seeds.size() * n, [&](uint64_t i, mc::Ctx& c) {
        static E e;
        static uint64_t at = ~0ull;
        const U s = seeds[i / n];
        const uint64_t k = i % n;
        ++c.valid;
        if(at != i || k % 4096 == 0)
        {
            e.seed(s);
            e.discard(k);
        }
        const U got = e();
        at = i + 1;
        if(at % n == 0) at = ~0ull;
        MC_CHECK(c, got == word<U>(s, U(k)), "word %llu of %s seeded with %llx is %llx, expected %llx", (unsigned long long)k, name.c_str(), (unsigned long long)s, (unsigned long long)got, (unsigned long long)word<U>(s, U(k)));
        MC_CHECK(c, got >= E::min() && got <= E::max(), "word %llu of %s seeded with %llx is %llx, outside of [min(), max()]", (unsigned long long)k, name.c_str(), (unsigned long long)s, (unsigned long long)got);
        if(c.want) c.note("word %llu of %s seeded with %llx is %llx", (unsigned long long)k, name.c_str(), (unsigned long long)s, (unsigned long long)got);
    });
}
// every seed of the 32 bit engine, the first words through the constructor
// writing to a stream with every combination of format flags, 4 fill characters and 2 precisions
template <class E, class M, class Ch>
static void written(mc::Run& run, const std::string& name)
{
    run.space("written with all flags, " + name + (sizeof(Ch) > 1 ? " (wide)" : ""), uint64_t(32768) * 4 * 2, [&](uint64_t i, mc::Ctx& c) {
        using B = std::ios_base;
        static const B::fmtflags all[] = {B::boolalpha, B::dec, B::fixed, B::hex, B::internal, B::left, B::oct, B::right, B::scientific, B::showbase, B::showpoint, B::showpos, B::skipws, B::unitbuf, B::uppercase};
        static const char fills[] = {' ', '*', '0', '-'};
        B::fmtflags fl{};
        for(int k = 0; k < 15; ++k)
            if(i >> k & 1) fl |= all[k];
        const Ch fill = Ch(fills[i >> 15 & 3]);
        const int prec = i >> 17 ? 6 : 0;
        using V = decltype(M().s);
        E e;
        M m;
        e.seed(V(i * 0x9E3779B97F4A7C15u));
        m.seed(V(i * 0x9E3779B97F4A7C15u));
        e.discard(i % 3 * 1000);
        m.discard(i % 3 * 1000);
        std::basic_ostringstream<Ch> o;
        o.flags(fl);
        o.fill(fill);
        o.precision(prec);
        auto* ret = &(o << e);
        const std::string want = m.text();
        ++c.valid;
        MC_CHECK(c, o.str() == std::basic_string<Ch>(want.begin(), want.end()), "%s written with flags %x is not %s", name.c_str(), unsigned(fl), want.c_str());
        MC_CHECK(c, o.flags() == fl && o.fill() == fill && o.precision() == prec && o.width() == 0 && o.good() && ret == &o, "writing %s with flags %x changed the stream", name.c_str(), unsigned(fl));
        MC_CHECK(c, (uint64_t)e() == (uint64_t)m(), "writing %s changed it", name.c_str());
        if(c.want) c.note("%s with flags %x", want.c_str(), unsigned(fl));
    });
}
static void go(mc::Run& run)
{
    written<eirin::pcg2014, PcgModel<uint32_t>, char>(run, "pcg2014");
    written<eirin::pcg2014, PcgModel<uint32_t>, wchar_t>(run, "pcg2014");
    written<eirin::pcg2014_64, PcgModel<uint64_t>, char>(run, "pcg2014_64");
    written<eirin::pcg2014_64, PcgModel<uint64_t>, wchar_t>(run, "pcg2014_64");
    using A32 = eirin::fixed_random_engine_adapter<f32, eirin::pcg2014>;
    using A64 = eirin::fixed_random_engine_adapter<f64, eirin::pcg2014_64>;
    using AM = eirin::fixed_random_engine_adapter<f32, eirin::mt19937>;
    using AN = eirin::fixed_random_engine_adapter<f32, eirin::pcg2014_64>;
    using AS = eirin::fixed_random_engine_adapter<i16<8>, eirin::pcg2014>;
    using AU = eirin::fixed_random_engine_adapter<u32<16>, eirin::pcg2014>;
    const int d = run.thorough ? 6 : 5;
    histories<eirin::pcg2014, PcgModel<uint32_t>, true>(run, "pcg2014", run.thorough ? 7 : 6);
    histories<eirin::pcg2014_64, PcgModel<uint64_t>, true>(run, "pcg2014_64", d);
    histories<A32, PcgModel<uint32_t>, true>(run, "adapter of fixed32 and pcg2014", d);
    histories<A64, PcgModel<uint64_t>, true>(run, "adapter of fixed64 and pcg2014_64", d);
    histories<AN, PcgModel<uint64_t>, true>(run, "adapter of fixed32 and pcg2014_64", 4);
    histories<AS, PcgModel<uint32_t>, true>(run, "adapter of i16f8 and pcg2014", 4);
    histories<AU, PcgModel<uint32_t>, true>(run, "adapter of u32f16 and pcg2014", 4);
    histories<AM, StdModel<std::mt19937>, false>(run, "adapter of fixed32 and mt19937", run.thorough ? 4 : 3);
    // all positions of one period with one seed is all states there are for the output function
    words<uint32_t, eirin::pcg2014>(run, "pcg2014", {0}, uint64_t(1) << 32);
    std::vector<uint32_t> s32;
    for(i128 v : naf<u32<16>>(2)) s32.push_back((uint32_t)v);
    words<uint32_t, eirin::pcg2014>(run, "pcg2014 (many seeds)", s32, 20000);
    std::vector<uint64_t> s64;
    for(i128 v : naf<u64<32>>(2)) s64.push_back((uint64_t)v);
    words<uint64_t, eirin::pcg2014_64>(run, "pcg2014_64 (many seeds)", s64, run.thorough ? 200000 : 20000);
    run.space("constructed with a seed", uint64_t(1) << (run.thorough ? 32 : 28), [&](uint64_t i, mc::Ctx& c) {
        const uint32_t s = run.thorough ? uint32_t(i) : uint32_t(i * 15 + 3);
        ++c.valid;
        eirin::pcg2014 e(s);
        const uint32_t w0 = e(), w1 = e();
        MC_CHECK(c, w0 == word<uint32_t>(s, 0) && w1 == word<uint32_t>(s, 1), "pcg2014(%x) starts with %x %x", s, w0, w1);
    });
    run.space("seed sequences", 4096, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        std::vector<uint32_t> v;
        for(uint64_t j = i; j; j /= 8) v.push_back(uint32_t(j % 8) * 0x12345679u);
        std::seed_seq q1(v.begin(), v.end()), q2(v.begin(), v.end()), q3(v.begin(), v.end()), q4(v.begin(), v.end());
        eirin::pcg2014 e;
        PcgModel<uint32_t> m;
        e.seed(q1);
        m.seed(q2);
        eirin::pcg2014_64 e2;
        PcgModel<uint64_t> m2;
        e2.seed(q3);
        m2.seed(q4);
        for(int k = 0; k < 4; ++k)
        {
            MC_CHECK(c, e() == m(), "pcg2014 seeded with sequence %llu differs at word %d", (unsigned long long)i, k);
            MC_CHECK(c, e2() == m2(), "pcg2014_64 seeded with sequence %llu differs at word %d", (unsigned long long)i, k);
        }
    });
}
#endif

#if PROP == 21
// a source of random bits that answers what the enumeration says (then repeats the last answer)
template <class U, U HI>
struct Source
{
    using result_type = U;
    const std::vector<U>* ans;
    size_t used = 0;
    bool over = false;
    static constexpr U min() { return 0; }
    static constexpr U max() { return HI; }
    static inline const std::vector<U>* shared = nullptr; // for default construction inside of the adapter
    Source() : ans(shared) {}
    explicit Source(const std::vector<U>* a) : ans(a) {}
    U operator()()
    {
        if(used < ans->size()) return (*ans)[used++];
        // beyond the enumerated answers: count downwards, so that no rejection loop lasts
        over = true;
        return U(HI / 2 - (used++ - ans->size()) * 12345);
    }
};
template <class F, class D, class S, class P>
static void one_draw(mc::Ctx& c, P& dist, S& src, i128 a, i128 b, const char* what)
{
    D ref((typename D::result_type)a, (typename D::result_type)b);
    S copy = src;
    const i128 want = (i128)ref(copy);
    const i128 got = val(dist(src));
    MC_CHECK(c, got >= a && got <= b, "%s over [%s, %s] gave raw %s", what, SH(F, a), SH(F, b), str(got).c_str());
    MC_CHECK(c, got == want && src.used == copy.used, "%s over [%s, %s] gave raw %s, the integer distribution gives %s", what, SH(F, a), SH(F, b), str(got).c_str(), str(want).c_str());
}
template <class F, class D, class U, U HI>
static void all_answers(mc::Run& run, const std::vector<i128>& V, const std::vector<U>& A, int len, const std::string& name)
{
    using S = Source<U, HI>;
    using P1 = eirin::fixed_int_distribution_adapter<F, D>;
    using P2 = eirin::fixed_distribution_adapter<F, D>;
    std::vector<std::pair<i128, i128>> R;
    for(i128 a : V)
        for(i128 b : V)
            if(a <= b && Fm<F>::fits(a) && Fm<F>::fits(b)) R.push_back({a, b});
    uint64_t na = 1;
    for(int k = 0; k < len; ++k) na *= A.size();
    run.space("answers of the source, " + name + " " + Fm<F>::name(), na * R.size(), [&](uint64_t i, mc::Ctx& c) {
        const auto [a, b] = R[i / na];
        i %= na;
        std::vector<U> ans;
        for(int k = 0; k < len; ++k) { ans.push_back(A[i % A.size()]); i /= A.size(); }
        ++c.valid;
        const F fa = raw<F>(a), fb = raw<F>(b);
        P1 d1(fa, fb);
        S s1(&ans);
        one_draw<F, D>(c, d1, s1, a, b, "fixed_int_distribution_adapter");
        MC_CHECK(c, val(d1.a()) == a && val(d1.b()) == b && val(d1.min()) == a && val(d1.max()) == b, "the distribution forgot its range [%s, %s]", SH(F, a), SH(F, b));
        // a range given with the call is used for that call only
        const auto [a2, b2] = R[(i * 7 + ans[0] % 997) % R.size()];
        S s2(&ans), s3 = s2;
        D ref((typename D::result_type)a2, (typename D::result_type)b2);
        const i128 w = (i128)ref(s3), g = val(d1(s2, typename P1::param_type(raw<F>(a2), raw<F>(b2))));
        MC_CHECK(c, g >= a2 && g <= b2 && g == w, "a draw from [%s, %s] of a distribution over [%s, %s] gave raw %s, expected %s", SH(F, a2), SH(F, b2), SH(F, a), SH(F, b), str(g).c_str(), str(w).c_str());
        MC_CHECK(c, val(d1.a()) == a && val(d1.b()) == b, "a draw with its own range changed the distribution's range");
        S s4(&ans);
        one_draw<F, D>(c, d1, s4, a, b, "fixed_int_distribution_adapter after a draw with another range");
        // a changed range stays
        typename P1::param_type p2(raw<F>(a2), raw<F>(b2));
        d1.param(p2);
        MC_CHECK(c, d1.param() == p2 && !(d1.param() != p2) && val(d1.a()) == a2 && val(d1.b()) == b2, "param() was not stored");
        S s5(&ans);
        one_draw<F, D>(c, d1, s5, a2, b2, "fixed_int_distribution_adapter after param()");
        d1.reset();
        S s6(&ans);
        P1 d1c(d1.param());
        one_draw<F, D>(c, d1c, s6, a2, b2, "fixed_int_distribution_adapter of a param_type");
        if(c.want) c.note("[%s, %s], first answer %llu: raw %s", SH(F, a), SH(F, b), (unsigned long long)ans[0], str(g).c_str());
    });
    (void)sizeof(P2);
}
// the second adapter draws from an engine adapter
template <class F, class D, class E>
static void through_engine(mc::Run& run, const std::vector<i128>& V, const std::string& name)
{
    using P2 = eirin::fixed_distribution_adapter<F, D>;
    using EA = eirin::fixed_random_engine_adapter<F, E>;
    std::vector<std::pair<i128, i128>> R;
    for(i128 a : V)
        for(i128 b : V)
            if(a <= b) R.push_back({a, b});
    run.space("draws through an engine adapter, " + name + " " + Fm<F>::name(), R.size() * 8, [&](uint64_t i, mc::Ctx& c) {
        const auto [a, b] = R[i / 8];
        const auto [a2, b2] = R[(i * 31) % R.size()];
        const uint32_t seed = uint32_t(i % 8) * 0x9E3779B9u + 1;
        ++c.valid;
        EA ea;
        ea.seed(seed);
        E e(seed);
        P2 d(raw<F>(a), raw<F>(b));
        D ref((typename D::result_type)a, (typename D::result_type)b), ref2((typename D::result_type)a2, (typename D::result_type)b2);
        for(int k = 0; k < 4; ++k)
        {
            const i128 w = (i128)ref(e), g = val(d(ea));
            MC_CHECK(c, g >= a && g <= b && g == w, "draw %d from [%s, %s] gave raw %s, expected %s", k, SH(F, a), SH(F, b), str(g).c_str(), str(w).c_str());
            const i128 w2 = (i128)ref2(e), g2 = val(d(ea, typename P2::param_type(raw<F>(a2), raw<F>(b2))));
            MC_CHECK(c, g2 >= a2 && g2 <= b2 && g2 == w2, "draw %d from [%s, %s] (range of the call) gave raw %s, expected %s", k, SH(F, a2), SH(F, b2), str(g2).c_str(), str(w2).c_str());
        }
        MC_CHECK(c, val(d.a()) == a && val(d.b()) == b && val(d.min()) == a && val(d.max()) == b, "the distribution forgot its range");
        typename P2::param_type p(raw<F>(a2), raw<F>(b2));
        MC_CHECK(c, (p == d.param()) == (a == a2 && b == b2) && (p != d.param()) == !(a == a2 && b == b2), "comparison of ranges");
        d.param(p);
        d.reset();
        MC_CHECK(c, val(d.a()) == a2 && val(d.b()) == b2 && d.param() == p, "param() was not stored");
        for(int k = 0; k < 2; ++k)
        {
            const i128 w2 = (i128)ref2(e), g2 = val(d(ea));
            MC_CHECK(c, g2 == w2, "after param() a draw from [%s, %s] gave raw %s, expected %s", SH(F, a2), SH(F, b2), str(g2).c_str(), str(w2).c_str());
        }
        P2 d3(p);
        const i128 w3 = (i128)ref2(e), g3 = val(d3(ea));
        MC_CHECK(c, g3 == w3, "a distribution made from a param_type gave raw %s, expected %s", str(g3).c_str(), str(w3).c_str());
        MC_CHECK(c, ea.__underlying_engine() == e, "the engine adapter advanced differently");
        if(c.want) c.note("[%s, %s]", SH(F, a), SH(F, b));
    });
}
// exact uniformity with a source of 256 (65536) equally likely answers
template <class F, class D, class U, U HI>
static void uniform(mc::Run& run)
{
    using S = Source<U, HI>;
    using P1 = eirin::fixed_int_distribution_adapter<F, D>;
    std::vector<std::pair<i128, i128>> R;
    for(uint64_t n = 1; n <= uint64_t(HI) + 1 && i128(n) <= Fm<F>::hi - Fm<F>::lo + 1; n += HI < 256 ? 1 : n < 100 ? 3 : n)
        for(i128 a : {Fm<F>::lo, i128(0), i128(-int64_t(n / 2)), Fm<F>::hi - i128(n) + 1, i128(3)})
            if(Fm<F>::fits(a) && Fm<F>::fits(a + i128(n) - 1)) R.push_back({a, a + i128(n) - 1});
    run.space("uniformity " + Fm<F>::name() + " from " + std::to_string(uint64_t(HI) + 1) + " answers", R.size(), [&](uint64_t i, mc::Ctx& c) {
        const auto [a, b] = R[i];
        std::map<i128, uint64_t> count;
        for(uint64_t x = 0; x <= HI; ++x)
        {
            const std::vector<U> ans = {U(x)};
            S s(&ans);
            P1 d(raw<F>(a), raw<F>(b));
            const i128 v = val(d(s));
            if(!s.over) ++count[v]; // a rejected answer takes part in a later round
        }
        ++c.valid;
        const uint64_t n = uint64_t(b - a + 1);
        MC_CHECK(c, count.size() == n, "[%s, %s]: %zu different values instead of %llu", SH(F, a), SH(F, b), count.size(), (unsigned long long)n);
        const uint64_t each = count.begin()->second;
        for(auto& [v, k] : count) MC_CHECK(c, v >= a && v <= b && k == each, "[%s, %s]: raw %s occurs %llu times in %llu answers, another value %llu times", SH(F, a), SH(F, b), str(v).c_str(), (unsigned long long)k, (unsigned long long)HI + 1, (unsigned long long)each);
        if(c.want) c.note("[%s, %s]", SH(F, a), SH(F, b));
    });
}
// every history of draws (with the distribution's range or one of the call), changes of the range, resets, copies and
// assignments of two distributions; the second adapter draws through an engine adapter
template <class F, class E, bool engine> struct Src { using type = E; };
template <class F, class E> struct Src<F, E, true> { using type = eirin::fixed_random_engine_adapter<F, E>; };
template <class F, class D, bool engine>
static void histories(mc::Run& run, std::vector<std::pair<i128, i128>> R, int depth)
{
    using P1 = std::conditional_t<engine, eirin::fixed_distribution_adapter<F, D>, eirin::fixed_int_distribution_adapter<F, D>>;
    using PT = typename P1::param_type;
    const int nr = int(R.size()), nops = 2 * (1 + 2 * nr + 1) + 3;
    uint64_t n = 1;
    for(int k = 0; k < depth; ++k) n *= nops;
    run.space("histories of two distributions" + std::string(engine ? " over an engine adapter, " : ", ") + Fm<F>::name(), n * (nr + 1), [&](uint64_t i, mc::Ctx& c) {
        const int r0 = int(i % (nr + 1)); // the range both start with; nr: the default one
        i /= nr + 1;
        i128 lo[2], hi[2];
        for(int d = 0; d < 2; ++d) { lo[d] = r0 == nr ? Fm<F>::lo : R[r0].first; hi[d] = r0 == nr ? Fm<F>::hi : R[r0].second; }
        P1 dist[2] = {r0 == nr ? P1() : P1(raw<F>(lo[0]), raw<F>(hi[0])), r0 == nr ? P1(PT()) : P1(PT(raw<F>(lo[0]), raw<F>(hi[0])))};
        using E = std::conditional_t<(Fm<F>::bits > 32), eirin::pcg2014_64, eirin::pcg2014>;
        typename Src<F, E, engine>::type src;
        src.seed(12345);
        E model(12345);
        std::string log;
        ++c.valid;
        auto draws = [&](i128 a, i128 b, F got, const char* what) {
            D ref((typename D::result_type)a, (typename D::result_type)b);
            const i128 w = (i128)ref(model);
            MC_CHECK(c, val(got) == w, "after%s: %s from [%s, %s] gave raw %s, expected %s", log.c_str(), what, SH(F, a), SH(F, b), str(val(got)).c_str(), str(w).c_str());
        };
        for(int k = 0; k < depth && !c.failed; ++k)
        {
            int op = int(i % nops);
            i /= nops;
            if(op < 2 * (2 + 2 * nr))
            {
                const int d = op % 2;
                op /= 2;
                if(op == 0) { draws(lo[d], hi[d], dist[d](src), "a draw"); log += " draw"; }
                else if(op == 1) { dist[d].reset(); log += " reset"; }
                else if(op < 2 + nr) { const auto [a, b] = R[op - 2]; draws(a, b, dist[d](src, PT(raw<F>(a), raw<F>(b))), "a draw with a range of its own"); log += " draw(range " + std::to_string(op - 2) + ")"; }
                else { const auto [a, b] = R[op - 2 - nr]; lo[d] = a; hi[d] = b; dist[d].param(PT(raw<F>(a), raw<F>(b))); log += " param(range " + std::to_string(op - 2 - nr) + ")"; }
                log += d ? " of the second" : " of the first";
            }
            else if(op == nops - 3) { dist[0] = dist[1]; lo[0] = lo[1]; hi[0] = hi[1]; log += " first = second"; }
            else if(op == nops - 2) { dist[1].param(dist[0].param()); lo[1] = lo[0]; hi[1] = hi[0]; log += " second.param(first.param())"; }
            else { std::swap(dist[0], dist[1]); std::swap(lo[0], lo[1]); std::swap(hi[0], hi[1]); log += " swap"; }
            for(int d = 0; d < 2; ++d)
                MC_CHECK(c, val(dist[d].a()) == lo[d] && val(dist[d].b()) == hi[d] && val(dist[d].min()) == lo[d] && val(dist[d].max()) == hi[d] && dist[d].param() == PT(raw<F>(lo[d]), raw<F>(hi[d])), "after%s: distribution %d reports raw [%s, %s], expected [%s, %s]", log.c_str(), d, str(val(dist[d].a())).c_str(), str(val(dist[d].b())).c_str(), str(lo[d]).c_str(), str(hi[d]).c_str());
            MC_CHECK(c, (dist[0].param() == dist[1].param()) == (lo[0] == lo[1] && hi[0] == hi[1]) && (dist[0].param() != dist[1].param()) == !(lo[0] == lo[1] && hi[0] == hi[1]), "after%s: the ranges compare wrongly", log.c_str());
        }
        for(int d = 0; d < 2 && !c.failed; ++d) draws(lo[d], hi[d], dist[d](src), "a last draw");
        if(c.want) c.note("%s", log.c_str());
    });
}
template <class F, class D>
static void defaults(mc::Run& run)
{
    using P1 = eirin::fixed_int_distribution_adapter<F, D>;
    using P2 = eirin::fixed_distribution_adapter<F, D>;
    run.space("default range " + Fm<F>::name(), 4, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const F a = i == 0 ? P1().a() : i == 1 ? P2().a() : i == 2 ? typename P1::param_type().a() : typename P2::param_type().a();
        const F b = i == 0 ? P1().b() : i == 1 ? P2().b() : i == 2 ? typename P1::param_type().b() : typename P2::param_type().b();
        MC_CHECK(c, val(a) == Fm<F>::lo && val(b) == Fm<F>::hi, "the default range is raw [%s, %s]", str(val(a)).c_str(), str(val(b)).c_str());
        if(i < 2)
        {
            static const std::vector<uint32_t> ans = {0xffffffffu, 0, 0xffffffffu, 0};
            Source<uint32_t, 0xffffffffu> s(&ans), t(&ans);
            D ref((typename D::result_type)Fm<F>::lo, (typename D::result_type)Fm<F>::hi);
            P1 d;
            const i128 g = val(d(s)), w = (i128)ref(t);
            MC_CHECK(c, g == w, "a draw from the default range gave raw %s, expected %s", str(g).c_str(), str(w).c_str());
        }
    });
}
static void go(mc::Run& run)
{
    const bool th = run.thorough;
    const std::vector<uint32_t> A32 = {0, 1, 2, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu, 0x55555555u, 0x12345678u, 0xff, 0x100, 0xffff0000u};
#    if PART == 1
    // every number of fraction bits of every storage type
    each_frac(std::make_integer_sequence<unsigned, 63>{}, [&]<unsigned f>() {
        const auto one = [&]<class F, class D>() {
            all_answers<F, D, uint32_t, 0xffffffffu>(run, {Fm<F>::lo, Fm<F>::lo + 1, -(i128(1) << f), -1, 0, 1, (i128(1) << f) - 1, i128(1) << f, Fm<F>::hi - 1, Fm<F>::hi}, A32, 1, "32 bit source, every format");
        };
        one.template operator()<i64<f>, std::uniform_int_distribution<long long>>();
        one.template operator()<u64<f>, std::uniform_int_distribution<unsigned long long>>();
        if constexpr(f <= 31) one.template operator()<u32<f>, std::uniform_int_distribution<unsigned>>();
        if constexpr(f <= 30) { one.template operator()<i32<f>, std::uniform_int_distribution<int>>(); one.template operator()<i32<f, true>, std::uniform_int_distribution<int>>(); }
        if constexpr(f <= 15) one.template operator()<u16<f>, std::uniform_int_distribution<int>>();
        if constexpr(f <= 14) one.template operator()<i16<f>, std::uniform_int_distribution<short>>();
        if constexpr(f <= 7) one.template operator()<u8<f>, std::uniform_int_distribution<int>>();
        if constexpr(f <= 6) one.template operator()<i8<f>, std::uniform_int_distribution<int>>();
    });
#    else
    std::vector<uint64_t> A64;
    for(uint32_t x : A32) { A64.push_back(x); A64.push_back(uint64_t(x) << 32); A64.push_back((uint64_t(x) << 32) | x); A64.push_back(~uint64_t(x)); }
    std::vector<uint8_t> A8;
    for(int x = 0; x < 256; ++x) A8.push_back(uint8_t(x));
    all_answers<f32, std::uniform_int_distribution<int>, uint32_t, 0xffffffffu>(run, naf<f32>(1), A32, th ? 3 : 2, "32 bit source");
    all_answers<f32, std::uniform_int_distribution<int>, uint8_t, 255>(run, naf<f32>(1), A8, 1, "8 bit source");
    all_answers<i8<4>, std::uniform_int_distribution<int>, uint32_t, 0xffffffffu>(run, complete<i8<4>>(), A32, th ? 2 : 1, "32 bit source");
    all_answers<u8<4>, std::uniform_int_distribution<int>, uint8_t, 255>(run, complete<u8<4>>(), th ? A8 : std::vector<uint8_t>{0, 1, 2, 127, 128, 129, 200, 254, 255}, 1, "8 bit source");
    all_answers<i16<8>, std::uniform_int_distribution<short>, uint32_t, 0xffffffffu>(run, naf<i16<8>>(2), A32, 1, "32 bit source");
    all_answers<u32<16>, std::uniform_int_distribution<unsigned>, uint32_t, 0xffffffffu>(run, naf<u32<16>>(1), A32, 2, "32 bit source");
    all_answers<f64, std::uniform_int_distribution<long long>, uint32_t, 0xffffffffu>(run, naf<f64>(1), A32, 2, "32 bit source");
    all_answers<f64, std::uniform_int_distribution<int64_t>, uint64_t, ~0ull>(run, naf<f64>(1), A64, 1, "64 bit source");
    through_engine<f32, std::uniform_int_distribution<int>, eirin::pcg2014>(run, naf<f32>(1), "pcg2014");
    through_engine<f32, std::uniform_int_distribution<int>, std::mt19937>(run, {Fm<f32>::lo, -65536, 0, 1, 65535, 65536, Fm<f32>::hi}, "mt19937");
    through_engine<f64, std::uniform_int_distribution<long long>, eirin::pcg2014_64>(run, naf<f64>(1), "pcg2014_64");
    through_engine<i16<8>, std::uniform_int_distribution<int>, eirin::pcg2014>(run, naf<i16<8>>(2), "pcg2014");
    through_engine<u32<16>, std::uniform_int_distribution<unsigned>, eirin::pcg2014>(run, naf<u32<16>>(1), "pcg2014");
    uniform<f32, std::uniform_int_distribution<int>, uint8_t, 255>(run);
    uniform<i8<4>, std::uniform_int_distribution<int>, uint8_t, 255>(run);
    uniform<f64, std::uniform_int_distribution<long long>, uint16_t, 65535>(run);
    uniform<i16<8>, std::uniform_int_distribution<int>, uint16_t, 65535>(run);
    {
        const auto R32 = std::vector<std::pair<i128, i128>>{{0, 65536}, {-65536, -1}, {7, 7}};
        histories<f32, std::uniform_int_distribution<int>, false>(run, R32, th ? 6 : 5);
        histories<f32, std::uniform_int_distribution<int>, true>(run, R32, th ? 6 : 5);
        histories<f64, std::uniform_int_distribution<long long>, false>(run, {{Fm<f64>::lo, 0}, {-1, 1}}, th ? 6 : 5);
        histories<f64, std::uniform_int_distribution<long long>, true>(run, {{Fm<f64>::lo, 0}, {-1, 1}}, th ? 6 : 5);
        histories<u16<8>, std::uniform_int_distribution<int>, false>(run, {{0, 255}, {256, 65535}}, th ? 6 : 5);
        histories<u16<8>, std::uniform_int_distribution<int>, true>(run, {{0, 255}, {256, 65535}}, th ? 6 : 5);
    }
    defaults<f32, std::uniform_int_distribution<int>>(run);
    defaults<f64, std::uniform_int_distribution<long long>>(run);
    defaults<i16<8>, std::uniform_int_distribution<int>>(run);
    defaults<u32<16>, std::uniform_int_distribution<unsigned>>(run);
#    endif
}
#endif

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, PROP == 20 ? "C20" : "C21");
    go(run);
    return run.finish();
}
