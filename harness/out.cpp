// C11 writing to streams, C12 std::format
#include "dec.hpp"
#include <eirin/eirin.hpp>
#include <eirin/io/format.hpp>
#include <sstream>
#include <format>
#include <iomanip>
#include <array>

#ifndef PROP
#    define PROP 11
#endif
#ifndef PART
#    define PART 0
#endif
using f32 = eirin::fixed32;
using f64 = eirin::fixed64;

static std::string ref_int(u128 v, int base, bool upper)
{
    if(v == 0) return "0";
    char buf[132];
    int n = 132;
    while(v) { int d = int(v % unsigned(base)); buf[--n] = "0123456789abcdef0123456789ABCDEF"[d + (upper ? 16 : 0)]; v /= unsigned(base); }
    return std::string(buf + n, 132 - n);
}
// all digits of the fraction r / 2^f in the base, exact
static std::string ref_frac(u128 r, int f, int base, bool upper)
{
    std::string s;
    const u128 one = u128(1) << f;
    while(r)
    {
        // r < 2^63, base <= 16
        r *= unsigned(base);
        s += "0123456789abcdef0123456789ABCDEF"[int(r / one) + (upper ? 16 : 0)];
        r %= one;
    }
    return s;
}
template <class F>
static std::string ref_print(i128 a, int base, bool upper)
{
    const u128 m = a < 0 ? u128(-a) : u128(a);
    std::string s = a < 0 ? "-" : "";
    s += ref_int(m >> Fm<F>::frac, base, upper);
    const u128 r = m & (u128(Fm<F>::one) - 1);
    if(r) s += "." + ref_frac(r, Fm<F>::frac, base, upper);
    return s;
}

#if PROP == 11
template <class F>
static void one_value(std::ostringstream& os, i128 a, mc::Ctx& c)
{
    ++c.valid;
    const F x = raw<F>(a);
    static const std::ios_base::fmtflags bases[] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::fmtflags(0)};
    static const int num[] = {10, 16, 8, 2};
    for(int b = 0; b < 4; ++b)
        for(int up = 0; up < 2; ++up)
        {
            if(up && b != 1) continue;
            const std::string want = ref_print<F>(a, num[b], up);
            os.str("");
            os.clear();
            os.setf(bases[b], std::ios_base::basefield);
            if(up) os.setf(std::ios_base::uppercase);
            else os.unsetf(std::ios_base::uppercase);
            const auto before = os.flags();
            std::ostream& ret = (os << x);
            MC_CHECK(c, os.str() == want, "writing %s in base %d gave %s, expected %s", SH(F, a), num[b], os.str().c_str(), want.c_str());
            MC_CHECK(c, &ret == &os && os.flags() == before && os.good(), "writing %s changed the stream's state", SH(F, a));
            char buf[200];
            char* e = F::copy_as_chars_to(x, &buf[0], num[b], up != 0);
            MC_CHECK(c, std::string_view(buf, e - buf) == want, "copy_as_chars_to of %s in base %d gave %.*s, expected %s", SH(F, a), num[b], int(e - buf), buf, want.c_str());
        }
    if(c.want) c.note("%s is written as %s and %s", SH(F, a), ref_print<F>(a, 10, false).c_str(), ref_print<F>(a, 16, false).c_str());
}
#    if PART == 1
static void go(mc::Run& run)
{
    each_format(run, "write", every<0, true, false>([]<class F>(i128 a, mc::Ctx& c) {
        static std::ostringstream os;
        one_value<F>(os, a, c);
    }), 8, 256);
}
#    else
static void go(mc::Run& run)
{
    static std::ostringstream os;
    auto one = [&]<class F>() {
        const auto V = Fm<F>::bits <= 16 ? complete<F>() : naf<F>(Fm<F>::bits == 32 ? 3 : run.thorough ? 3 : 2);
        run.space("values " + Fm<F>::name(), V.size(), [&](uint64_t i, mc::Ctx& c) { one_value<F>(os, V[i], c); });
    };
    Formats8::each(one);
    Formats16::each(one);
    Formats32::each(one);
    Formats64::each(one);
    // every fraction with selected integral parts, every integral part with selected fractions
    const std::vector<i128> I = {0, 1, -1, 9, 10, 99, 100, -100, 255, 256, 32767, -32768, -32767, 12345};
    run.space("every fraction of fixed32", uint64_t(65536) * I.size(), [&](uint64_t i, mc::Ctx& c) { one_value<f32>(os, I[i / 65536] * 65536 + i128(i % 65536), c); });
    const std::vector<i128> R = {0, 1, 0x8000, 0xffff, 0x1999, 0x0100, 0x00ff};
    run.space("every integral part of fixed32", uint64_t(65536) * R.size(), [&](uint64_t i, mc::Ctx& c) { one_value<f32>(os, (i128(i % 65536) - 32768) * 65536 + R[i / 65536], c); });
    // decimal, every value
    if(run.thorough)
        run.space("every fixed32, decimal", uint64_t(1) << 32, [&](uint64_t i, mc::Ctx& c) {
            const i128 a = (int32_t)(uint32_t)i;
            ++c.valid;
            char buf[200];
            char* e = f32::copy_as_chars_to(raw<f32>(a), &buf[0]);
            // read back exactly
            const char* p = buf;
            Dec d;
            const size_t n = scan(p, e - p, d);
            const i128 m = steps(d, 16) * (d.neg ? -1 : 1);
            MC_CHECK(c, n == size_t(e - buf) && m == a && d.ip.size() >= 1 && (d.ip[0] != '0' || d.ip.size() == 1) && (d.fp.empty() || d.fp.back() != '0') && d.fp.size() <= 16, "%s is written as %.*s", SH(f32, a), int(e - buf), buf);
            if(c.want) c.note("%s is written as %.*s", SH(f32, a), int(e - buf), buf);
        });
    // histories of writes: every sequence of 3 values and base changes
    const std::vector<i128> H = {0, 65536 + 32768, -1, -(i128(1) << 31), (i128(1) << 31) - 1, -98304};
    const uint64_t n = H.size() * H.size() * H.size() * 64;
    run.space("histories of writes", n, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        std::ostringstream o;
        std::string want;
        for(int k = 0; k < 3; ++k)
        {
            const int b = i & 3;
            i >>= 2;
            const i128 a = H[i % H.size()];
            i /= H.size();
            static const std::ios_base::fmtflags bases[] = {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::fmtflags(0)};
            static const int num[] = {10, 16, 8, 2};
            o.setf(bases[b], std::ios_base::basefield);
            o << raw<f32>(a) << ';';
            want += ref_print<f32>(a, num[b], false) + ";";
        }
        MC_CHECK(c, o.str() == want, "a sequence of writes gave %s, expected %s", o.str().c_str(), want.c_str());
        if(c.want) c.note("%s", want.c_str());
    });
    // every combination of format flags (with one base or none), widths, fill characters and precisions
    static const std::vector<i128> W = {0, 1, -1, 65536, -98304, (i128(1) << 31) - 1, -(i128(1) << 31), 0xabcdef, -0xabcdef};
    run.space("stream flags, width and fill", uint64_t(4096) * 4 * 6 * 2 * 2 * W.size(), [&](uint64_t i, mc::Ctx& c) {
        using B = std::ios_base;
        static const B::fmtflags other[] = {B::boolalpha, B::fixed, B::scientific, B::showbase, B::showpoint, B::showpos, B::skipws, B::unitbuf, B::uppercase, B::internal, B::left, B::right};
        static const B::fmtflags bases[] = {B::dec, B::hex, B::oct, B::fmtflags(0)};
        static const int num[] = {10, 16, 8, 2};
        B::fmtflags fl{};
        for(int k = 0; k < 12; ++k)
            if(i >> k & 1) fl |= other[k];
        i >>= 12;
        if(bool(fl & B::internal) + bool(fl & B::left) + bool(fl & B::right) > 1) return; // not a meaningful state
        const int b = i % 4;
        i /= 4;
        fl |= bases[b];
        const int width = std::array{0, 1, 2, 7, 20, 80}[i % 6];
        i /= 6;
        const char fill = i % 2 ? '*' : ' ';
        i /= 2;
        const int prec = i % 2 ? 6 : 0;
        const i128 a = W[i / 2];
        std::ostringstream o;
        o.flags(fl);
        o.fill(fill);
        o.precision(prec);
        o.width(width);
        o << raw<f32>(a) << raw<f32>(a);
        const std::string one = ref_print<f32>(a, num[b], (fl & B::uppercase) != 0), pad(one.size() < size_t(width) ? width - one.size() : 0, fill);
        const std::string want = fl & B::left ? one + pad + one : pad + one + one;
        ++c.valid;
        MC_CHECK(c, o.str() == want, "%s written twice with flags %x and width %d gave %s, expected %s", SH(f32, a), unsigned(fl), width, o.str().c_str(), want.c_str());
        MC_CHECK(c, o.flags() == fl && o.fill() == fill && o.precision() == prec && o.width() == 0 && o.good(), "writing %s with flags %x and width %d changed the stream", SH(f32, a), unsigned(fl), width);
        if(c.want) c.note("%s", want.c_str());
    });
    // a stream that has failed, or fails at any position, takes nothing more and keeps what it has
    // (its sink refuses characters or throws), whatever exceptions it was asked for and whatever its state was
    run.space("streams that fail", 64 * 2 * 8 * 8 * W.size(), [&](uint64_t i, mc::Ctx& c) {
        struct Buf : std::streambuf
        {
            std::string s;
            size_t room;
            bool throws;
            Buf(size_t n, bool t) : room(n), throws(t) {}
            int_type overflow(int_type ch) override
            {
                if(s.size() >= room)
                {
                    if(throws) throw 5;
                    return traits_type::eof();
                }
                s += char(ch);
                return ch;
            }
        };
        static const std::ios_base::iostate B[3] = {std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit};
        std::ios_base::iostate mask{}, before{};
        for(int k = 0; k < 3; ++k)
        {
            if(i >> k & 1) mask |= B[k];
            if(i >> (k + 3) & 1) before |= B[k];
        }
        i >>= 6;
        Buf buf(i / 2 % 64, i % 2);
        const i128 a = W[i / 128];
        std::ostream o(&buf);
        o.exceptions(mask);
        try { o.setstate(before); } catch(const std::ios_base::failure&) {}
        o.width(10);
        bool thrown = false;
        try { o << raw<f32>(a); } catch(...) { thrown = true; }
        std::string want = ref_print<f32>(a, 10, false);
        if(want.size() < 10) want.insert(0, 10 - want.size(), ' ');
        ++c.valid;
        MC_CHECK(c, buf.s == (before ? "" : want.substr(0, buf.room)) && o.good() == (!before && buf.room >= want.size()), "%s written to a stream with room for %zu characters (state before %d, exceptions %d, sink %s): \"%s\", state %d", SH(f32, a), buf.room, int(before), int(mask), buf.throws ? "throws" : "refuses", buf.s.c_str(), int(o.rdstate()));
        if(!before) MC_CHECK(c, thrown == bool(o.rdstate() & mask) && o.exceptions() == mask, "%s written to a stream with room for %zu characters (exceptions %d, sink %s): state %d, exception %d", SH(f32, a), buf.room, int(mask), buf.throws ? "throws" : "refuses", int(o.rdstate()), thrown);
        if(c.want) c.note("%s", buf.s.c_str());
    });
    // what is written can be read back
    const auto V = naf<f32>(3);
    run.space("write then read fixed32", V.size(), [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        std::stringstream s;
        s << raw<f32>(V[i]);
        f32 y = raw<f32>(0);
        s >> y;
        const i128 got = val(y), m = V[i] < 0 ? -1 : 1;
        MC_CHECK(c, !s.fail() && got * m <= V[i] * m && got * m >= V[i] * m - 10, "%s was written as %s and read as raw %s", SH(f32, V[i]), s.str().c_str(), str(got).c_str());
        if(V[i] % 4096 == 0) MC_CHECK(c, got == V[i], "%s was written as %s and read as raw %s", SH(f32, V[i]), s.str().c_str(), str(got).c_str());
        if(c.want) c.note("%s", s.str().c_str());
    });
}
#    endif
#endif

#if PROP == 12
struct Spec
{
    std::string fill; // one character or empty
    char align; // 0 < > ^
    char sign; // 0 + - space
    bool alt, zero;
    int width; // -1 none
    int prec; // -1 none
    char type; // 0 none
    std::string text() const
    {
        std::string s = fill;
        if(align) s += align;
        if(sign) s += sign;
        if(alt) s += '#';
        if(zero) s += '0';
        if(width >= 0) s += std::to_string(width);
        if(prec >= 0) s += "." + std::to_string(prec);
        if(type) s += type;
        return s;
    }
};
template <class F>
static std::string ref_format(const Spec& sp, i128 a)
{
    const bool neg = a < 0;
    const u128 m = neg ? u128(-a) : u128(a);
    const int f = Fm<F>::frac;
    std::string prefix, body;
    if(neg) prefix = "-";
    else if(sp.sign == '+') prefix = "+";
    else if(sp.sign == ' ') prefix = " ";
    int base = 10;
    bool upper = false, integral = false;
    switch(sp.type)
    {
    case 'x': base = 16; integral = true; break;
    case 'X': base = 16; integral = true; upper = true; break;
    case 'o': base = 8; integral = true; break;
    case 'b': base = 2; integral = true; break;
    case 'B': base = 2; integral = true; upper = true; break;
    case 'd': integral = true; break;
    }
    if(sp.type == '?')
    {
        if(sp.alt) prefix += "0x";
        body = ref_int(m, 16, false);
    }
    else if(integral)
    {
        if(sp.alt && base == 16) prefix += upper ? "0X" : "0x";
        if(sp.alt && base == 8) prefix += "0";
        if(sp.alt && base == 2) prefix += upper ? "0B" : "0b";
        body = ref_int(m >> f, base, upper);
    }
    else
    {
        const size_t p = sp.prec < 0 ? 6 : sp.prec;
        std::string fr = ref_frac(m & (u128(Fm<F>::one) - 1), f, 10, false);
        if(fr.size() > p) fr.resize(p);
        if((sp.type == 'f' || sp.type == 'F') && fr.size() < p) fr.append(p - fr.size(), '0');
        body = ref_int(m >> f, 10, false) + (fr.empty() ? "" : "." + fr);
    }
    const size_t w = sp.width < 0 ? 0 : sp.width, n = prefix.size() + body.size();
    if(n >= w) return prefix + body;
    const size_t pad = w - n;
    if(sp.zero && !sp.align) return prefix + std::string(pad, '0') + body;
    const char fc = sp.fill.empty() ? ' ' : sp.fill[0];
    if(sp.align == '<') return prefix + body + std::string(pad, fc);
    if(sp.align == '^') return std::string(pad / 2, fc) + prefix + body + std::string(pad - pad / 2, fc);
    return std::string(pad, fc) + prefix + body;
}
template <class F>
static std::vector<i128> few(bool th)
{
    const i128 o = Fm<F>::one;
    std::vector<i128> v = {0, 1, -1, o, -o, o / 2, -o / 2, o + o / 2, -o - o / 2, Fm<F>::hi, Fm<F>::lo, Fm<F>::hi - 1, Fm<F>::lo + 1, o - 1, 1 - o, o / 10, o / 10 + 1, 3 * o + o / 3, -3 * o - o / 3, 9 * o, 10 * o - 1, 10 * o, -16 * o, 255 * o + o / 4, o / 64, -o / 64, 1000 * o + 1};
    std::vector<i128> r;
    for(i128 x : v)
        if(Fm<F>::fits(x) && std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
    return r;
}
static std::vector<Spec> specs(bool th)
{
    std::vector<Spec> v;
    const std::vector<std::pair<std::string, char>> fa = {{"", 0}, {"", '<'}, {"", '>'}, {"", '^'}, {"*", '<'}, {"*", '>'}, {"*", '^'}, {"0", '<'}, {"<", '>'}, {"#", '^'}, {"5", '>'}, {".", '^'}, {"-", '<'}, {":", '>'}};
    const std::vector<int> W = th ? std::vector<int>{-1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 40, 100} : std::vector<int>{-1, 1, 2, 3, 5, 8, 9, 12, 13, 40};
    const std::vector<int> Pr = th ? std::vector<int>{-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 61, 70} : std::vector<int>{-1, 0, 1, 2, 3, 5, 6, 7, 10, 16, 32, 70};
    for(char type : std::string("\0gfdxXobBGF?", 12))
        for(int prec : Pr)
            for(int width : W)
                for(int zero = 0; zero < 2; ++zero)
                    for(int alt = 0; alt < 2; ++alt)
                        for(char sign : std::string("\0+- ", 4))
                            for(auto& [fill, al] : fa)
                            {
                                // without a width, '0' would be taken for the width itself: same outcome
                                v.push_back(Spec{fill, al, sign, alt != 0, zero != 0, width, prec, type});
                            }
    return v;
}
template <class F>
static void one_spec(mc::Ctx& c, const Spec& sp, i128 a)
{
    // the octal form of 0 with '#' is left open
    if(sp.alt && sp.type == 'o' && (a < 0 ? -a : a) < Fm<F>::one) return;
    ++c.valid;
    const F x = raw<F>(a);
    const std::string fmt = "{:" + sp.text() + "}", want = ref_format<F>(sp, a);
    const std::string got = std::vformat(fmt, std::make_format_args(x));
    MC_CHECK(c, got == want, "format \"%s\" of %s gave \"%s\", expected \"%s\"", fmt.c_str(), SH(F, a), got.c_str(), want.c_str());
    if constexpr(Fm<F>::bits == 32)
    {
        std::wstring wg;
        try { wg = std::vformat(std::wstring(fmt.begin(), fmt.end()), std::make_wformat_args(x)); }
        catch(const std::exception&) { wg = L"exception"; }
        MC_CHECK(c, wg == std::wstring(want.begin(), want.end()), "the wide format \"%s\" of %s does not give \"%s\"", fmt.c_str(), SH(F, a), want.c_str());
    }
    if(c.want) c.note("\"%s\" of %s gives \"%s\"", fmt.c_str(), SH(F, a), got.c_str());
}
static const std::vector<Spec> T = {{"", 0, 0, false, false, -1, -1, 0}, {"", 0, 0, false, false, -1, -1, 'f'}, {"", 0, 0, false, false, -1, 3, 'f'}, {"", 0, 0, false, false, -1, 40, 'g'}, {"", 0, 0, false, false, -1, -1, 'd'}, {"", 0, '+', true, true, 14, -1, 'x'}, {"", 0, 0, false, false, -1, -1, '?'}, {"_", '^', ' ', false, false, 20, 2, 'G'}, {"", 0, 0, false, false, -1, 32, 'f'}};
#    if PART == 2
static void go(mc::Run& run)
{
    each_format(run, "format", every<0, true, false>([]<class F>(i128 a, mc::Ctx& c) {
        const auto counted = c.valid;
        for(const Spec& sp : T) one_spec<F>(c, sp, a);
        c.valid = counted + 1; // one state, whatever is done with it
    }), 8, 64);
}
#    else
static void go(mc::Run& run)
{
    const auto S = specs(run.thorough);
    auto all = [&]<class F>() {
        const auto V = few<F>(run.thorough);
        run.space("every specification, " + Fm<F>::name(), uint64_t(S.size()) * V.size(), [&](uint64_t i, mc::Ctx& c) { one_spec<F>(c, S[i / V.size()], V[i % V.size()]); });
    };
#    if PART == 0
    List<f32, f64>::each(all);
#    else
    List<i8<4>, i8<7>, u8<4>, i16<8>, i32<20>, i32<31>, u32<16>, i64<61>, u64<32, true>, i64<63>, i32L<16>, i64L<32>>::each(all);
#    endif
#    if PART == 0
    // more values, few specifications
    auto vals = [&]<class F>() {
        const auto V = Fm<F>::bits <= 16 ? complete<F>() : naf<F>(Fm<F>::bits == 32 ? 3 : run.thorough ? 3 : 2);
        run.space("many values, " + Fm<F>::name(), uint64_t(T.size()) * V.size(), [&](uint64_t i, mc::Ctx& c) { one_spec<F>(c, T[i / V.size()], V[i % V.size()]); });
    };
    List<f32, f64, i8<4>, i8<1>, i8<7>, u8<4>, u8<7>, i16<8>, i16<15>, u16<8>, i32<20>, i32<1>, u32<16>, i64<61>, i64<1>, u64<32>, i32L<16>, i64L<32>>::each(vals);
    run.space("every fraction of fixed32, formatted", uint64_t(65536) * T.size(), [&](uint64_t i, mc::Ctx& c) { one_spec<f32>(c, T[i / 65536], -3 * 65536 - i128(i % 65536)); });
    run.space("every integral part of fixed32, formatted", uint64_t(65536) * T.size(), [&](uint64_t i, mc::Ctx& c) { one_spec<f32>(c, T[i / 65536], (i128(i % 65536) - 32768) * 65536 + 0x2468); });
    // every width and every precision up to 1100, and those around 2^15 and 2^16
    std::vector<int> N;
    for(int k = 0; k <= 1100; ++k) N.push_back(k);
    for(int k : {4095, 4096, 9999, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 99999, 100000}) N.push_back(k);
    const std::vector<Spec> TT = {{"", 0, 0, false, false, -1, -1, 0}, {"", 0, 0, false, false, -1, -1, 'f'}, {"", 0, '+', true, true, -1, -1, 'x'}, {"*", '<', 0, false, false, -1, -1, 'd'}, {"_", '^', ' ', false, false, -1, -1, 'G'}, {"", 0, 0, true, true, -1, -1, '?'}};
    auto sizes = [&]<class F>() {
        const auto V = few<F>(run.thorough);
        run.space("every width and precision, " + Fm<F>::name(), uint64_t(N.size()) * 4 * TT.size() * 6, [&](uint64_t i, mc::Ctx& c) {
            Spec sp = TT[i % TT.size()];
            i /= TT.size();
            const i128 a = V[(i % 6) * 5 % V.size()];
            i /= 6;
            const int n = N[i / 4];
            if(i % 4 != 1 && n != 0) sp.width = n;
            if(i % 4 != 0) sp.prec = i % 4 == 3 ? 2 : n;
            one_spec<F>(c, sp, a);
        });
    };
    List<f32, f64, i64<61>>::each(sizes);
    // every specification of up to 6 (7) characters, well formed or not
    {
        const std::string al = "<^*+ #0.12fxd";
        uint64_t total = 0, p = 1;
        for(int l = 0; l <= (run.thorough ? 7 : 6); ++l, p *= al.size()) total += p;
        run.space("every short specification", total, [&](uint64_t i, mc::Ctx& c) {
            std::string s;
            {
                uint64_t k = i, q = 1;
                int l = 0;
                while(k >= q) k -= q, q *= al.size(), ++l;
                for(; l > 0; --l, k /= al.size()) s += al[k % al.size()];
            }
            Spec sp{"", 0, 0, false, false, -1, -1, 0};
            size_t at = 0;
            const auto is = [&](const char* set) { return at < s.size() && strchr(set, s[at]); };
            const auto digits = [&] {
                int n = 0;
                while(is("0123456789")) n = n * 10 + (s[at++] - '0');
                return n;
            };
            if(s.size() > 1 && strchr("<^>", s[1])) { sp.fill = s[0]; sp.align = s[1]; at = 2; }
            else if(is("<^>")) sp.align = s[at++];
            if(is("+- ")) sp.sign = s[at++];
            if(is("#")) sp.alt = true, ++at;
            if(is("0")) sp.zero = true, ++at;
            if(is("0")) return; // a width starting with 0: left open
            if(is("123456789")) sp.width = digits();
            if(is("."))
            {
                ++at;
                if(!is("0123456789")) return; // left open
                sp.prec = digits();
            }
            if(is("gGfFdxXobB?")) sp.type = s[at++];
            const bool good = at == s.size();
            if(sp.width > 3000 || sp.prec > 3000) return;
            for(const i128 a : {i128(-0x2c0ff), i128(0x7fffffff), i128(0)})
            {
                const f32 x = raw<f32>(a);
                std::string got;
                bool thrown = false;
                try { got = std::vformat("{:" + s + "}", std::make_format_args(x)); }
                catch(const std::format_error&) { thrown = true; }
                ++c.valid;
                if(good)
                {
                    const std::string want = ref_format<f32>(sp, a);
                    MC_CHECK(c, !thrown && got == want, "format \"{:%s}\" of %s gave \"%s\", expected \"%s\"", s.c_str(), SH(f32, a), thrown ? "(format_error)" : got.c_str(), want.c_str());
                }
                else
                {
                    MC_CHECK(c, thrown, "the malformed format \"{:%s}\" gave \"%s\"", s.c_str(), got.c_str());
                    break;
                }
            }
            if(c.want) c.note("{:%s}", s.c_str());
        });
        // widths and precisions that are not representable are errors
        std::vector<std::string> big;
        for(int k = 31; k <= 127; ++k)
            for(int d = k == 31 ? 0 : -2; d <= 3; ++d) big.push_back(str((i128)((u128(1) << k) + d)).c_str());
        for(int k = 10; k <= 60; ++k)
            for(char d : {'3', '9', '4'}) big.push_back(std::string(k, d).c_str());
        std::erase_if(big, [](const std::string& b) { return b[0] == '-'; });
        run.space("unrepresentable widths and precisions", big.size() * 8, [&](uint64_t i, mc::Ctx& c) {
            static const char* form[] = {"{:%}", "{:.%}", "{:0%f}", "{:5.%f}", "{:%.2}", "{:*<%d}", "{:+#%x}", "{:.%g}"};
            std::string f = form[i % 8];
            f.replace(f.find('%'), 1, big[i / 8]);
            const f32 x = raw<f32>(-98304);
            bool thrown = false;
            std::string got;
            try { got = std::vformat(f, std::make_format_args(x)); }
            catch(const std::format_error&) { thrown = true; }
            ++c.valid;
            MC_CHECK(c, thrown, "the format \"%s\" gave \"%s\"", f.c_str(), got.substr(0, 100).c_str());
            if(c.want) c.note("%s", f.c_str());
        });
    }
    // several replacement fields and literal text around them: every sequence of 3 pieces
    const std::vector<std::string> piece = {"{}", "{:f}", "{:>8.2f}", "{:+}", "<", ">", "^", "x", " ", "0", "{{", "}}", "{:<5d}", "{:x}", "{:*^9}", ":", "."};
    const uint64_t np = piece.size();
    run.space("fields in a text", np * np * np * np, [&](uint64_t i, mc::Ctx& c) {
        static const i128 arg[4] = {65536 + 16384, -3 * 65536 - 4096, 0, (i128(1) << 31) - 1};
        std::string fmt, want;
        int k = 0;
        for(int q = 0; q < 4; ++q)
        {
            const std::string& p = piece[i % np];
            i /= np;
            fmt += p;
            if(p == "{{") want += "{";
            else if(p == "}}") want += "}";
            else if(p[0] != '{') want += p;
            else
            {
                Spec sp{"", 0, 0, false, false, -1, -1, 0};
                if(p == "{:f}") sp.type = 'f';
                else if(p == "{:>8.2f}") { sp.align = '>'; sp.width = 8; sp.prec = 2; sp.type = 'f'; }
                else if(p == "{:+}") sp.sign = '+';
                else if(p == "{:<5d}") { sp.align = '<'; sp.width = 5; sp.type = 'd'; }
                else if(p == "{:x}") sp.type = 'x';
                else if(p == "{:*^9}") { sp.fill = "*"; sp.align = '^'; sp.width = 9; }
                want += ref_format<f32>(sp, arg[k++]);
            }
        }
        ++c.valid;
        const f32 a0 = raw<f32>(arg[0]), a1 = raw<f32>(arg[1]), a2 = raw<f32>(arg[2]), a3 = raw<f32>(arg[3]);
        std::string got;
        try { got = std::vformat(fmt, std::make_format_args(a0, a1, a2, a3)); }
        catch(const std::exception& e) { got = std::string("exception ") + e.what(); }
        MC_CHECK(c, got == want, "format \"%s\" gave \"%s\", expected \"%s\"", fmt.c_str(), got.c_str(), want.c_str());
        // wide characters
        const std::wstring wf(fmt.begin(), fmt.end());
        std::wstring wg;
        try { wg = std::vformat(wf, std::make_wformat_args(a0, a1, a2, a3)); }
        catch(const std::exception& e) { wg = L"exception"; }
        MC_CHECK(c, wg == std::wstring(want.begin(), want.end()), "the wide format \"%s\" does not give \"%s\"", fmt.c_str(), want.c_str());
        if(c.want) c.note("\"%s\" gives \"%s\"", fmt.c_str(), want.c_str());
    });
    // every character as fill, and every character as type
    run.space("every wide character in a specification", uint64_t(0x110000) * 4, [&](uint64_t i, mc::Ctx& c) {
        const wchar_t ch = wchar_t(i % 0x110000);
        const int form = int(i / 0x110000);
        if(ch == 0 || ch == '{' || ch == '}' || (ch >= 0xd800 && ch < 0xe000)) return;
        const f32 x = raw<f32>(-65536 * 5 - 8192);
        if(form < 3)
        {
            ++c.valid;
            std::wstring fmt = L"{:", got, want = L"-5.125";
            fmt += ch;
            fmt += L"<>^"[form];
            fmt += L"9}";
            const std::wstring pad(3, ch);
            want = form == 0 ? want + pad : form == 1 ? pad + want : pad.substr(0, 1) + want + pad.substr(1);
            try { got = std::vformat(fmt, std::make_wformat_args(x)); }
            catch(const std::exception&) { got = L"exception"; }
            MC_CHECK(c, got == want, "character %#x as fill with alignment %c does not give the fill on the right side of -5.125", unsigned(ch), "<>^"[form]);
            if(ch < 128)
            {
                const std::string n = std::vformat(std::string(fmt.begin(), fmt.end()), std::make_format_args(x));
                MC_CHECK(c, n == std::string(want.begin(), want.end()), "character %#x as fill gives \"%s\"", unsigned(ch), n.c_str());
            }
        }
        else if(ch >= 128)
        {
            ++c.valid;
            bool thrown = false;
            try { (void)std::vformat(std::wstring(L"{:5") + ch + L"}", std::make_wformat_args(x)); }
            catch(const std::format_error&) { thrown = true; }
            MC_CHECK(c, thrown, "character %#x was accepted as type", unsigned(ch));
        }
        if(c.want) c.note("character %#x, form %d", unsigned(ch), form);
    });
    // explicit argument numbers, format_to, formatted_size, and unknown types
    run.space("types and argument numbers", 256 * 12, [&](uint64_t i, mc::Ctx& c) {
        const char t = char(i % 256);
        static const char* pre[] = {"", "5", ".3", "+", "#", "08", "*<6", ">3.1", "-", " ", "<", "^9"};
        const std::string p = pre[i / 256];
        const f32 x = raw<f32>(65536 * 5 + 8192), y = raw<f32>(-65536);
        if(std::string("gGfFdxXobB?").find(t) != std::string::npos && t)
        {
            const std::string one = std::vformat("{:" + p + t + "}", std::make_format_args(x));
            ++c.valid;
            const std::string two = std::vformat("{1:" + p + t + "}|{0:" + p + t + "}|{1}", std::make_format_args(y, x));
            const std::string yy = std::vformat("{:" + p + t + "}", std::make_format_args(y));
            MC_CHECK(c, two == one + "|" + yy + "|5.125", "explicit argument numbers with \"%s%c\" gave \"%s\"", p.c_str(), t, two.c_str());
            std::string out;
            std::vformat_to(std::back_inserter(out), "<{:" + p + t + "}>", std::make_format_args(x));
            MC_CHECK(c, out == "<" + one + ">", "format_to gave \"%s\"", out.c_str());
        }
        else if(t != '}' && t != '{' && !(t >= '0' && t <= '9') && t != '.' && t != '+' && t != '-' && t != ' ' && t != '#' && t != '<' && t != '>' && t != '^' && (unsigned char)t < 128 && t != 0)
        {
            ++c.valid;
            bool thrown = false;
            try { (void)std::vformat("{:" + p + t + "}", std::make_format_args(x)); }
            catch(const std::format_error&) { thrown = true; }
            MC_CHECK(c, thrown, "the unknown type in \"{:%s%c}\" was accepted", p.c_str(), t);
        }
        if(c.want) c.note("type %d after \"%s\"", t, p.c_str());
    });
#    endif
}
#    endif
#endif

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, PROP == 11 ? "C11" : "C12");
    go(run);
    return run.finish();
}
