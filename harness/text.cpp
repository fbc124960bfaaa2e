// C09 parsing of strings and literals, C10 reading from streams
#include "dec.hpp"
#include <eirin/io/parse.hpp>
#include <eirin/eirin.hpp>
#include <sstream>
#include <istream>
#include <streambuf>

#ifndef PROP
#    define PROP 9
#endif
#ifndef PART
#    define PART 0
#endif

using f32 = eirin::fixed32;
using f64 = eirin::fixed64;
static Guarded G;

static std::string quote(const std::string& s)
{
    std::string r = "\"";
    for(unsigned char ch : s)
    {
        if(ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); r += b; }
        else r += char(ch);
    }
    return r + "\"";
}

// ---- text spaces ---------------------------------------------------------------------------
// every string over the alphabet up to the length, in order of length
struct Strings
{
    std::string al;
    int len;
    uint64_t count() const
    {
        uint64_t n = 0, k = 1;
        for(int i = 0; i <= len; ++i) { n += k; k *= al.size(); }
        return n;
    }
    std::string at(uint64_t i) const
    {
        uint64_t k = 1;
        int l = 0;
        while(i >= k) { i -= k; k *= al.size(); ++l; }
        std::string s;
        for(int j = 0; j < l; ++j) { s.insert(s.begin(), al[i % al.size()]); i /= al.size(); }
        return s;
    }
};

static std::vector<std::string> int_parts(bool many)
{
    std::vector<std::string> v = {"", "0", "00", "1", "7", "8", "9", "007", "15", "16", "99", "127", "128", "255", "256", "2047", "2048", "2049", "32767", "32768", "32769", "00032767", "65535", "65536", "65537", "99999", "524287", "524288",
        "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "4294967297", "8589934592", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617",
        "36893488147419103232", "92233720368547758080", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "340282366920938463463374607431768211457", "170141183460469231731687303715884105728"};
    if(many)
        for(int e : {10, 15, 18, 19, 20, 24, 30, 38, 39, 40, 60, 100})
        {
            v.push_back("1" + std::string(e, '0'));
            v.push_back(std::string(e, '9'));
            v.push_back(std::string(e, '0') + "12");
        }
    return v;
}
static std::vector<std::string> frac_parts(bool thorough)
{
    std::vector<std::string> v = {"(none)", ""};
    Strings S{"0159", thorough ? 7 : 6};
    for(uint64_t i = 1; i < S.count(); ++i) v.push_back(S.at(i));
    for(int k = 0; k <= 45; ++k)
        for(const char* t : {"1", "5", "9", "99999999", "152587890625", "0000152587890625", "15258789063"}) v.push_back(std::string(k, '0') + t);
    for(int k = 6; k <= 45; ++k)
        for(const char* t : {"9", "4", "6", "3", "1"}) v.push_back(std::string(k, t[0]));
    for(const char* t : {"0000152587890625", "0000152587890624", "0000152587890626", "00000000023283064365386962890625", "00000000023283064365386962890624", "00000000023283064365386962890626", "0625", "0624", "0626", "00390625", "00390624", "99998474121093750", "99998474121093749", "99999999976716935634613037109375", "99999999976716935634613037109374"}) v.push_back(t);
    return v;
}

// texts that stand for (nearly) a steps: all digits, and cut, extended, incremented and padded forms
template <class F>
static std::vector<std::string> forms(i128 a)
{
    const u128 m = a < 0 ? u128(-a) : u128(a);
    u128 ip = m >> Fm<F>::frac, r = m & (u128(Fm<F>::one) - 1);
    std::string w, fr;
    do w.insert(w.begin(), char('0' + int(ip % 10))), ip /= 10; while(ip);
    while(r) { r *= 10; fr += char('0' + int(r >> Fm<F>::frac)); r &= u128(Fm<F>::one) - 1; }
    std::vector<std::string> v;
    const std::string sign = a < 0 ? "-" : "";
    v.push_back(sign + w + "." + fr);
    v.push_back(sign + "00" + w + "." + fr + "01");
    if(fr.empty() || fr == "5") v.push_back(sign + w);
    const size_t k = size_t(exact_digits(Fm<F>::frac));
    for(size_t n : {k, k + 1, fr.size() / 2, size_t(1)})
        if(n < fr.size())
        {
            std::string t = fr.substr(0, n);
            v.push_back(sign + w + "." + t);
            if(n && t.back() < '9') { ++t.back(); v.push_back(sign + w + "." + t); }
        }
    return v;
}
#if PROP == 9
template <class F, class Call>
static void judge(mc::Ctx& c, const char* fn, const std::string& s, const Dec& d, Call call)
{
    if(!d.has_digit()) return;
    const Allowed<F> al(d);
    for(i128 init : {i128(77), i128(-3) & Fm<F>::hi})
    {
        F x = raw<F>(init);
        const bool ok = call(x);
        const i128 got = val(x);
        if(ok) MC_CHECK(c, al.can_fit && al.value_ok(got), "%s of %s stored raw %s of %s; the text stands for %s%s steps", fn, quote(s).c_str(), str(got).c_str(), Fm<F>::name().c_str(), al.neg ? "-" : "", str(al.t).c_str());
        else
        {
            MC_CHECK(c, al.can_fail, "%s of %s failed, although %s can represent %s%s steps", fn, quote(s).c_str(), Fm<F>::name().c_str(), al.neg ? "-" : "", str(al.t).c_str());
            MC_CHECK(c, got == init, "%s of %s failed but changed its target to raw %s", fn, quote(s).c_str(), str(got).c_str());
        }
    }
}
template <class F>
static void lenient(mc::Ctx& c, const std::string& s, const char* p)
{
    Dec d;
    scan(s.data(), s.size(), d);
    judge<F>(c, "fixed_from_cstring", s, d, [&](F& x) { return eirin::fixed_from_cstring(p, s.size(), x); });
}
// a literal of text that is no number, or of a number that is not representable, throws
template <class F, class Call>
static void literal(mc::Ctx& c, const std::string& s, const Dec& d, Call call)
{
    if(!d.has_digit()) return;
    const Allowed<F> al(d);
    try
    {
        const i128 got = val(call());
        MC_CHECK(c, al.can_fit && al.value_ok(got), "the literal %s of %s is raw %s; the text stands for %s%s steps", quote(s).c_str(), Fm<F>::name().c_str(), str(got).c_str(), al.neg ? "-" : "", str(al.t).c_str());
    }
    catch(const std::invalid_argument&)
    {
        MC_CHECK(c, al.can_fail, "the literal %s of %s was rejected", quote(s).c_str(), Fm<F>::name().c_str());
    }
}
template <class Call>
static void no_literal(mc::Ctx& c, const std::string& s, Call call)
{
    try
    {
        const i128 got = call();
        c.fail("the literal %s, which is no number, is raw %s", quote(s).c_str(), str(got).c_str());
    }
    catch(const std::invalid_argument&)
    {}
}
// everything that reads a fixed32, plus the other formats through the generic function
static void one_text(mc::Ctx& c, const std::string& s, bool all_formats)
{
    const char* p = G.put(s.data(), s.size());
    Dec d;
    const size_t used = scan(s.data(), s.size(), d);
    const bool whole = used == s.size();
    ++c.valid;
    // strict: the whole text has to be a number
    if(whole)
    {
        judge<f32>(c, "f32_from_cstring", s, d, [&](f32& x) { return eirin::f32_from_cstring(p, s.size(), x); });
        judge<f32>(c, "io::parse(string_view)", s, d, [&](f32& x) {
            const char* r = eirin::io::parse(std::string_view(p, s.size()), x);
            MC_CHECK(c, r == p || r == p + s.size(), "io::parse of %s returned a position inside of the text", quote(s).c_str());
            return r == p + s.size();
        });
        literal<f32>(c, s, d, [&] { return eirin::operator""_f32(p, s.size()); });
        literal<f64>(c, s, d, [&] { return eirin::operator""_f64(p, s.size()); });
    }
    else
    {
        f32 x = raw<f32>(4242);
        MC_CHECK(c, !eirin::f32_from_cstring(p, s.size(), x), "f32_from_cstring accepted %s", quote(s).c_str());
        MC_CHECK(c, val(x) == 4242, "f32_from_cstring rejected %s but changed its target", quote(s).c_str());
        const char* r = eirin::io::parse(std::string_view(p, s.size()), x);
        MC_CHECK(c, r == p && val(x) == 4242, "io::parse accepted %s", quote(s).c_str());
        if(s.size() <= 6 || all_formats)
        {
            no_literal(c, s, [&] { return val(eirin::operator""_f32(p, s.size())); });
            no_literal(c, s, [&] { return val(eirin::operator""_f64(p, s.size())); });
        }
    }
    lenient<f32>(c, s, p);
    lenient<f64>(c, s, p);
    if(all_formats)
    {
        lenient<i8<4>>(c, s, p);
        lenient<i8<7>>(c, s, p);
        lenient<u8<4>>(c, s, p);
        lenient<i16<8>>(c, s, p);
        lenient<u16<8>>(c, s, p);
        lenient<i16<12, true>>(c, s, p);
        lenient<i32<20>>(c, s, p);
        lenient<u32<16>>(c, s, p);
        lenient<i32<30>>(c, s, p);
        lenient<i64<16>>(c, s, p);
        lenient<i64<61>>(c, s, p);
        lenient<u64<32>>(c, s, p);
        lenient<i32L<16>>(c, s, p);
        lenient<i64L<32>>(c, s, p);
    }
    if(c.want) c.note("%s (%s)", quote(s).c_str(), whole ? "a number" : "number followed by other text");
}

// numeric literals: their characters are template arguments, so each is a program of its own
template <class... C>
static std::string chars(C... c) { return std::string{c...}; }
struct Lit { std::string text; f32 (*a)(); f64 (*b)(); };
template <char... C>
static Lit lit()
{
    return {chars(C...), [] { return eirin::operator""_f32<C...>(); }, [] { return eirin::operator""_f64<C...>(); }};
}
static constexpr char dg(size_t n) { return "0159"[n % 4]; }
template <size_t... I>
static void add_lits(std::vector<Lit>& v, std::index_sequence<I...>)
{
    (v.push_back(lit<dg(I), '.', dg(I / 4), dg(I / 16), dg(I / 64)>()), ...);
    (v.push_back(lit<dg(I), dg(I / 4), dg(I / 16), dg(I / 64)>()), ...);
    (v.push_back(lit<dg(I), dg(I / 4), '.', dg(I / 16), dg(I / 64), '0', '0', '0', '0', '0', '0', '0', '1'>()), ...);
    (v.push_back(lit<'3', '2', '7', '6', '7', '.', dg(I), dg(I / 4), dg(I / 16), dg(I / 64), '9', '9', '9'>()), ...);
    (v.push_back(lit<'1', "eE+-xX'."[I % 8], dg(I / 8), "f5"[I / 32 % 2], dg(I / 64)>()), ...);
    (v.push_back(lit<'3', dg(I), dg(I / 4), dg(I / 16), dg(I / 64), '0', '0', '0', '0', '0', '0'>()), ...);
    (v.push_back(lit<'.', dg(I), dg(I / 4), dg(I / 16), dg(I / 64)>()), ...);
}
using namespace eirin::literals;
static_assert(3.25_f64 == f64(3.25) && 7_f64 == f64(7) && 0.5_f32 == f32(0.5) && 12_f32 == f32(12) && "1.5"_f32 == f32(1.5) && "-2.25"_f64 == f64(-2.25));

static void literals(mc::Run& run)
{
    std::vector<Lit> L;
    add_lits(L, std::make_index_sequence<256>());
    run.space("literals of characters", L.size(), [&](uint64_t i, mc::Ctx& c) {
        const Lit& l = L[i];
        Dec d;
        ++c.valid;
        if(scan(l.text.data(), l.text.size(), d) == l.text.size())
        {
            literal<f32>(c, l.text, d, l.a);
            literal<f64>(c, l.text, d, l.b);
        }
        else
        {
            no_literal(c, l.text, [&] { return val(l.a()); });
            no_literal(c, l.text, [&] { return val(l.b()); });
        }
        if(c.want) c.note("%s", l.text.c_str());
    });
    run.space("whole literals", 32768, [&](uint64_t i, mc::Ctx& c) {
        ++c.valid;
        const i128 got = val(eirin::operator""_f32((unsigned long long)i));
        MC_CHECK(c, got == i128(i) * 65536, "%llu_f32 is raw %s", (unsigned long long)i, str(got).c_str());
    });
    // a floating literal x: all multiples of a quarter step, and the neighbours of each step
    run.space("floating literals", (uint64_t(1) << 24) * 3, [&](uint64_t i, mc::Ctx& c) {
        const uint64_t k = (i / 3) * 511; // covers [0, 32768) in quarters of a step
        if(k >= (uint64_t(1) << 33)) return;
        long double x = (long double)k / 262144;
        if(i % 3 == 1) x = std::nextafter(x, 0.0L);
        if(i % 3 == 2) x = std::nextafter(x, 1e9L);
        ++c.valid;
        const i128 got = val(eirin::operator""_f32(x)), want = i128(std::floor(x * 65536));
        MC_CHECK(c, got == want, "%.12Lg_f32 is raw %s, expected %s", x, str(got).c_str(), str(want).c_str());
    });
}
#    if PART == 1
static void go(mc::Run& run)
{
    each_format(run, "parse", every<0, true, true>([]<class F>(i128 a, mc::Ctx& c) {
        ++c.valid;
        for(const std::string& s : forms<F>(a)) lenient<F>(c, s, G.put(s.data(), s.size()));
        if(a == 0)
            for(const std::string& ip : int_parts(true))
                for(const char* t : {"", ".5", ".999999", "-."})
                {
                    const std::string s = (t[0] == '-' ? "-" : "") + ip + (t[0] == '-' ? t + 1 : t);
                    lenient<F>(c, s, G.put(s.data(), s.size()));
                }
    }), 8, 256);
}
#    else
static void go(mc::Run& run)
{
    const bool th = run.thorough;
    literals(run);
    {
        Strings S{"", 0};
        S.al = "0-.915a ";
        S.len = th ? 10 : 9;
        run.space("every text over 0-.915a and space", S.count(), [&](uint64_t i, mc::Ctx& c) { one_text(c, S.at(i), false); });
        Strings T{"0-.91\x00x+e,\t\xb3/:", 5};
        T.al = std::string("0-.91\0x+e,\t\xb3/:", 14);
        run.space("every short text over a wider alphabet", T.count(), [&](uint64_t i, mc::Ctx& c) { one_text(c, T.at(i), true); });
    }
    {
        const auto I = int_parts(true), Fr = frac_parts(th);
        const std::vector<std::string> sign = {"", "-"}, tail = {"", "x", ".", "-", " 1"};
        run.space("sign, integral part, fraction, tail", uint64_t(I.size()) * Fr.size() * 10, [&](uint64_t i, mc::Ctx& c) {
            const auto& fr = Fr[i % Fr.size()];
            i /= Fr.size();
            const auto& ip = I[i % I.size()];
            i /= I.size();
            std::string s = sign[i % 2] + ip;
            if(fr != "(none)") s += "." + fr;
            s += tail[i / 2];
            one_text(c, s, true);
        });
    }
    // every integer around the range of fixed32, and every fraction of up to 5 (6) digits
    run.space("every integral part up to 70000", 70001 * 2 * 3, [&](uint64_t i, mc::Ctx& c) {
        const char* fr[] = {"", ".5", ".9999"};
        one_text(c, (i % 2 ? "-" : "") + std::to_string(i / 6) + fr[i / 2 % 3], false);
    });
    for(int nd = 1; nd <= (th ? 8 : 7); ++nd)
    {
        uint64_t p10 = 1;
        for(int k = 0; k < nd; ++k) p10 *= 10;
        run.space("every fraction of " + std::to_string(nd) + " digits", p10 * 2, [&](uint64_t i, mc::Ctx& c) {
            char b[40];
            snprintf(b, sizeof b, "%s.%0*llu", i % 2 ? "-3" : "0", nd, (unsigned long long)(i / 2));
            one_text(c, b, false);
        });
    }
    // io::parse up to the first character of the end string
    {
        Strings S{"0-.95a;", th ? 9 : 8};
        const std::string stops = std::string("\0;a5.-0 ", 8);
        run.space("io::parse up to a stop character", S.count() * stops.size(), [&](uint64_t i, mc::Ctx& c) {
            const char st = stops[i % stops.size()];
            const std::string text = S.at(i / stops.size());
            // the stop character follows the text; it may also occur inside of it
            std::string s = text + st;
            const char* p = G.put(s.data(), s.size());
            const size_t n = s.find(st);
            const std::string head = s.substr(0, n);
            Dec d;
            const size_t used = scan(head.data(), head.size(), d);
            const char stop2[3] = {st, 'Q', 0};
            ++c.valid;
            f32 x = raw<f32>(991);
            const char* r = eirin::io::parse(p, stop2, x);
            const i128 got = val(x);
            if(used != n)
            {
                MC_CHECK(c, r == p && got == 991, "io::parse accepted %s up to %s", quote(s).c_str(), quote(std::string(1, st)).c_str());
            }
            else if(d.has_digit())
            {
                const Allowed<f32> al(d);
                if(r == p) MC_CHECK(c, al.can_fail && got == 991, "io::parse rejected %s up to %s", quote(s).c_str(), quote(std::string(1, st)).c_str());
                else MC_CHECK(c, r == p + n && al.can_fit && al.value_ok(got), "io::parse of %s up to %s gave raw %s and position %d; expected %s%s steps and position %d", quote(s).c_str(), quote(std::string(1, st)).c_str(), str(got).c_str(), int(r - p), al.neg ? "-" : "", str(al.t).c_str(), int(n));
            }
            if(c.want) c.note("io::parse of %s up to %s", quote(s).c_str(), quote(std::string(1, st)).c_str());
        });
    }
}
#    endif
#endif

#if PROP == 10
// a stream buffer that hands out the text in the pieces given by a bit mask (bit i: a refill is needed
// before character i), and can fail (throw) or end at a chosen position
template <class Ch>
struct PieceBuf : std::basic_streambuf<Ch>
{
    using Base = std::basic_streambuf<Ch>;
    using T = typename Base::traits_type;
    std::basic_string<Ch> s;
    uint64_t mask;
    size_t fail_at;
    PieceBuf(const std::basic_string<Ch>& t, uint64_t m, size_t f = size_t(-1))
        : s(t), mask(m), fail_at(f)
    {
        this->setg(s.data(), s.data(), s.data());
    }
    typename T::int_type underflow() override
    {
        if(this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        const size_t at = size_t(this->egptr() - s.data());
        if(at == fail_at) throw 42;
        if(at >= s.size()) return T::eof();
        size_t e = at + 1;
        while(e < s.size() && e != fail_at && !((mask >> (e % 64)) & 1)) ++e;
        this->setg(s.data() + at, s.data() + at, s.data() + e);
        return T::to_int_type(*this->gptr());
    }
    size_t position() const { return size_t(this->gptr() - s.data()); }
};

static bool space_ch(char c) { return c == ' ' || (c >= 9 && c <= 13); }

// the reference: where the number is, what it is and where reading stops
struct Ref
{
    size_t from, to;
    Dec d;
};
static Ref reference(const std::string& s, size_t at, bool skipws)
{
    Ref r;
    r.from = at;
    if(skipws)
        while(r.from < s.size() && space_ch(s[r.from])) ++r.from;
    r.to = r.from + scan(s.data() + r.from, s.size() - r.from, r.d);
    return r;
}

template <class F, class Ch>
static void one_read(mc::Ctx& c, const std::string& s, uint64_t mask, bool skipws, bool throwing, int reads, size_t slot = size_t(-1), Ch strange = Ch())
{
    std::basic_string<Ch> w(s.begin(), s.end());
    if(slot < w.size()) w[slot] = strange; // a character that cannot be part of a number
    PieceBuf<Ch> buf(w, mask);
    std::basic_istream<Ch> is(&buf);
    if(!skipws) is.unsetf(std::ios_base::skipws);
    if(throwing) is.exceptions(std::ios_base::failbit);
    size_t at = 0;
    for(int k = 0; k < reads; ++k)
    {
        const Ref r = reference(s, at, skipws);
        const i128 init = 1000003 & Fm<F>::hi;
        F x = raw<F>(init);
        bool thrown = false;
        const bool usable = is.good();
        std::basic_istream<Ch>* ret = &is;
        try { ret = &(is >> x); }
        catch(const std::ios_base::failure&) { thrown = true; }
        const i128 got = val(x);
        const std::string what = quote(s) + " read " + std::to_string(k + 1) + " of " + Fm<F>::name() + (sizeof(Ch) > 1 ? " (wide)" : "") + (skipws ? "" : " (noskipws)");
        MC_CHECK(c, ret == &is, "%s: >> does not return the stream", what.c_str());
        const bool ok = !is.fail();
        MC_CHECK(c, thrown == (throwing && !ok), "%s: failbit %d but exception %d", what.c_str(), !ok, thrown);
        if(!ok) MC_CHECK(c, got == init, "%s: failed but changed its target to raw %s", what.c_str(), str(got).c_str());
        if(!usable)
        {
            MC_CHECK(c, !ok, "%s: a stream that is not good delivered a number", what.c_str());
            return;
        }
        if(!r.d.has_digit())
        {
            MC_CHECK(c, !ok, "%s: succeeded without a digit at position %zu", what.c_str(), r.from);
            return;
        }
        const Allowed<F> al(r.d);
        if(ok) MC_CHECK(c, al.can_fit && al.value_ok(got), "%s: stored raw %s, the text stands for %s%s steps", what.c_str(), str(got).c_str(), al.neg ? "-" : "", str(al.t).c_str());
        else MC_CHECK(c, al.can_fail, "%s: failed, although the format can represent %s%s steps", what.c_str(), al.neg ? "-" : "", str(al.t).c_str());
        MC_CHECK(c, buf.position() == r.to, "%s: the next character is number %zu, expected %zu", what.c_str(), buf.position(), r.to);
        MC_CHECK(c, is.eof() == (r.to == s.size()), "%s: eofbit is %d", what.c_str(), int(is.eof()));
        MC_CHECK(c, !is.bad(), "%s: badbit", what.c_str());
        if(!ok) return;
        at = r.to;
    }
}

#    if PART == 1
static void go(mc::Run& run)
{
    run.small_space = 256;
    each_format(run, "read", every<0, true, true>([]<class F>(i128 a, mc::Ctx& c) {
        ++c.valid;
        for(const std::string& s : forms<F>(a))
        {
            one_read<F, char>(c, " " + s + " " + s, 0, true, false, 2);
            one_read<F, wchar_t>(c, s + "x", 0, true, false, 2);
        }
        if(a == 0)
            for(const std::string& ip : int_parts(true))
                for(const char* t : {"", ".5", ".999999", "-."}) one_read<F, char>(c, (t[0] == '-' ? "-" : "") + ip + (t[0] == '-' ? t + 1 : t), 0, true, false, 1);
    }), 8, 128, run.thorough ? 2 : 1);
}
#    else
static void go(mc::Run& run)
{
    const bool th = run.thorough;
    {
        Strings S{"0-.95a ", th ? 10 : 9};
        run.space("every text, two reads", S.count(), [&](uint64_t i, mc::Ctx& c) {
            const std::string s = S.at(i);
            ++c.valid;
            one_read<f32, char>(c, s, 0, true, false, 2);
            if(s.size() <= 6)
            {
                one_read<f32, char>(c, s, 0, false, false, 1);
                one_read<f64, char>(c, s, ~0ull, true, true, 2);
                one_read<u16<8>, char>(c, s, 0, true, false, 2);
                one_read<f32, wchar_t>(c, s, ~0ull, true, false, 2);
            }
            if(c.want) c.note("%s", quote(s).c_str());
        });
    }
    {
        const auto I = int_parts(true), Fr = frac_parts(th);
        const std::vector<std::string> lead = {"", " ", "\t\n ", "-", "  -"}, tail = {"", "x", " 7.5", "."};
        run.space("structured numbers", uint64_t(I.size()) * Fr.size() * 20, [&](uint64_t i, mc::Ctx& c) {
            const auto& fr = Fr[i % Fr.size()];
            i /= Fr.size();
            const auto& ip = I[i % I.size()];
            i /= I.size();
            std::string s = lead[i % 5] + ip;
            if(fr != "(none)") s += "." + fr;
            s += tail[i / 5];
            ++c.valid;
            one_read<f32, char>(c, s, 0, true, false, 2);
            one_read<f64, char>(c, s, 0, true, false, 2);
            if(i % 5 == 0 || i % 5 == 3)
            {
                one_read<i8<4>, char>(c, s, 0, true, false, 2);
                one_read<u8<7>, char>(c, s, 0, true, false, 1);
                one_read<i16<8>, char>(c, s, 0, true, false, 1);
                one_read<u32<16>, char>(c, s, 0, true, false, 1);
                one_read<i32<20>, char>(c, s, 0, true, false, 1);
                one_read<i64<61>, char>(c, s, 0, true, false, 1);
                one_read<u64<32>, char>(c, s, 0, true, false, 1);
                one_read<i32L<16>, char>(c, s, 0, true, false, 1);
                one_read<i64L<32>, char>(c, s, 0, true, false, 1);
            }
            if(c.want) c.note("%s", quote(s).c_str());
        });
    }
    // every character there is, in every place of a number: none but the ASCII ones counts
    {
        static const std::pair<const char*, size_t> P[] = {{"x12", 0}, {"-x1", 1}, {"1x2", 1}, {"12.x5", 3}, {"12.5x5 3", 4}, {" x", 1}};
        auto strange = [](uint64_t ch) { return !(ch >= '0' && ch <= '9') && ch != '.' && ch != '-'; };
        run.space("every wide character in a number", uint64_t(0x110000) * 6, [&](uint64_t i, mc::Ctx& c) {
            const wchar_t ch = wchar_t(i % 0x110000);
            const auto& [t, at] = P[i / 0x110000];
            if(!strange(ch) || std::use_facet<std::ctype<wchar_t>>(std::locale::classic()).is(std::ctype_base::space, ch)) return;
            ++c.valid;
            one_read<f32, wchar_t>(c, t, 0, true, false, 2, at, ch);
            if(i % 7 == 0) one_read<f64, wchar_t>(c, t, ~0ull, true, false, 2, at, ch);
            if(c.want) c.note("%s with character %#x at %zu", t, unsigned(ch), at);
        });
        run.space("every narrow character in a number", 256 * 6, [&](uint64_t i, mc::Ctx& c) {
            const unsigned char ch = (unsigned char)(i % 256);
            const auto& [t, at] = P[i / 256];
            if(!strange(ch) || space_ch(char(ch))) return;
            ++c.valid;
            one_read<f32, char>(c, t, 0, true, false, 2, at, char(ch));
            one_read<f64, char>(c, t, ~0ull, true, false, 2, at, char(ch));
            if(c.want) c.note("%s with character %#x at %zu", t, unsigned(ch), at);
        });
    }
    // every way in which the text can arrive in pieces
    {
        const std::vector<std::string> T = {"-12.375", " 7 8", "3.14159265", "32768 1", "-32768.0", "0.00001x", "  .5-2", "12345.678", "99999999 2", "1.2.3.4", "-.25 -4", "x1"};
        for(const auto& t : T)
        {
            const uint64_t n = uint64_t(1) << t.size();
            run.space("arrival patterns of " + t, n, [&](uint64_t m, mc::Ctx& c) {
                ++c.valid;
                one_read<f32, char>(c, t, m, true, false, 3);
                one_read<f64, wchar_t>(c, t, m, true, true, 3);
                one_read<f64, char>(c, t, m, false, false, 2);
                if(c.want) c.note("%s arriving in the pieces given by mask %llx", quote(t).c_str(), (unsigned long long)m);
            });
            // the source fails at every position, for every arrival pattern up to there
            for(size_t p = 0; p <= t.size(); ++p)
                run.space("source of " + t + " fails at " + std::to_string(p), uint64_t(1) << p, [&](uint64_t m, mc::Ctx& c) {
                    PieceBuf<char> buf(t, m, p);
                    std::istream is(&buf);
                    ++c.valid;
                    size_t at = 0;
                    for(int k = 0; k < 3; ++k)
                    {
                        f32 x = raw<f32>(123456);
                        is >> x;
                        const i128 got = val(x);
                        const Ref r = reference(t, at, true);
                        if(is.fail())
                        {
                            MC_CHECK(c, got == 123456, "%s failing at %zu: read %d failed but changed its target to raw %s", quote(t).c_str(), p, k + 1, str(got).c_str());
                            break;
                        }
                        const Allowed<f32> al(r.d);
                        MC_CHECK(c, r.d.has_digit() && r.to < p && al.can_fit && al.value_ok(got), "%s failing at %zu: read %d delivered raw %s although its text never arrived completely", quote(t).c_str(), p, k + 1, str(got).c_str());
                        at = r.to;
                    }
                    if(c.want) c.note("%s, the source throws at %zu", quote(t).c_str(), p);
                });
        }
    }
    // every state of the stream: its flags, width, fill and precision neither matter (skipws does) nor change
    static const std::vector<std::string> TS = {"-12.375 0x1", " 7 8", "\t010.5", "0x10", "1e3", "+5", "1,234", "-0.0000152587890625", "32768", "", "  ", "-x"};
    run.space("flags, width, fill and precision of the stream", (uint64_t(1) << 17) * 3 * 3 * TS.size(), [&](uint64_t i, mc::Ctx& c) {
        const auto fl = std::ios_base::fmtflags(i & 0x1ffff);
        i >>= 17;
        const int width = std::array{0, 1, 40}[i % 3];
        i /= 3;
        const char fill = "\x20\x30-"[i % 3];
        const std::string& t = TS[i / 3];
        ++c.valid;
        std::istringstream is(t);
        is.flags(fl);
        is.width(width);
        is.fill(fill);
        is.precision(width + 1);
        is.imbue(std::locale::classic());
        const Ref r = reference(t, 0, fl & std::ios_base::skipws);
        f32 x = raw<f32>(123456);
        is >> x;
        const i128 got = val(x);
        if(is.fail()) MC_CHECK(c, got == 123456, "%s, flags %#x: failed but changed its target to raw %s", quote(t).c_str(), unsigned(fl), str(got).c_str());
        const Allowed<f32> al(r.d);
        const bool ok = r.d.has_digit() && (is.fail() ? al.can_fail : al.can_fit && al.value_ok(got));
        MC_CHECK(c, ok || (is.fail() && !r.d.has_digit()), "%s, flags %#x, width %d, fill '%c': failbit %d, raw %s", quote(t).c_str(), unsigned(fl), width, fill, int(is.fail()), str(got).c_str());
        MC_CHECK(c, is.flags() == fl && is.fill() == fill && is.precision() == width + 1, "%s: flags, fill or precision of the stream changed (flags %#x)", quote(t).c_str(), unsigned(fl));
        if(c.want) c.note("%s, flags %#x, width %d, fill '%c'", quote(t).c_str(), unsigned(fl), width, fill);
    });
    // every set of exceptions asked for, every state before the read, every position at which the source fails
    run.space("exceptions and states of the stream", 8 * 8 * 16 * TS.size() * 2, [&](uint64_t i, mc::Ctx& c) {
        static const std::ios_base::iostate B[3] = {std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit};
        std::ios_base::iostate mask{}, before{};
        for(int k = 0; k < 3; ++k)
        {
            if(i >> k & 1) mask |= B[k];
            if(i >> (k + 3) & 1) before |= B[k];
        }
        i >>= 6;
        const size_t fail_at = i % 16 ? i % 16 - 1 : size_t(-1);
        i /= 16;
        const std::string& t = TS[i / 2];
        if(fail_at != size_t(-1) && fail_at > t.size()) return;
        ++c.valid;
        auto one = [&]<class Ch>(Ch) {
            PieceBuf<Ch> buf(std::basic_string<Ch>(t.begin(), t.end()), i % 2 ? ~0ull : 0, fail_at);
            std::basic_istream<Ch> is(&buf);
            is.exceptions(mask);
            try { is.setstate(before); } catch(const std::ios_base::failure&) {}
            const std::string what = quote(t) + (sizeof(Ch) > 1 ? " (wide)" : "") + ", exceptions " + std::to_string(int(mask)) + ", state before " + std::to_string(int(before)) + ", source fails at " + std::to_string(long(fail_at));
            bool thrown = false;
            f32 x = raw<f32>(123456);
            try { is >> x; } catch(...) { thrown = true; }
            const i128 got = val(x);
            MC_CHECK(c, is.exceptions() == mask, "%s: the set of exceptions asked for changed to %d", what.c_str(), int(is.exceptions()));
            MC_CHECK(c, thrown == bool(is.rdstate() & mask), "%s: state %d but exception %d", what.c_str(), int(is.rdstate()), thrown);
            const Ref r = reference(t, 0, true);
            if(is.fail())
            {
                MC_CHECK(c, got == 123456, "%s: failed but changed its target to raw %s", what.c_str(), str(got).c_str());
                const Allowed<f32> al(r.d);
                MC_CHECK(c, before || !r.d.has_digit() || al.can_fail || r.to >= fail_at, "%s: failed", what.c_str());
                return;
            }
            const Allowed<f32> al(r.d);
            MC_CHECK(c, !before && r.d.has_digit() && al.can_fit && al.value_ok(got) && (fail_at == size_t(-1) || r.to < fail_at), "%s: delivered raw %s", what.c_str(), str(got).c_str());
            MC_CHECK(c, is.eof() == (r.to == t.size()), "%s: eofbit is %d", what.c_str(), int(is.eof()));
            if(c.want) c.note("%s", what.c_str());
        };
        one(char());
        one(wchar_t());
    });
    // every history of up to 4 (5) tokens
    {
        const std::vector<std::string> tok = {"1.5", "-2", "x", "40000", "-0.0001", ".", "-", "7.", ".25", "32767.99998"};
        const std::vector<std::string> sep = {" ", "\n", "  \t", ","};
        const int depth = th ? 5 : 4;
        uint64_t n = 1;
        for(int k = 0; k < depth; ++k) n *= tok.size();
        run.space("token histories", n * sep.size(), [&](uint64_t i, mc::Ctx& c) {
            const std::string& se = sep[i % sep.size()];
            i /= sep.size();
            std::string s;
            for(int k = 0; k < depth; ++k) { s += (k ? se : "") + tok[i % tok.size()]; i /= tok.size(); }
            ++c.valid;
            one_read<f32, char>(c, s, 0, true, false, depth + 1);
            one_read<f64, char>(c, s, 0, true, false, depth + 1);
            if(c.want) c.note("%s", quote(s).c_str());
        });
    }
}
#    endif
#endif

int main(int argc, char** argv)
{
    mc::Run run(argc, argv, PROP == 9 ? "C09" : "C10");
    go(run);
    return run.finish();
}
