// Exact decimal reference: reading a decimal text as a number of steps of 2^-f.
#pragma once
#include "every.hpp"

// sign, digits before and after the point, as found in a text
struct Dec
{
    bool neg = false;
    std::string ip, fp;
    bool has_digit() const { return !ip.empty() || !fp.empty(); }
};

// longest prefix of the form  -?digits*(.digits*)?   (returns its length)
static inline size_t scan(const char* s, size_t n, Dec& d)
{
    size_t i = 0;
    d = Dec();
    if(i < n && s[i] == '-') { d.neg = true; ++i; }
    while(i < n && s[i] >= '0' && s[i] <= '9') d.ip += s[i++];
    if(i < n && s[i] == '.')
    {
        ++i;
        while(i < n && s[i] >= '0' && s[i] <= '9') d.fp += s[i++];
    }
    return i;
}

// The magnitude in steps, truncated; values beyond 2^100 are reported as 2^100.
static inline i128 steps(const Dec& d, int f)
{
    const i128 big = i128(1) << 100;
    i128 v = 0;
    for(char ch : d.ip)
    {
        v = v * 10 + (ch - '0');
        if(v > (i128(1) << 90)) v = i128(1) << 90; // sticky: far beyond every format
    }
    if(v >= (big >> f)) return big;
    v <<= f;
    if(d.fp.empty()) return v;
    // fraction * 2^f by repeated doubling of the decimal digits
    char dig[512];
    size_t n = d.fp.size();
    for(size_t i = 0; i < n; ++i) dig[i] = char(d.fp[i] - '0');
    i128 r = 0;
    int left = f;
    while(left > 0)
    {
        const int k = left < 16 ? left : 16;
        unsigned carry = 0;
        for(size_t i = n; i-- > 0;)
        {
            unsigned x = (unsigned(dig[i]) << k) + carry;
            dig[i] = char(x % 10);
            carry = x / 10;
        }
        r = (r << k) + carry;
        left -= k;
    }
    return v + r;
}
// number of fraction digits every format with f fraction bits reads exactly
static inline int exact_digits(int f) { return int((long double)f * 0.30102999566398119521L); }

// What a reader may store for the number d in format F: the truncated magnitude t, or - when the
// text has more fraction digits than the format resolves - up to `slack` steps less.
template <class F>
struct Allowed
{
    i128 t = 0, least = 0;
    bool neg = false;
    bool can_fit = false, can_fail = false;

    explicit Allowed(const Dec& d)
    {
        t = steps(d, Fm<F>::frac);
        neg = d.neg;
        const int slack = int(d.fp.size()) <= exact_digits(Fm<F>::frac) ? 0 : 10;
        // dropping digits never changes the integral part
        const i128 ipart = t / Fm<F>::one * Fm<F>::one;
        least = t - slack < ipart ? ipart : t - slack;
        can_fit = Fm<F>::fits(neg ? -least : least);
        can_fail = !Fm<F>::fits(neg ? -t : t);
    }
    bool value_ok(i128 raw) const
    {
        const i128 m = neg ? -raw : raw;
        return m >= least && m <= t;
    }
};

// A buffer whose end is the end of the accessible memory.
struct Guarded
{
    char* end;
    Guarded()
    {
        char* p = (char*)mmap(nullptr, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(p + 2 * 4096, 4096, PROT_NONE);
        end = p + 2 * 4096;
    }
    char* put(const char* s, size_t n)
    {
        char* p = end - n;
        memcpy(p, s, n);
        return p;
    }
};
