// Generators and observations of big integers, with GMP as the independent reference.
#pragma once
#include <gmpxx.h>
#include <memory>
#include "pbt.h"
#include "BigIntegerImpl.h"
#include "PGBigNumber/BigInteger.h"
#include "PGBigNumber/Status.h"
#include "PGBigNumber/errInfos.h"

namespace num {
using pbt::Case;
using pgbn::BigInteger;
using Z = mpz_class;

inline Z pow2(unsigned long k) { Z r; mpz_setbit(r.get_mpz_t(), k); return r; }
inline Z z64(int64_t v) {
    Z r;
    uint64_t m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v;
    mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &m);
    return v < 0 ? Z(-r) : r;
}
inline Z zu64(uint64_t v) { Z r; mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &v); return r; }
inline bool fitsI64(const Z & v) { return v >= z64(INT64_MIN) && v <= z64(INT64_MAX); }
inline int64_t toI64(const Z & v) {
    Z m = abs(v);
    uint64_t u = 0;
    mpz_export(&u, nullptr, -1, 8, 0, 0, m.get_mpz_t());
    return v < 0 ? (int64_t)(0 - u) : (int64_t)u;
}
inline size_t words(const Z & v) { return v == 0 ? 0 : (mpz_sizeinbase(v.get_mpz_t(), 2) + 31) / 32; }
inline size_t bitlen(const Z & v) { return v == 0 ? 0 : mpz_sizeinbase(v.get_mpz_t(), 2); }
inline std::string zs(const Z & v) {
    std::string s = (v < 0 ? "-0x" : "0x") + Z(abs(v)).get_str(16);
    if (s.size() > 300) s = s.substr(0, 140) + "...(" + std::to_string(bitlen(v)) + " bits)..." + s.substr(s.size() - 140);
    return s;
}
inline std::string magLE(const Z & v) {  // absolute value, little endian, no superfluous bytes
    std::string b((bitlen(v) + 7) / 8, '\0');
    size_t n = 0;
    mpz_export(b.data(), &n, -1, 1, 0, 0, v.get_mpz_t());
    return b;
}
// two's complement, little endian, exactly len bytes (len must be large enough to hold v)
inline std::string twosLE(const Z & v, size_t len) {
    Z t = v;
    if (t < 0) t += pow2(8 * len);
    std::string b(len, '\0');
    size_t n = 0;
    mpz_export(b.data(), &n, -1, 1, 0, 0, t.get_mpz_t());
    return b;
}
inline size_t minTwosLen(const Z & v) {  // bytes needed for a sign bit and the value; at least 1
    if (v >= 0) return bitlen(v) / 8 + 1;
    Z t = -v - 1;
    return bitlen(t) / 8 + 1;
}

// ---- generation of values
inline uint32_t genWord(Case & c) {
    switch (c.weighted({3, 4, 2, 2, 2, 1, 1, 6})) {
    case 0: return 0;
    case 1: return 0xffffffffu;
    case 2: return 0x80000000u;
    case 3: return 1;
    case 4: return 0x7fffffffu;
    case 5: return 0xfffffffeu;
    case 6: return (uint32_t)1 << c.draw(31);
    default: return (uint32_t)c.bits(32);
    }
}
inline Z fromWords(const std::vector<uint32_t> & w) {
    Z r;
    if (!w.empty()) mpz_import(r.get_mpz_t(), w.size(), -1, 4, 0, 0, w.data());
    return r;
}
inline uint64_t boundary64(Case & c) {
    static const std::vector<uint64_t> t = {
        0, 1, 2, 9, 10, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff,
        0x100000000, 0x100000001, 0x1fffffffe, 0x7fffffffffffffff, 0x8000000000000000, 0x8000000000000001, 0xffffffff00000000,
        0xfffffffffffffffe, 0xffffffffffffffff, 1000000000, 10000000000000000000ull, 0x7fffffff00000000, 0x7fffffffffffffff - 1};
    return c.pick(t);
}
// magnitude with at most maxWords 32-bit words
inline Z genMagWords(Case & c, size_t n) {  // exactly n words (top word non-zero)
    std::vector<uint32_t> w(n);
    if (n == 0) return 0;
    if (n > 130) c.heavy();
    int style = (int)c.weighted({4, 3, 2, 2});
    if (n > 24) {  // long: a drawn seed expands to the words; a few words are then chosen one by one
        pbt::Rng r(c.bits(64));
        for (auto & x : w) {
            uint64_t k = r.next();
            switch (style) {
            case 0: x = (uint32_t)k; break;
            case 1: { static const uint32_t sp[8] = {0, 0, 0xffffffffu, 0xffffffffu, 1, 0x80000000u, 0x7fffffffu, 0xfffffffeu}; x = (k >> 40) % 5 == 0 ? (uint32_t)k : sp[(k >> 32) & 7]; break; }
            case 2: x = 0xffffffffu; break;
            default: x = 0; break;
            }
        }
        size_t k = c.draw(6);
        for (size_t i = 0; i < k; ++i) w[c.draw(n - 1)] = genWord(c);
    } else if (style == 0 || style == 1) {
        for (auto & x : w) x = genWord(c);
    } else {
        uint32_t f = style == 2 ? 0xffffffffu : 0;
        for (auto & x : w) x = f;
        size_t k = c.draw(2);
        for (size_t i = 0; i < k; ++i) w[c.draw(n - 1)] = genWord(c);
    }
    if (w[n - 1] == 0 || c.chance(1, 4)) w[n - 1] = c.chance(1, 2) ? (uint32_t)1 << c.draw(31) : 0xffffffffu >> c.draw(31);
    return fromWords(w);
}
enum Size { SMALL, MEDIUM, LARGE, HUGE_, MASSIVE };
// beyond what a count of 10, 12, 16 or 17 bits can tell; only for work that grows linearly
inline size_t massiveCount(Case & c) {
    static const std::vector<uint64_t> t = {1022, 1023, 1024, 1025, 2047, 2048, 4094, 4095, 4096, 8191, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131071, 131072};
    return c.pick(t) + c.draw(3);
}
inline Z genMassive(Case & c) {
    c.massive();
    const size_t n = massiveCount(c);
    std::vector<uint32_t> w(n, c.chance(1, 4) ? 0xffffffffu : 0);
    pbt::Rng r(c.bits(64));
    switch (c.weighted({3, 3, 2, 2})) {
    case 0: for (auto & x : w) x = (uint32_t)r.next(); break;
    case 1: { size_t low = c.chance(1, 2) ? n - 1 - c.draw(3) : n - 1 - c.draw(n - 1); for (size_t i = low; i < n; ++i) w[i] = genWord(c); break; }  // zeros or ff..ff below
    case 2: for (auto & x : w) { static const uint32_t sp[4] = {0, 0xffffffffu, 1, 0x80000000u}; x = sp[r.next() >> 62]; } break;
    default: for (size_t k = c.draw(4); k > 0; --k) w[c.draw(n - 1)] = genWord(c); break;
    }
    if (w[n - 1] == 0) w[n - 1] = 1;
    return fromWords(w);
}
inline Z genMag(Case & c, Size s = MEDIUM) {
    if (s == MEDIUM && c.chance(1, 100)) s = LARGE;
    if (s == LARGE && c.chance(1, 50)) s = HUGE_;
    if (s == MASSIVE) return genMassive(c);
    switch (c.weighted({3, 4, 4, 8, s >= MEDIUM ? 5 : 0, s >= LARGE ? 5 : 0, s >= HUGE_ ? 4 : 0})) {
    case 0: return Z((unsigned long)c.draw(20));
    case 1: { Z v = zu64(boundary64(c)) + (long)c.range(-1, 1); return v < 0 ? Z(0) : v; }
    case 2: {
        unsigned long k = c.draw(s == SMALL ? 130 : 1200);
        if (c.chance(1, 2)) k = k / 32 * 32;
        Z v = pow2(k) + (long)c.range(-2, 2);
        return v < 0 ? Z(0) : v;
    }
    case 3: return genMagWords(c, c.draw(5));
    case 4: return genMagWords(c, 1 + (c.chance(1, 8) ? c.draw(69) : c.draw(23)));
    case 5: return genMagWords(c, 60 + c.draw(60));
    default: {
        static const std::vector<uint64_t> t = {79, 80, 81, 82, 83, 158, 159, 160, 161, 162, 163, 200, 239, 240, 241, 319, 320, 321, 322, 400, 500, 641};
        static const std::vector<uint64_t> u = {127, 128, 129, 255, 256, 257, 511, 512, 513, 767, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049};
        if (c.chance(1, 16)) return genMagWords(c, c.pick(u));
        return genMagWords(c, c.chance(2, 3) ? c.pick(t) : 80 + c.draw(400));
    }
    }
}
inline Z genZ(Case & c, Size s = MEDIUM) {
    Z v = genMag(c, s);
    return c.chance(2, 5) ? Z(-v) : v;
}
inline int64_t genI64(Case & c) {
    uint64_t v;
    switch (c.weighted({3, 5, 2, 3})) {
    case 0: v = c.draw(20); break;
    case 1: v = boundary64(c) + (uint64_t)c.range(-1, 1); break;
    case 2: v = 1ULL << c.draw(63); break;
    default: v = c.bits(64) >> c.draw(63); break;
    }
    return (int64_t)(c.chance(2, 5) ? 0 - v : v);
}

// ---- construction: the same value through different routes (its representation and sharing must not matter)
struct Keep {  // values that share storage with the one built; they must keep their own value
    std::vector<std::pair<std::unique_ptr<BigInteger>, Z>> alive;
};

inline BigInteger fromZ(const Z & v) {  // plain reference construction
    std::string b = twosLE(v, minTwosLen(v));
    return BigInteger((pgbn::SizeType)b.size(), b.data(), true);
}
inline BigInteger parse(Case & c, const Z & v, int radix) {
    bool ok = false;
    std::string s = v.get_str(radix);
    BigInteger r(s, radix, &ok);
    c.checkf(ok, [&] { return "parsing " + s.substr(0, 200) + " in radix " + std::to_string(radix) + " was rejected"; });
    return r;
}
static const char * const ROUTES[] = {"decimal", "radix", "bin-le", "bin-be", "int64", "sub-add", "shl-shr", "shared-copy", "double-neg", "mul-div",
                                      "xor-xor", "assign-over", "moved", "drop-top", "not-not", "inc-dec", "bit-strip", "cached", "slice"};
// from a window on a vector of words, with zero words above the value, and words outside the window
inline pgbn::BigIntegerImpl implOfSlice(Case & c, const Z & v) {
    std::string b = twosLE(abs(v), words(v) * 4 + 4);
    const size_t n = words(v), zeros = c.draw(3), lo = c.chance(1, 2) ? c.draw(4) : 0, after = c.chance(1, 2) ? c.draw(4) : 0;
    const uint32_t junk = c.chance(1, 2) ? 0 : (uint32_t)c.bits(32);
    auto vec = std::make_shared<std::vector<uint32_t>>(lo + n + zeros + after, 0u);
    for (size_t i = 0; i < lo; ++i) (*vec)[i] = junk;
    for (size_t i = 0; i < after; ++i) (*vec)[lo + n + zeros + i] = junk;
    for (size_t i = 0; i < n; ++i) (*vec)[lo + i] = (uint8_t)b[4 * i] | (uint32_t)(uint8_t)b[4 * i + 1] << 8 | (uint32_t)(uint8_t)b[4 * i + 2] << 16 | (uint32_t)(uint8_t)b[4 * i + 3] << 24;
    if (n + zeros == 0) return pgbn::BigIntegerImpl(pgbn::Slice<uint32_t>(), (int)c.range(-1, 1));
    int sign = v < 0 ? -1 : 1;
    if (v == 0) sign = (int)c.range(-1, 1);
    return pgbn::BigIntegerImpl(pgbn::Slice<uint32_t>(std::move(vec), lo, lo + n + zeros), sign);
}
inline BigInteger build(Case & c, const Z & v, Keep & keep, std::string * route = nullptr) {
    size_t k = c.weighted({3, 2, 3, 2, 4, 2, 2, 4, 1, 2, 2, 4, 1, 3, 1, 2, 2, 2, 2});
    if (words(v) > 1000) { static const size_t linear[] = {2, 3, 5, 6, 7, 8, 10, 12, 13, 14, 15, 16, 17, 18}; if (k != 2 && k != 7) k = linear[k * 14 / 19]; }
    if (route) *route = ROUTES[k];
    c.stage("building an operand");
    auto keepCopy = [&](const BigInteger & b, const Z & val) { keep.alive.emplace_back(std::make_unique<BigInteger>(b), val); };
    switch (k) {
    case 0: return parse(c, v, 10);
    case 1: return parse(c, v, (int)c.range(2, 36));
    case 2: case 3: {
        size_t len = minTwosLen(v) + c.draw(9);
        std::string b = twosLE(v, len);
        if (k == 3) std::string(b.rbegin(), b.rend()).swap(b);
        return BigInteger((pgbn::SizeType)len, b.data(), k == 2);
    }
    case 4:
        if (fitsI64(v)) return BigInteger((std::int64_t)toI64(v));
        return fromZ(v);
    case 5: {
        Z d = genZ(c, SMALL);
        if (c.chance(1, 3)) d = v + (long)c.range(-2, 2);  // cancellation of the leading words
        BigInteger r = fromZ(v - d);
        r += fromZ(d);
        return r;
    }
    case 6: {
        unsigned long s = c.draw(100);
        BigInteger r = fromZ(v);
        r <<= s;
        if (c.chance(1, 3)) keepCopy(r, v << s);
        r >>= s;
        return r;
    }
    case 7: {
        BigInteger r = fromZ(v);
        keepCopy(r, v);
        if (c.chance(1, 2)) { BigInteger t(r); t.negate(); keepCopy(t, -v); }
        return r;
    }
    case 8: { BigInteger r = fromZ(-v); return c.chance(1, 2) ? -r : r.negated(); }
    case 9: {
        Z d = genZ(c, SMALL);
        if (d == 0) d = 3;
        BigInteger r = fromZ(v);
        r *= fromZ(d);
        r /= fromZ(d);
        return r;
    }
    case 10: {
        Z d = genZ(c, SMALL);
        BigInteger r = fromZ(v);
        r ^= fromZ(d);
        r ^= fromZ(d);
        return r;
    }
    case 11: {  // over storage that held something else
        BigInteger r = fromZ(genZ(c, MEDIUM));
        if (c.chance(1, 3)) { BigInteger s(r); r = s; }
        switch (c.draw(3)) {
        case 0: { std::string s = v.get_str(10); r.assign(pgbn::StringArg(s)); break; }
        case 1: { std::string b = twosLE(v, minTwosLen(v)); r.fromBinary(b.data(), b.size(), true); break; }
        case 2: if (fitsI64(v)) { if (c.chance(1, 2)) r.assign((std::int64_t)toI64(v)); else r = (std::int64_t)toI64(v); break; } [[fallthrough]];
        default: { BigInteger t = fromZ(v); r = t; if (c.chance(1, 2)) keepCopy(t, v); break; }
        }
        return r;
    }
    case 12: { BigInteger r = fromZ(v); BigInteger s(std::move(r)); BigInteger t; t = std::move(s); return t; }
    case 13: {  // the top words were dropped by arithmetic, so the storage is longer than the value
        Z top = pow2(32 * (words(v) + 1 + c.draw(2)));
        if (v < 0) top = -top;
        BigInteger r = fromZ(v + top);
        if (c.chance(1, 3)) keepCopy(r, v + top);
        r -= fromZ(top);
        return r;
    }
    case 14: return ~~fromZ(v);
    case 15: {
        BigInteger r = fromZ(v + 1);
        if (c.chance(1, 2)) keepCopy(r, v + 1);
        if (c.chance(1, 2)) --r; else r--;
        return r;
    }
    case 16: {  // low bits shifted out
        unsigned long s = c.draw(70);
        Z low = fromWords({(uint32_t)c.bits(32), (uint32_t)c.bits(32), (uint32_t)c.bits(32)}) & (pow2(s) - 1);
        BigInteger r = fromZ((v << s) + low);
        r >>= s;
        return r;
    }
    case 18: return BigInteger(std::make_unique<pgbn::BigIntegerImpl>(implOfSlice(c, v)));
    default: {  // internal caches warmed, then copied
        BigInteger r = fromZ(v);
        (void)r.get2sComplement(c.draw(3));
        if (c.chance(1, 2)) { BigInteger s(r); keepCopy(r, v); return s; }
        return r;
    }
    }
}

// ---- observation: every public way of looking at a value must agree with the reference
inline void observe(Case & c, const BigInteger & b, const Z & v, const char * what, bool full = true) {
    auto ctx = [&](const char * m) { return std::string(what) + ": " + m + "; expected value " + zs(v); };
    c.stage(what);
    c.checkf(b.isZero() == (v == 0), [&] { return ctx("isZero is wrong"); });
    c.checkf(b.isPositive() == (v > 0), [&] { return ctx("isPositive is wrong"); });
    c.checkf(b.isNegative() == (v < 0), [&] { return ctx("isNegative is wrong"); });
    c.checkf(b.isOne() == (v == 1), [&] { return ctx("isOne is wrong"); });
    c.checkf(b.isNegOne() == (v == -1), [&] { return ctx("isNegOne is wrong"); });
    bool even = mpz_even_p(v.get_mpz_t());
    c.checkf(b.isEven() == even && b.isOdd() == !even, [&] { return ctx("isEven/isOdd is wrong"); });
    std::string m = magLE(v), buf(m.size() + 16, '\x5a');
    size_t n = b.copyMagDataTo(buf.data(), buf.size());
    c.checkf(n == m.size(), [&] { return ctx("wrong number of magnitude bytes") + ", got " + std::to_string(n) + " instead of " + std::to_string(m.size()); });
    c.checkf(std::memcmp(buf.data(), m.data(), n) == 0, [&] { Z g; mpz_import(g.get_mpz_t(), n, -1, 1, 0, 0, buf.data()); return ctx("wrong magnitude") + ", got magnitude " + zs(g); });
    if (!full) return;
    BigInteger ref = fromZ(v);
    c.checkf(b == ref && ref == b && !(b != ref) && b.cmp(ref) == 0 && ref.cmp(b) == 0, [&] { return ctx("does not compare equal to the same value built from bytes"); });
    size_t w = words(v);
    for (size_t i : {size_t(0), w / 2, w ? w - 1 : 0, w, w + 3}) {
        Z t;
        mpz_fdiv_q_2exp(t.get_mpz_t(), v.get_mpz_t(), 32 * i);
        mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 32);
        uint32_t got = b.get2sComplement(i);
        c.checkf(got == (uint32_t)t.get_ui(), [&] { return ctx("wrong two's complement word") + " " + std::to_string(i); });
    }
}
inline void observeText(Case & c, const BigInteger & b, const Z & v, const char * what, int radix = 10) {
    std::string s = b.toString(radix), e = v.get_str(radix);
    c.checkf(s == e, [&] { return std::string(what) + ": text in radix " + std::to_string(radix) + " is " + s.substr(0, 200) + ", expected " + e.substr(0, 200); });
}
inline void observeKeep(Case & c, const Keep & k) {
    for (auto & p : k.alive) observe(c, *p.first, p.second, "a value that only shared storage with an operand");
}
// the implementation object, as the library's internals and the C interface use it
inline pgbn::BigIntegerImpl implOf(const Z & v) {
    std::string b = twosLE(v, minTwosLen(v));
    return pgbn::BigIntegerImpl(b.data(), b.size(), true);
}
// an implementation object that held (and perhaps was asked for words of) another value before it receives a result
inline pgbn::BigIntegerImpl usedImpl(Case & c, const Z & v) {
    pgbn::BigIntegerImpl r = implOf(v);
    if (c.chance(1, 2)) (void)r.getU32(0);
    return r;
}
inline void observeImpl(Case & c, const pgbn::BigIntegerImpl & i, const Z & v, const char * what) {
    observe(c, BigInteger(std::make_unique<pgbn::BigIntegerImpl>(i)), v, what);
    auto ctx = [&](const char * m) { return std::string(what) + ": " + m + "; expected value " + zs(v); };
    namespace F = pgbn::BNFlag;
    c.checkf(i.isZero() == (v == 0) && i.isOne() == (v == 1) && i.isNegOne() == (v == -1) && i.isEven() == (bool)mpz_even_p(v.get_mpz_t()), [&] { return ctx("isZero, isOne, isNegOne or isEven of the implementation is wrong"); });
    c.checkf(i.flagsContains(F::ZERO) == (v == 0) && i.flagsContains(F::POSITIVE) == (v > 0) && i.flagsContains(F::NEGATIVE) == (v < 0), [&] { return ctx("flagsContains is wrong"); });
    c.checkf(i.getMagU32Count() == words(v), [&] { return ctx("getMagU32Count is wrong"); });
    auto [r, q] = i.getMagBitCount();
    c.checkf(r < 32 && r + 32 * q == (v == 0 ? 0 : bitlen(v)), [&] { return ctx("getMagBitCount is wrong"); });
    Z t;
    mpz_fdiv_r_2exp(t.get_mpz_t(), v.get_mpz_t(), 64);
    c.checkf(i.toU64() == t.get_ui(), [&] { return ctx("toU64 is wrong"); });
}
// the value, read through the magnitude bytes and the sign (only where observe() would also be satisfied)
inline Z toZ(const BigInteger & b) {
    std::string buf(64, '\0');
    size_t n = b.copyMagDataTo(buf.data(), buf.size());
    while (n >= buf.size()) { buf.resize(buf.size() * 4); n = b.copyMagDataTo(buf.data(), buf.size()); }
    Z r;
    mpz_import(r.get_mpz_t(), n, -1, 1, 0, 0, buf.data());
    return b.isNegative() ? Z(-r) : r;
}
}  // namespace num
