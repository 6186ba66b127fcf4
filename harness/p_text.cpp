// Text, bytes and machine integers.
#include <cctype>
#include "num.h"
#include "view.h"
using namespace num;
using pgbn::Status;
namespace ErrCode = pgbn::ErrCode;

namespace {

// values near powers of the radix: digits full of zeros or of the largest digit
Z radixZ(Case & c, int radix) {
    Z p;
    unsigned long k = c.draw(c.chance(1, 10) ? (c.chance(1, 20) ? 6000 : 400) : 60);
    if (k > 400) c.heavy();
    mpz_ui_pow_ui(p.get_mpz_t(), radix, k);
    Z v = p * (unsigned long)(1 + c.draw(radix - 1)) + (long)c.range(-2, 2);
    if (c.chance(1, 3)) {
        Z q;
        mpz_ui_pow_ui(q.get_mpz_t(), radix, c.draw(k));
        v += q * (long)c.range(-3, 3);
    }
    if (c.chance(1, 3)) v = -v;
    return v;
}

}  // namespace

// ------------------------------------------------------------------ C07
PBT_PROPERTY("C07", prop_text,
    "A case picks a radix 2..36 and a value (general, up to ~640 words; or near multiples of powers of the radix, so that digit blocks are all zeros or all largest digits), and checks that the value built "
    "through any route prints exactly GMP's text in that radix (and decimal through as<std::string>), that the text read back, with drawn leading zeros, sign and letter case, by constructor or by assign over "
    "another value, gives the value, reports success, and that reading does not look beyond the view. Non-trivial: the text has at least two blocks of digits (|value| >= 2^64).",
    300000, 4000000) {
    int radix = c.chance(1, 3) ? 10 : (int)c.range(2, 36);
    Z v = c.chance(1, 2) ? radixZ(c, radix) : genZ(c, c.chance(1, 24) ? HUGE_ : MEDIUM);
    if (bitlen(v) > 64) c.nontrivial();
    Keep k;
    std::string route;
    if (c.verbose) c.note("radix " + std::to_string(radix) + ", value " + zs(v));
    std::string e = v.get_str(radix);
    c.label(radix == 10 ? "radix 10" : (radix & (radix - 1)) == 0 ? "radix a power of two" : "other radix");
    {
        size_t d = e.find_first_not_of("-");
        if (e.find("0000000000000", d) != std::string::npos) c.label("a long run of zero digits");
    }
    BigInteger x = build(c, v, k, &route);
    c.stage("toString");
    std::string g = x.toString(radix);
    c.checkf(g == e, [&] { return "text in radix " + std::to_string(radix) + " of a value built by " + route + " is " + g.substr(0, 300) + ", expected " + e.substr(0, 300); });
    if (radix == 10) {
        c.checkf(x.as<std::string>() == e && x.toString() == e, [&] { return std::string("as<std::string>() or toString() is not the decimal text"); });
    }
    observe(c, x, v, "the printed value afterwards", false);
    if (c.chance(1, 6) && bitlen(v) < 20000) {  // the converter that gives the digits in pieces, the low ones first
        c.label("in pieces");
        c.stage("converting to text in pieces");
        pgbn::detail::BigIntegerImplToStringHelper h(implOf(v), radix);
        std::vector<Z> pieces;
        size_t longest = 0;
        std::string all;
        while (h.hasNext()) {
            auto [at, str, len] = h.next();
            std::string s(str, len);
            all += " " + pbt::quote(s);
            c.checkf(at == pieces.size(), [&] { return "a piece has the wrong number:" + all; });
            if (at == 0 && v < 0) { c.checkf(!s.empty() && s[0] == '-', [&] { return "the first piece of a negative number has no sign:" + all; }); s.erase(0, 1); }
            bool fine = !s.empty() && (s == "0" || s[0] != '0');
            for (char ch : s) fine = fine && ((ch >= '0' && ch <= '9' && ch - '0' < radix) || (ch >= 'a' && ch <= 'z' && ch - 'a' + 10 < radix));
            c.checkf(fine, [&] { return "a piece is not a number without leading zeros:" + all; });
            c.check(pieces.size() < 20000, "the pieces do not end");
            longest = std::max(longest, s.size());
            pieces.emplace_back(s, radix);
        }
        bool fits = false;
        for (size_t k = longest; k <= 64 && !fits; ++k) {
            Z b, sum = 0;
            mpz_ui_pow_ui(b.get_mpz_t(), radix, k);
            for (size_t i = pieces.size(); i--;) sum = sum * b + pieces[i];
            fits = sum == abs(v);
        }
        c.checkf(fits, [&] { return "the pieces do not make up the number:" + all.substr(0, 1000); });
        observe(c, x, v, "the value converted in pieces", false);
    }
    // and back
    std::string t = e;
    bool neg = t[0] == '-';
    if (neg) t.erase(0, 1);
    for (auto & ch : t)
        if (std::isalpha((unsigned char)ch) && c.chance(1, 2)) ch = (char)std::toupper(ch);
    if (c.chance(1, 4)) { t.insert(0, std::string(c.chance(1, 2000) ? 65000 + c.draw(1000) : c.draw(c.chance(1, 25) ? 6000 : 40), '0')); c.label("leading zeros"); }
    if (t.size() > 600) c.heavy();
    if (neg) t.insert(0, "-");
    else if (c.chance(1, 4)) t.insert(0, "+");
    if (v == 0 && c.chance(1, 3)) t.insert(t.find_first_of('0'), t[0] == '+' ? "" : "-");
    View vw;
    pgbn::StringArg arg = vw.get(c, t);
    if (c.verbose) c.note("text read back: " + pbt::quote(t.substr(0, 300)));
    c.stage("reading the text back");
    bool ok = false;
    Z old = genZ(c, SMALL);
    BigInteger y;
    switch (c.draw(2)) {
    case 0: { BigInteger z(arg, radix, &ok); y = z; break; }
    case 1: { y = fromZ(old); BigInteger & r = y.assign(arg, radix, &ok); c.check(&r == &y, "assign must return its object"); break; }
    default: {
        BigInteger s = fromZ(old);
        y = s;
        y.assign(arg, radix, &ok);
        observe(c, s, old, "value that shared storage with the object read into", false);
        break;
    }
    }
    c.checkf(ok, [&] { return "reading " + pbt::quote(t.substr(0, 300)) + " in radix " + std::to_string(radix) + " did not report success"; });
    c.checkf(statusInfo() == infoOf(ErrCode::SUCCESS), [&] { return "after reading a valid number the thread's status is " + statusInfo(); });
    observe(c, y, v, "value read back");
    y.assign(arg, radix);  // without a place for the outcome
    observe(c, y, v, "value read back again", false);
    observeKeep(c, k);
}

// ------------------------------------------------------------------ C08
PBT_PROPERTY("C08", prop_reject,
    "A case takes a number text in a drawn radix (1 to ~90 digits, now and then ~3000, any sign and leading zeros) and damages it: a digit too large for the radix, any byte value, white space or NUL, at any position, a second or misplaced sign, nothing after the sign, "
    "the empty text, or a radix outside 2..36; it reads it by constructor or by assign over an existing (shared) value, through a view. Texts that stay valid must be read correctly; all others must report failure, leave the "
    "object's value (0 when constructed) and all sharing values unchanged, and leave the thread's status showing an error that applies. Non-trivial: the text is invalid.",
    1500000, 15000000) {
    int radix = c.chance(1, 4) ? 10 : (int)c.range(2, 36);
    static const char digs[] = "0123456789abcdefghijklmnopqrstuvwxyz";
    std::string t;
    const bool massive = c.chance(1, 15000);  // more than 2^16 characters, nearly all of them zeros
    size_t n = massive ? (c.chance(1, 4) ? 131072 : 65534) + c.draw(6) : c.weighted({1, 6, 3}) == 0 ? 1 : 1 + c.draw(c.chance(1, 3) ? (c.chance(1, 100) ? 3000 : 90) : 24);
    size_t z = massive ? n - c.draw(40) : c.chance(1, 4) ? c.draw(n) : 0;
    if (massive) { c.massive(); c.label("more than 65000 characters"); t.assign(z, '0'); }
    for (size_t i = t.size(); i < n; ++i) {
        char ch = i < z ? '0' : digs[c.draw(radix - 1)];
        if (c.chance(1, 4)) ch = (char)std::toupper(ch);
        t.push_back(ch);
    }
    switch (c.draw(4)) {
    case 3: t.insert(0, "-"); break;
    case 4: t.insert(0, "+"); break;
    default: break;
    }
    int dmg = (int)c.weighted({1, 6, 4, 3, 4, 1, 1, 2, 2});
    switch (dmg) {
    case 0: break;
    case 1: { size_t p = c.draw(t.size() - 1); if (radix < 36) t[p] = digs[radix + c.draw(35 - radix)]; if (c.chance(1, 2)) t[p] = (char)std::toupper(t[p]); break; }  // digit too large
    case 2: t[c.draw(t.size() - 1)] = (char)c.draw(255); break;
    case 3: { static const char w[] = " \t\n\r.,_xXeE/:@[`{\0"; t.insert(c.draw(t.size()), 1, w[c.draw(sizeof w - 2)]); break; }
    case 4: t.insert(c.draw(t.size()), 1, c.chance(1, 2) ? '-' : '+'); break;
    case 5: t = c.chance(1, 2) ? "-" : "+"; break;
    case 6: t.clear(); break;
    case 7: { static const int bad[] = {37, 1, 0, -1, 64, 100, 256 + 10, 38, INT32_MAX, INT32_MIN}; radix = bad[c.draw(9)]; break; }
    default: t.insert(t.size(), 1, (char)c.draw(255)); break;  // something after the last digit
    }
    if (t.size() > 100) c.heavy();
    // reference reading
    bool radixOk = radix >= 2 && radix <= 36;
    size_t p = !t.empty() && (t[0] == '-' || t[0] == '+') ? 1 : 0;
    bool empty = p == t.size();
    bool misplacedSign = t.find_first_of("+-", p) != std::string::npos;
    bool badDigit = false;
    Z v = 0;
    if (radixOk) {
        for (size_t i = p; i < t.size(); ++i) {
            int ch = (unsigned char)t[i];
            int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'Z' ? ch - 'A' + 10 : 99;
            if (d >= radix) badDigit = true;
            else v = v * radix + d;
        }
        if (p && t[0] == '-') v = -v;
    }
    bool valid = radixOk && !empty && !badDigit;
    if (!valid) c.nontrivial();
    c.label(valid ? "still valid" : !radixOk ? "radix invalid" : empty ? "no digits" : misplacedSign ? "misplaced sign" : "invalid character");
    if (!valid && radixOk && !empty && t.find_first_not_of("0+-") == std::string::npos) c.label("only zeros and signs");
    if (c.verbose) c.note("radix " + std::to_string(radix) + ", text " + pbt::quote(t) + (valid ? " (valid)" : " (invalid)"));
    View vw;
    pgbn::StringArg arg = vw.get(c, t);
    *Status::getInstance() = ErrCode::SUCCESS;
    c.stage("reading a damaged number");
    bool ok = !valid;
    Z old = 0;
    BigInteger y, s;
    int how = (int)c.draw(3);
    if (how == 0) {
        BigInteger q(arg, radix, &ok);
        y = q;
    } else {
        old = genZ(c, MEDIUM);
        y = fromZ(old);
        if (how == 2) s = y;
        if (how == 3) { ok = valid; y.assign(arg, radix); }
        else y.assign(arg, radix, &ok);
    }
    c.checkf(ok == valid, [&] { return "reading " + pbt::quote(t) + " in radix " + std::to_string(radix) + (valid ? " was reported as a failure" : " was reported as a success, giving " + y.toString()); });
    std::string info = statusInfo();
    if (valid) {
        c.checkf(info == infoOf(ErrCode::SUCCESS), [&] { return "after a successful reading the thread's status is " + info; });
        observe(c, y, v, "value read");
    } else {
        bool fits = (!radixOk && info == infoOf(ErrCode::RADIX_INVALID)) || (empty && info == infoOf(ErrCode::NUMBER_STRING_EMPTY)) ||
                    (misplacedSign && info == infoOf(ErrCode::NUMBER_STRING_SIG_INVALID)) || (badDigit && info == infoOf(ErrCode::NUMBER_STRING_PARSE2NUM_ERROR));
        c.checkf(fits, [&] { return "after failing to read " + pbt::quote(t) + " in radix " + std::to_string(radix) + " the thread's status is " + info; });
        observe(c, y, old, "object after a failed reading");
    }
    if (how == 2) observe(c, s, old, "value that shared storage with the object read into");
}

// ------------------------------------------------------------------ C09
namespace {
std::string genBytes(Case & c, size_t n) {
    std::string b(n, '\0');
    if (n > 64) {
        pbt::Rng r(c.bits(64));
        int style = (int)c.draw(3);
        for (auto & x : b) { uint64_t q = r.next(); x = style == 0 ? (char)q : style == 1 ? (char)(q % 3 == 0 ? q >> 8 : q % 3 == 1 ? 0 : 255) : style == 2 ? '\0' : '\xff'; }
        for (size_t k = c.draw(5); k > 0; --k) b[c.draw(n - 1)] = (char)c.bits(8);
        return b;
    }
    char prev = 0;
    for (auto & x : b) {
        switch (c.weighted({5, 3, 3, 2, 3})) {
        case 0: x = prev; break;
        case 1: x = 0; break;
        case 2: x = '\xff'; break;
        case 3: { static const char t[] = {'\x80', '\x7f', '\x01', '\xfe', '\x81'}; x = t[c.draw(4)]; break; }
        default: x = (char)c.bits(8); break;
        }
        prev = x;
    }
    return b;
}
Z fromTwos(const std::string & le) {
    Z v;
    mpz_import(v.get_mpz_t(), le.size(), -1, 1, 0, 0, le.data());
    if (!le.empty() && (unsigned char)le.back() >= 0x80) v -= pow2(8 * le.size());
    return v;
}
}  // namespace

PBT_PROPERTY("C09", prop_import,
    "A case draws 0 to ~600, now and then 9000, bytes (runs of 00 and ff, 80/7f/01, random; possibly a value written in a minimal or sign-extended two's complement form), a byte order, an alignment, and imports them by constructor or over an existing, "
    "possibly shared value; the result must be the two's complement value of the bytes, the bytes must stay as they were, and the result must be usable. Non-trivial: at least 5 bytes, or a negative value.",
    1500000, 15000000) {
    std::string le;
    if (c.chance(1, 8000)) { le = genBytes(c, c.chance(1, 2) ? 4 * massiveCount(c) + c.draw(3) : c.chance(1, 2) ? massiveCount(c) : (1u << c.range(16, c.chance(1, 8) ? 22 : 18)) + c.draw(9)); c.massive(); c.label("more than 1000 bytes"); }
    else if (c.chance(1, 2)) le = genBytes(c, c.chance(1, 12) ? c.draw(c.chance(1, 300) ? 9000 : 600) : c.draw(24));
    else {
        Z v = c.chance(1, 3) ? Z(-pow2(8 * c.draw(20)) + (long)c.range(-1, 1)) : genZ(c, MEDIUM);
        le = twosLE(v, minTwosLen(v) + (c.chance(1, 2) ? c.draw(12) : 0));
    }
    if (le.size() > 600) c.heavy();
    Z v = fromTwos(le);
    bool little = c.chance(1, 2);
    if (le.size() >= 5 || v < 0) c.nontrivial();
    c.label(little ? "little endian" : "big endian");
    if (v < 0) c.label("negative");
    if (minTwosLen(v) < le.size()) c.label("sign-extended");
    std::string in = le;
    if (!little) in.assign(le.rbegin(), le.rend());
    if (c.verbose) c.note(std::to_string(in.size()) + " bytes, " + (little ? "little" : "big") + " endian: " + pbt::hex(in.data(), std::min<size_t>(in.size(), 80)) + "\nvalue " + zs(v));
    // exactly sized heap block at a drawn alignment, so that a sanitizer sees any access outside
    size_t off = c.draw(7);
    std::unique_ptr<char[]> raw(new char[in.size() + off]);
    std::memcpy(raw.get() + off, in.data(), in.size());
    const char * p = raw.get() + off;
    c.stage("importing bytes");
    BigInteger y, s;
    Z old = 0;
    int how = (int)c.draw(3);
    if (how == 0) { BigInteger q((pgbn::SizeType)in.size(), p, little); y = q; }
    else {
        old = genZ(c, MEDIUM);
        y = fromZ(old);
        if (how == 2) s = y;
        if (how == 3) { y <<= 64; y >>= 64; }
        BigInteger & r = y.fromBinary(p, in.size(), little);
        c.check(&r == &y, "fromBinary must return its object");
    }
    observe(c, y, v, "imported value");
    if (how == 2) observe(c, s, old, "value that shared storage with the object imported into");
    c.check(std::memcmp(p, in.data(), in.size()) == 0, "the imported bytes were changed");
    Z d = genZ(c, SMALL);
    y += fromZ(d);
    observe(c, y, v + d, "imported value plus a number");
    if (le.size() < 10000 && c.chance(1, 8)) observeText(c, y, v + d, "imported value plus a number");
}

// ------------------------------------------------------------------ C10
PBT_PROPERTY("C10", prop_export,
    "A case builds a value through any route, exports its magnitude with a limit below, at or above the needed size into memory surrounded by marks, and reads its infinite two's complement words at drawn positions before and after up to three "
    "in-place changes; the bytes must be the little-endian magnitude (the low ones if limited), the count exact, nothing outside written, the words right each time, and importing the bytes again gives the value. "
    "Non-trivial: at least two words, or a limit that cuts.",
    500000, 6000000) {
    Keep k;
    const bool massive = c.chance(1, 3000);
    if (massive) c.label("beyond 1000 words");
    Z v = genZ(c, massive ? MASSIVE : c.chance(1, 10) ? LARGE : MEDIUM);
    if (c.chance(1, 4)) v <<= 32 * c.draw(4);
    std::string route;
    if (c.verbose) c.note("value " + zs(v));
    BigInteger x = build(c, v, k, &route);
    if (words(v) >= 2) c.nontrivial();
    int steps = (int)c.draw(3);
    for (int st = 0;; ++st) {
        std::string m = magLE(v);
        size_t lim;
        switch (c.draw(3)) {
        case 0: lim = m.size() + c.draw(9); break;
        case 1: lim = m.size(); break;
        case 2: lim = m.empty() ? 0 : c.draw(m.size() - 1); break;
        default: lim = c.chance(1, 3) ? SIZE_MAX : c.chance(1, 2) ? (1ull << c.range(30, 62)) + c.draw(9) : 1 << 30; break;
        }
        size_t want = std::min(lim, m.size());
        if (want < m.size()) { c.nontrivial(); c.label("limit cuts"); }
        size_t off = 16 + c.draw(3);
        std::string buf(off + m.size() + 32, '\xa7');
        c.stage("exporting the magnitude");
        if (c.verbose) c.note("export at most " + std::to_string(lim) + " of " + std::to_string(m.size()) + " bytes");
        size_t got = x.copyMagDataTo(&buf[off], lim);
        c.checkf(got == want, [&] { return "export wrote " + std::to_string(got) + " bytes, expected " + std::to_string(want) + "; value " + zs(v); });
        c.checkf(std::memcmp(&buf[off], m.data(), want) == 0, [&] { return "wrong bytes exported: " + pbt::hex(&buf[off], std::min<size_t>(want, 64)) + "; value " + zs(v); });
        bool clean = true;
        for (size_t i = 0; i < buf.size(); ++i)
            if (i < off || i >= off + want) clean = clean && buf[i] == '\xa7';
        c.checkf(clean, [&] { return "a byte outside the exported range was written, value " + zs(v); });
        // the words of the two's complement form
        size_t w = words(v);
        for (int q = 0; q < 4; ++q) {
            size_t i = c.weighted({3, 1, 1}) == 0 ? c.draw(w + 1) : c.chance(1, 2) ? (c.chance(1, 4) ? (1ull << c.range(16, 58)) + c.draw(w + 1) : w + c.draw(100000)) : 0;
            Z t;
            mpz_fdiv_q_2exp(t.get_mpz_t(), v.get_mpz_t(), 32 * std::min<size_t>(i, w + 2));
            mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 32);
            c.stage("get2sComplement");
            uint32_t g = x.get2sComplement(i);
            c.checkf(g == (uint32_t)t.get_ui(), [&] { return "two's complement word " + std::to_string(i) + " is " + std::to_string(g) + ", expected " + t.get_str() + "; value " + zs(v); });
        }
        {   // the bytes with a zero byte on top are the magnitude again
            std::string in = m + std::string(1 + c.draw(4), '\0');
            BigInteger y((pgbn::SizeType)in.size(), in.data(), true);
            if (v < 0) y.negate();
            observe(c, y, v, "value imported from exported bytes");
        }
        if (st == steps) break;
        Z d = genZ(c, SMALL);
        int op = (int)c.draw(7);
        if (c.verbose) c.note("then change " + std::to_string(op) + " with " + zs(d));
        unsigned long sh = c.draw(80);
        switch (op) {
        case 0: x += fromZ(d); v += d; break;
        case 1: x.negate(); v = -v; break;
        case 2: x <<= sh; v <<= sh; break;
        case 3: x >>= sh; mpz_fdiv_q_2exp(v.get_mpz_t(), v.get_mpz_t(), sh); break;
        case 4: x ^= fromZ(d); v = v ^ d; break;
        case 5: x.notSelf(); v = -v - 1; break;
        case 6: x *= fromZ(d); v *= d; break;
        default: ++x; ++v; break;
        }
        c.label("after in-place changes");
    }
    observe(c, x, v, "exported value afterwards");
    observeKeep(c, k);
}

// ------------------------------------------------------------------ C11
PBT_PROPERTY("C11", prop_convert,
    "A case builds a value at or near the limits of 8 to 64-bit integers (or a general one, or one whose low 64 bits are extreme) through any route, and checks getInt64/getUInt64 (with and without an outcome flag), tryGetInt64/tryGetUInt64, the thread's "
    "status afterwards, and as<T> for every supported type (low-order bits; bool: non-zero) against the reference; construction and assignment from int64 give the number. Non-trivial: |value| >= 2^31.",
    1500000, 15000000) {
    Keep k;
    Z v;
    switch (c.weighted({5, 2, 2, 3})) {
    case 0: v = zu64(boundary64(c)) + (long)c.range(-2, 2); break;
    case 1: v = genZ(c, MEDIUM); break;
    case 2: v = (genMagWords(c, c.draw(3)) << 64) + zu64(boundary64(c)); break;
    default: v = z64(genI64(c)) + (long)c.range(-1, 1); break;
    }
    if (c.chance(1, 2)) v = -v;
    if (abs(v) >= pow2(31)) c.nontrivial();
    std::string route;
    if (c.verbose) c.note("value " + zs(v));
    BigInteger x = build(c, v, k, &route);
    bool fi = fitsI64(v), fu = v >= 0 && v < pow2(64);
    c.label(fi && fu ? "fits both" : fi ? "fits int64 only" : fu ? "fits uint64 only" : "fits neither");
    Z low;
    mpz_fdiv_r_2exp(low.get_mpz_t(), v.get_mpz_t(), 64);
    uint64_t l = 0;
    mpz_export(&l, nullptr, -1, 8, 0, 0, low.get_mpz_t());
    auto ctx = [&](const char * m) { return std::string(m) + ", value " + zs(v) + " (" + route + ")"; };
    auto status = [&](bool fits, const char * m) {
        std::string info = statusInfo();
        c.checkf(info == infoOf(fits ? ErrCode::SUCCESS : ErrCode::ARITHMETIC_OVERFLOW), [&] { return ctx(m) + ": the thread's status is " + info; });
    };
    c.stage("conversions");
    bool ok = !fi;
    int64_t i = x.getInt64(&ok);
    c.checkf(ok == fi, [&] { return ctx("getInt64 reports the wrong outcome"); });
    if (fi) c.checkf(i == (int64_t)l, [&] { return ctx("getInt64 is wrong") + ": " + std::to_string(i); });
    status(fi, "after getInt64");
    if (fi) c.checkf(x.getInt64() == (int64_t)l, [&] { return ctx("getInt64() without a flag is wrong"); });
    i = 0;
    c.checkf(x.tryGetInt64(i) == fi && (!fi || i == (int64_t)l), [&] { return ctx("tryGetInt64 is wrong"); });
    status(fi, "after tryGetInt64");
    ok = !fu;
    uint64_t u = x.getUInt64(&ok);
    c.checkf(ok == fu, [&] { return ctx("getUInt64 reports the wrong outcome"); });
    if (fu) c.checkf(u == l, [&] { return ctx("getUInt64 is wrong") + ": " + std::to_string(u); });
    status(fu, "after getUInt64");
    if (fu) c.checkf(x.getUInt64() == l, [&] { return ctx("getUInt64() without a flag is wrong"); });
    u = 0;
    c.checkf(x.tryGetUInt64(u) == fu && (!fu || u == l), [&] { return ctx("tryGetUInt64 is wrong"); });
    status(fu, "after tryGetUInt64");
#define AS(T) c.checkf(x.as<T>() == (T)l, [&] { return ctx("as<" #T "> is wrong"); })
    AS(char); AS(unsigned char); AS(short); AS(unsigned short); AS(int); AS(unsigned int); AS(long); AS(unsigned long); AS(long long); AS(unsigned long long);
#undef AS
    c.checkf(x.as<bool>() == (v != 0), [&] { return ctx("as<bool> is wrong"); });
    observe(c, x, v, "the converted value afterwards");
    if (fi) {
        BigInteger a((int64_t)l), b = fromZ(genZ(c, MEDIUM)), d = fromZ(genZ(c, MEDIUM)), e = d;
        b = (int64_t)l;
        d.assign((int64_t)l);
        observe(c, a, v, "constructed from int64");
        observe(c, b, v, "assigned an int64");
        observe(c, d, v, "assign(int64)");
        ++b;
        observe(c, b, v + 1, "assigned an int64, then incremented");
        a *= fromZ(pow2(40) + 1);
        observe(c, a, v * (pow2(40) + 1), "constructed from int64, then multiplied");
    }
    observeKeep(c, k);
}
