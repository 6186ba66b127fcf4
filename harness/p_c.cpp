// The C interface.
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include "view.h"
#include "PGBigNumber/pgbn.h"
using namespace num;
using H = pgbn_BigInteger_t *;
using pgbn::Status;
namespace ErrCode = pgbn::ErrCode;

namespace {
std::string takeString(Case & c, pgbn_String_t * s) {
    c.check(s != nullptr, "a null text was returned");
    char * p = pgbn_String_CStr(s);
    size_t n = pgbn_String_Length(s);
    c.checkf(p && std::strlen(p) == n, [&] { return "the stated length of a text is " + std::to_string(n) + ", but it ends after " + std::to_string(std::strlen(p)); });
    std::string r(p, n);
    pgbn_String_Destroy(s);
    return r;
}
uint32_t wordOf(const Z & v, size_t i) {
    Z t;
    mpz_fdiv_q_2exp(t.get_mpz_t(), v.get_mpz_t(), 32 * i);
    mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 32);
    return (uint32_t)t.get_ui();
}
H hOf(const Z & v) {
    std::string b = twosLE(v, minTwosLen(v));
    return pgbn_BigInteger_CreateWithBin(b.size(), b.data(), true);
}
int sign(int x) { return (x > 0) - (x < 0); }
void look(Case & c, H h, const Z & v, const char * what, bool full) {
    c.stage(what);
    auto ctx = [&](const char * m) { return std::string(what) + ": " + m + "; expected value " + zs(v); };
    c.checkf(pgbn_BigInteger_IsZero(h) == (v == 0) && pgbn_BigInteger_IsPositive(h) == (v > 0) && pgbn_BigInteger_IsNegative(h) == (v < 0) && pgbn_BigInteger_IsOne(h) == (v == 1) && pgbn_BigInteger_IsNegOne(h) == (v == -1),
             [&] { return ctx("a sign or unit predicate is wrong"); });
    bool even = mpz_even_p(v.get_mpz_t());
    c.checkf(pgbn_BigInteger_IsEven(h) == even && pgbn_BigInteger_IsOdd(h) == !even, [&] { return ctx("IsEven or IsOdd is wrong"); });
    std::string m = magLE(v), buf(m.size() + 12, '\x5a');
    size_t n = pgbn_BigInteger_GetMagData(h, &buf[0], buf.size());
    c.checkf(n == m.size() && std::memcmp(buf.data(), m.data(), n) == 0, [&] { Z g; mpz_import(g.get_mpz_t(), std::min(n, buf.size()), -1, 1, 0, 0, buf.data()); return ctx("wrong magnitude") + ", got " + zs(g); });
    if (!full) return;
    {   // a smaller buffer gets the low bytes
        const size_t lim = c.chance(1, 2) ? m.size() : c.draw(m.size() + 2), part = std::min(lim, m.size());
        std::string some(lim + 8, '\x5a');
        size_t k = pgbn_BigInteger_GetMagData(h, &some[0], lim);
        c.checkf(k == part && some.compare(0, part, m, 0, part) == 0 && some.find_first_not_of('\x5a', part) == std::string::npos, [&] { return ctx(("the magnitude in a buffer of " + std::to_string(lim) + " bytes is wrong").c_str()); });
    }
    H r = hOf(v);
    c.checkf(pgbn_BigInteger_Cmp(h, r) == 0 && pgbn_BigInteger_Cmp(r, h) == 0, [&] { return ctx("does not compare equal to the same value from bytes"); });
    pgbn_BigInteger_Destroy(r);
    size_t w = words(v);
    for (size_t i : {size_t(0), w / 2, w ? w - 1 : 0, w, w + 2})
        c.checkf(pgbn_BigInteger_Get2sComplementBlock(h, i) == wordOf(v, i), [&] { return ctx("wrong two's complement word") + " " + std::to_string(i); });
}
void cutDown(Z & v, H h) {
    if (bitlen(v) <= 24 * 32) return;
    unsigned long s = bitlen(v) - 12 * 32;
    pgbn_BigInteger_SHRAssignWithI64(h, (int64_t)s);
    mpz_fdiv_q_2exp(v.get_mpz_t(), v.get_mpz_t(), s);
}
}  // namespace

PBT_PROPERTY("C25", prop_c_history,
    "A case is a history of 1 to ~60 (rarely 1500) calls of the C interface over 2 to 5 (rarely 70) handles: creation by every constructor, copies (new handle, over an old one, over itself), assignments from int64, text and bytes, all in-place operations with a handle "
    "(also the same one) or an int64 as operand, comparisons, word and byte reads, destruction and re-creation. A GMP integer per handle is the reference; the touched handle is compared after each call, all handles regularly and at the end. "
    "Non-trivial: at least one handle was changed after it was copied from, or to, another live one.",
    300000, 5000000) {
    struct Slot { H h; Z v; int group; };
    std::vector<Slot> p;
    int group = 0;
    size_t n = 2 + (c.chance(1, 60) ? c.draw(70) : c.draw(3));
    struct Free { std::vector<Slot> & p; ~Free() { for (auto & s : p) if (s.h) pgbn_BigInteger_Destroy(s.h); } } guard{p};
    std::string log;
    auto nm = [](size_t i) { return "h" + std::to_string(i); };
    auto create = [&](Slot & s) {
        Z v = genZ(c, c.chance(1, 8) ? LARGE : SMALL);
        switch (c.draw(5)) {
        case 0: s.h = pgbn_BigInteger_Create(); v = 0; break;
        case 1: { int64_t i = genI64(c); s.h = pgbn_BigInteger_CreateWithI64(i); v = z64(i); break; }
        case 2: { int r = (int)c.range(2, 36); s.h = pgbn_BigInteger_CreateWithStr(v.get_str(r).c_str(), r); break; }
        case 3: { std::string b = twosLE(v, minTwosLen(v) + c.draw(9)); bool le = c.chance(1, 2); if (!le) std::string(b.rbegin(), b.rend()).swap(b); s.h = pgbn_BigInteger_CreateWithBin(b.size(), b.data(), le); break; }
        case 4: if (!p.empty()) { auto & o = p[c.draw(p.size() - 1)]; if (o.h && &o != &s) { s.h = pgbn_BigInteger_CreateWithCopying(o.h); s.v = Z(o.v); s.group = o.group; return; } } [[fallthrough]];
        default: s.h = hOf(v); break;
        }
        s.v = v;
        s.group = group++;
    };
    p.reserve(n);
    for (size_t i = 0; i < n; ++i) { Slot s{nullptr, 0, 0}; create(s); p.push_back(s); c.check(s.h != nullptr, "creating a handle from valid input gave NULL"); if (c.verbose) log += nm(i) + " = " + zs(s.v) + "\n"; }
    size_t steps = 1 + c.draw(c.chance(1, 200) ? 1500 : c.chance(1, 4) ? 60 : 14);
    if (steps > 100) c.heavy();
    for (size_t k = 0; k < steps; ++k) {
        size_t d = c.draw(n - 1), e = c.draw(n - 1);
        Slot & D = p[d], & E = p[e];
        int64_t i = 0;
        bool write = true;
        std::string what;
        auto begin = [&](const std::string & s) { what = s; c.stage(s); if (c.verbose) log += "  " + s + "\n"; };
        auto small = [&](const char * op) { i = genI64(c); begin(nm(d) + " " + op + " " + std::to_string(i)); return z64(i); };
        bool i64 = c.chance(1, 3);
        switch (c.weighted({5, 3, 2, 4, 4, 4, 4, 3, 3, 3, 3, 2, 3, 3, 2, 3, 2, 1})) {
        case 0: begin("Copy " + nm(d) + " <- " + nm(e)); pgbn_BigInteger_Copy(D.h, E.h); D.v = Z(E.v); D.group = E.group; write = false; break;
        case 1: {
            begin("destroy " + nm(d) + " and create it anew");
            pgbn_BigInteger_Destroy(D.h);
            D.h = nullptr;
            create(D);
            c.check(D.h != nullptr, "creating a handle from valid input gave NULL");
            write = false;
            break;
        }
        case 2: {
            Z v = genZ(c, SMALL);
            begin("assign " + nm(d) + " <- " + zs(v));
            switch (c.draw(2)) {
            case 0: { int64_t x = genI64(c); pgbn_BigInteger_AssignWithI64(D.h, x); v = z64(x); break; }
            case 1: { int r = (int)c.range(2, 36); c.check(pgbn_BigInteger_AssignWithStr(D.h, v.get_str(r).c_str(), r), "assigning a valid text reports failure"); break; }
            default: { std::string b = twosLE(v, minTwosLen(v) + c.draw(5)); bool le = c.chance(1, 2); if (!le) std::string(b.rbegin(), b.rend()).swap(b); pgbn_BigInteger_AssignWithBin(D.h, b.data(), b.size(), le); break; }
            }
            D.v = v;
            break;
        }
        case 3: if (i64) { Z o = small("+="); pgbn_BigInteger_AddAssignWithI64(D.h, i); D.v += o; } else { begin(nm(d) + " += " + nm(e)); Z o = E.v; pgbn_BigInteger_AddAssign(D.h, E.h); D.v += o; } break;
        case 4: if (i64) { Z o = small("-="); pgbn_BigInteger_SubAssignWithI64(D.h, i); D.v -= o; } else { begin(nm(d) + " -= " + nm(e)); Z o = E.v; pgbn_BigInteger_SubAssign(D.h, E.h); D.v -= o; } break;
        case 5: if (i64) { Z o = small("*="); pgbn_BigInteger_MulAssignWithI64(D.h, i); D.v *= o; } else { begin(nm(d) + " *= " + nm(e)); Z o = E.v; pgbn_BigInteger_MulAssign(D.h, E.h); D.v *= o; } break;
        case 6: {
            bool mod = c.chance(1, 2);
            Z o = E.v;
            if (i64 || o == 0) { i = genI64(c); if (i == 0) i = 1; o = z64(i); begin(nm(d) + (mod ? " %= " : " /= ") + std::to_string(i)); mod ? pgbn_BigInteger_ModAssignWithI64(D.h, i) : pgbn_BigInteger_DivAssignWithI64(D.h, i); }
            else { begin(nm(d) + (mod ? " %= " : " /= ") + nm(e)); mod ? pgbn_BigInteger_ModAssign(D.h, E.h) : pgbn_BigInteger_DivAssign(D.h, E.h); }
            D.v = mod ? Z(D.v % o) : Z(D.v / o);
            break;
        }
        case 7: if (i64) { Z o = small("&="); pgbn_BigInteger_AndAssignWithI64(D.h, i); D.v &= o; } else { begin(nm(d) + " &= " + nm(e)); Z o = E.v; pgbn_BigInteger_AndAssign(D.h, E.h); D.v &= o; } break;
        case 8: if (i64) { Z o = small("|="); pgbn_BigInteger_OrAssignWithI64(D.h, i); D.v |= o; } else { begin(nm(d) + " |= " + nm(e)); Z o = E.v; pgbn_BigInteger_OrAssign(D.h, E.h); D.v |= o; } break;
        case 9: if (i64) { Z o = small("^="); pgbn_BigInteger_XorAssignWithI64(D.h, i); D.v ^= o; } else { begin(nm(d) + " ^= " + nm(e)); Z o = E.v; pgbn_BigInteger_XorAssign(D.h, E.h); D.v ^= o; } break;
        case 10: { unsigned long s = c.chance(1, 60) ? c.draw(20000) : c.chance(1, 2) ? 32 * c.draw(4) : c.draw(150); begin(nm(d) + " <<= " + std::to_string(s)); pgbn_BigInteger_SHLAssignWithI64(D.h, (int64_t)s); D.v <<= s; break; }
        case 11: { unsigned long s = c.chance(1, 30) ? (1ul << c.draw(62)) + c.draw(40) : c.chance(1, 2) ? 32 * c.draw(8) : c.draw(400); begin(nm(d) + " >>= " + std::to_string(s)); pgbn_BigInteger_SHRAssignWithI64(D.h, (int64_t)s); Z t; mpz_fdiv_q_2exp(t.get_mpz_t(), D.v.get_mpz_t(), s); D.v = t; break; }
        case 12: begin("Inc " + nm(d)); pgbn_BigInteger_Inc(D.h); D.v += 1; break;
        case 13: begin("Dec " + nm(d)); pgbn_BigInteger_Dec(D.h); D.v -= 1; break;
        case 14: begin("NotSelf " + nm(d)); pgbn_BigInteger_NotSelf(D.h); D.v = ~D.v; break;
        case 15: if (i64) { begin("AbsSelf " + nm(d)); pgbn_BigInteger_AbsSelf(D.h); D.v = abs(D.v); } else { begin("Negate " + nm(d)); pgbn_BigInteger_Negate(D.h); D.v = -D.v; } break;
        case 16: {
            begin("compare " + nm(d) + " and " + nm(e));
            write = false;
            c.check(sign(pgbn_BigInteger_Cmp(D.h, E.h)) == sign(cmp(D.v, E.v)), "Cmp of two handles is wrong");
            int64_t o = genI64(c);
            if (fitsI64(D.v) && c.chance(1, 2)) o = (int64_t)((uint64_t)toI64(D.v) + (uint64_t)c.range(-1, 1));
            c.checkf(sign(pgbn_BigInteger_CmpWithI64(D.h, o)) == sign(cmp(D.v, z64(o))), [&] { return "CmpWithI64(" + zs(D.v) + ", " + std::to_string(o) + ") is wrong"; });
            break;
        }
        default: {
            begin("NotSelfBits " + nm(d));
            Z m = abs(D.v), all = pow2(bitlen(m)) - 1;  // the significant bits
            Z r = all - m;
            if (m == 0) r = 0;
            pgbn_BigInteger_NotSelfBits(D.h);
            D.v = D.v < 0 ? Z(-r) : r;
        }
        }
        if (write) {
            for (auto & s : p) if (&s != &D && s.group == D.group) c.nontrivial();
            D.group = group++;
        }
        look(c, D.h, D.v, what.c_str(), c.chance(1, 3));
        cutDown(D.v, D.h);
        if (c.chance(1, 6)) for (auto & s : p) look(c, s.h, s.v, (what + "; a handle afterwards").c_str(), false);
    }
    for (auto & s : p) {
        look(c, s.h, s.v, "a handle at the end", true);
        int r = (int)c.range(2, 36);
        std::string t = takeString(c, pgbn_BigInteger_ToString(s.h, r));
        c.checkf(t == s.v.get_str(r), [&] { return "text in radix " + std::to_string(r) + ": " + t.substr(0, 200) + ", expected " + s.v.get_str(r).substr(0, 200); });
    }
    if (c.verbose) c.note(log);
}

// ------------------------------------------------------------------ C29
namespace {
struct Got { int handler; void * arg; };
std::vector<Got> got;
void cb1(void * a) { got.push_back({1, a}); }
void cb2(void * a) { got.push_back({2, a}); }
struct Original { std::string info; pgbn::Callback cb; };
void quietStatus() {
    static const std::vector<std::string> info = [] { std::vector<std::string> r; for (pgbn::Enum e = 0; e <= 16; ++e) r.push_back(Status::getInfo(e)); return r; }();
    for (pgbn::Enum e = 0; e <= 16; ++e) Status::registe(e, info[e]);
}
bool validNumber(const std::string & s, int radix, Z & v) {
    if (radix < 2 || radix > 36) return false;
    size_t i = 0;
    bool neg = false;
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) neg = s[i++] == '-';
    if (i == s.size()) return false;
    v = 0;
    for (; i < s.size(); ++i) {
        int d = s[i] >= '0' && s[i] <= '9' ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'z' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'Z' ? s[i] - 'A' + 10 : 99;
        if (d >= radix) return false;
        v = v * radix + d;
    }
    if (neg) v = -v;
    return true;
}
}  // namespace

PBT_PROPERTY("C29", prop_c_reports,
    "A case does one to four of: creating and assigning from a valid or defective text in a radix from 0 to 40 (NULL or false exactly for the defective ones, an independent recogniser decides); converting a value near the limits to int64 and uint64 with "
    "and without the success flag, checking flag, value and status text; writing text in any radix and comparing content and length; exporting the magnitude with limits below, at and above its length into a guarded buffer; a history of status calls "
    "(create, create with code, register with or without callback and argument, overwrite, set, read, destroy, global instance of this and another thread) against a model. Non-trivial: a failure had to be reported, or a callback ran.",
    300000, 5000000) {
    quietStatus();
    size_t rounds = 1 + c.draw(3);
    std::string log;
    struct Keep29 { std::vector<H> hs; ~Keep29() { for (auto h : hs) pgbn_BigInteger_Destroy(h); } } keep;
    auto hold = [&](H h) { keep.hs.push_back(h); return h; };
    auto statusIs = [&](pgbn::Enum e) { return std::string(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance())) == Status::getInfo(e); };
    for (size_t k = 0; k < rounds; ++k) switch (c.weighted({4, 4, 2, 3, 4})) {
    case 0: {
        c.stage("texts");
        int radix = c.chance(1, 8) ? (int)c.range(-1, 40) : (int)c.range(2, 36);
        int gr = radix < 2 ? 2 : radix > 36 ? 36 : radix;
        std::string s = genZ(c, SMALL).get_str(gr);
        if (c.chance(1, 4) && s[0] != '-') s = "+" + s;
        if (c.chance(1, 5)) s.insert(s[0] == '-' || s[0] == '+' ? 1 : 0, c.chance(1, 40) ? c.draw(5000) : c.draw(40), '0');
        if (c.chance(1, 3)) for (auto & ch : s) if (ch >= 'a' && ch <= 'z' && c.chance(1, 2)) ch = (char)(ch - 32);
        size_t defects = c.chance(1, 2) ? 1 + c.draw(1) : 0;
        while (defects--) {
            size_t at = c.draw(s.size());
            switch (c.draw(3)) {
            case 0: { static const std::vector<char> bad = {' ', '-', '+', '.', '_', '/', ':', '@', '[', '`', '{', '\x7f', '\x80', '\xff', '\n', '\t'}; s.insert(at, 1, c.pick(bad)); break; }
            case 1: if (gr < 36) { int d = gr + (int)c.draw(35 - gr); s.insert(at, 1, (char)(d < 10 ? '0' + d : 'a' + d - 10)); } break;
            case 2: if (at < s.size()) s[at] = (char)(1 + c.draw(254)); break;
            default: s = c.chance(1, 2) ? "" : c.chance(1, 2) ? "-" : "+"; break;
            }
        }
        Z v;
        bool ok = validNumber(s, radix, v);
        if (!ok) c.nontrivial();
        if (c.verbose) log += "text " + pbt::quote(s) + " radix " + std::to_string(radix) + (ok ? " valid\n" : " defective\n");
        H h = pgbn_BigInteger_CreateWithStr(s.c_str(), radix);
        if (h) hold(h);
        c.checkf((h != nullptr) == ok, [&] { return std::string("creating from ") + (ok ? "the valid text " : "the defective text ") + pbt::quote(s.substr(0, 200)) + " in radix " + std::to_string(radix) + (h ? " gave a handle" : " gave NULL"); });
        if (h) look(c, h, v, "a handle created from a text", false);
        Z old = genZ(c, SMALL);
        H g = hold(hOf(old));
        H other = hold(pgbn_BigInteger_CreateWithCopying(g));
        bool r = pgbn_BigInteger_AssignWithStr(g, s.c_str(), radix);
        c.checkf(r == ok, [&] { return std::string("assigning ") + pbt::quote(s.substr(0, 200)) + " in radix " + std::to_string(radix) + " returned " + (r ? "true" : "false"); });
        c.checkf(statusIs(ErrCode::SUCCESS) == ok, [&] { return std::string("the status after assigning ") + pbt::quote(s.substr(0, 200)) + " is " + pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()); });
        if (ok) look(c, g, v, "a handle assigned from a text", true);
        else { pgbn_BigInteger_AssignWithI64(g, 77); look(c, g, 77, "a handle given a value after a rejected text", true); }
        look(c, other, old, "the handle that the assigned one was copied to", false);
        break;
    }
    case 1: {
        c.stage("conversions");
        Z v;
        switch (c.draw(3)) {
        case 0: v = z64(genI64(c)); break;
        case 1: { static const std::vector<int> e = {31, 32, 63, 64, 65, 95, 96, 127, 128}; v = pow2(c.pick(e)) + (long)c.range(-2, 2); if (c.chance(1, 2)) v = -v; break; }
        case 2: v = genZ(c, SMALL); break;
        default: v = zu64(c.bits(64)) + (c.chance(1, 3) ? Z(pow2(64 + c.draw(64))) : Z(0)); if (c.chance(1, 4)) v = -v; break;
        }
        if (c.verbose) log += "convert " + zs(v) + "\n";
        H h = hold(hOf(v));
        bool fits = fitsI64(v), fitsU = v >= 0 && v < pow2(64);
        if (!fits || !fitsU) c.nontrivial();
        bool ok = c.chance(1, 2), ok0 = ok;
        int64_t i = c.chance(1, 2) ? pgbn_BigInteger_GetInt64(h) : pgbn_BigInteger_GetInt64WithChecking(h, &ok);
        (void)ok0;
        if (fits) c.checkf(i == toI64(v), [&] { return "int64 of " + zs(v) + " is " + std::to_string(i); });
        c.checkf(statusIs(fits ? ErrCode::SUCCESS : ErrCode::ARITHMETIC_OVERFLOW), [&] { return "the status after converting " + zs(v) + " to int64 is " + pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()); });
        ok = !fits;
        i = pgbn_BigInteger_GetInt64WithChecking(h, &ok);
        c.checkf(ok == fits, [&] { return "the success flag of converting " + zs(v) + " to int64 is " + (ok ? "true" : "false"); });
        if (fits) c.checkf(i == toI64(v), [&] { return "int64 of " + zs(v) + " is " + std::to_string(i); });
        Z m = v & (pow2(64) - 1);
        uint64_t want = 0;
        mpz_export(&want, nullptr, -1, 8, 0, 0, m.get_mpz_t());
        uint64_t u = pgbn_BigInteger_GetUInt64(h);
        if (fitsU) c.checkf(u == want, [&] { return "uint64 of " + zs(v) + " is " + std::to_string(u); });
        c.checkf(statusIs(fitsU ? ErrCode::SUCCESS : ErrCode::ARITHMETIC_OVERFLOW), [&] { return "the status after converting " + zs(v) + " to uint64 is " + pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()); });
        ok = !fitsU;
        u = pgbn_BigInteger_GetUInt64WithChecking(h, &ok);
        c.checkf(ok == fitsU, [&] { return "the success flag of converting " + zs(v) + " to uint64 is " + (ok ? "true" : "false"); });
        if (fitsU) c.checkf(u == want, [&] { return "uint64 of " + zs(v) + " is " + std::to_string(u); });
        look(c, h, v, "a handle after conversions", false);
        break;
    }
    case 2: {
        c.stage("output texts");
        Z v = genZ(c, c.chance(1, 6) ? LARGE : SMALL);
        int r = (int)c.range(2, 36);
        if (c.verbose) log += "text of " + zs(v) + " in radix " + std::to_string(r) + "\n";
        H h = hold(hOf(v));
        std::string t = takeString(c, pgbn_BigInteger_ToString(h, r));
        c.checkf(t == v.get_str(r), [&] { return "text in radix " + std::to_string(r) + ": " + t.substr(0, 200) + ", expected " + v.get_str(r).substr(0, 200); });
        std::string s;
        size_t n = c.chance(1, 100) ? c.draw(3000) : c.draw(60);
        for (size_t i = 0; i < n; ++i) s += (char)(1 + c.draw(254));
        if (c.chance(1, 1500)) { c.massive(); s += std::string(4000 + c.draw(200000), (char)('a' + c.draw(25))) + "."; }
        pgbn_String_t * a = pgbn_String_Create(s.c_str()), * b = pgbn_String_Create(t.c_str());
        pgbn_String_CStr(b)[0] = 'q';  // texts are separate and writable
        std::string ga = takeString(c, a), gb = takeString(c, b);
        c.check(ga == s && gb == "q" + t.substr(1), "a text handle does not hold its text");
        break;
    }
    case 3: {
        c.stage("export");
        Z v = genZ(c, SMALL);
        H h = hold(hOf(v));
        std::string m = magLE(v);
        size_t lim;
        switch (c.draw(3)) {
        case 0: lim = c.draw(m.size()); break;
        case 1: lim = m.size(); break;
        case 2: lim = m.size() > 0 ? m.size() - 1 : 0; break;
        default: lim = m.size() + c.draw(9); break;
        }
        if (lim < m.size()) c.nontrivial();
        if (c.verbose) log += "export " + zs(v) + " with limit " + std::to_string(lim) + "\n";
        std::string buf(lim + 40, '\x5a');
        size_t off = c.draw(15);
        size_t r = pgbn_BigInteger_GetMagData(h, &buf[off], lim);
        size_t want = std::min(lim, m.size());
        c.checkf(r == want && buf.compare(off, want, m, 0, want) == 0, [&] { return "exporting " + zs(v) + " with limit " + std::to_string(lim) + " gave " + std::to_string(r) + " bytes " + pbt::hex(buf.data() + off, std::min<size_t>(r, lim)); });
        for (size_t i = 0; i < buf.size(); ++i)
            if (i < off || i >= off + want) c.checkf(buf[i] == '\x5a', [&] { return "exporting " + zs(v) + " with limit " + std::to_string(lim) + " wrote the byte at offset " + std::to_string((long)i - (long)off); });
        break;
    }
    default: {
        c.stage("status");
        struct E { std::string info; int handler; void * arg; };
        std::map<uint32_t, E> reg;
        for (uint32_t e = 0; e <= 16; ++e) reg[e] = {Status::getInfo(e), 0, nullptr};
        got.clear();
        static char args[8];
        struct S { pgbn_Status_t * p; uint32_t code; };
        std::vector<S> st;
        struct Fr { std::vector<S> & v; ~Fr() { for (auto & s : v) pgbn_Status_Destroy(s.p); } } fr{st};
        std::vector<uint32_t> codes;
        for (uint32_t e = 0; e <= 16; ++e) codes.push_back(e);
        auto expect = [&](uint32_t e, const char * what) {
            auto & en = reg[e];
            bool ok = en.handler ? got.size() == 1 && got[0].handler == en.handler && got[0].arg == en.arg : got.empty();
            c.checkf(ok, [&] { return std::string(what) + ": " + std::to_string(got.size()) + " callbacks ran, or the wrong one, or with a wrong argument (registered: " + std::to_string(en.handler) + ")"; });
            if (en.handler) c.nontrivial();
            got.clear();
        };
        uint32_t global = 0;
        pgbn_Status_SetErrno(pgbn_Status_GetGlobalInstance(), 0);
        size_t steps = 1 + c.draw(c.chance(1, 100) ? 600 : 14);
        if (steps > 100) c.heavy();
        for (size_t q = 0; q < steps; ++q) switch (c.weighted({4, 3, 5, 1, 1})) {
        case 0: {
            uint32_t e = c.chance(1, 10) ? (uint32_t)((1ull << (11 + c.draw(21))) + (uint64_t)c.range(-1, 1)) : c.chance(1, 8) ? 17 + (uint32_t)c.draw(800) : c.chance(2, 3) ? 17 + (uint32_t)c.draw(20) : c.pick(codes);
            std::string info;
            size_t n = c.draw(c.chance(1, 100) ? 4000 : 40);
            for (size_t i = 0; i < n; ++i) info += (char)(1 + c.draw(254));
            if (c.chance(1, 1500)) { c.massive(); info += std::string(4000 + c.draw(65000), (char)('a' + c.draw(25))) + "."; }
            if (!reg.count(e)) codes.push_back(e);
            std::unique_ptr<char[]> tmp(new char[info.size() + 1]);  // the text is gone after the call
            std::memcpy(tmp.get(), info.c_str(), info.size() + 1);
            int how = (int)c.draw(2);
            void * arg = c.chance(1, 5) ? nullptr : args + c.draw(7);
            if (c.verbose) log += "register " + std::to_string(e) + " " + pbt::quote(info) + " callback " + std::to_string(how) + "\n";
            if (how == 0) pgbn_Status_Register(e, tmp.get()); else pgbn_Status_RegisterWithCallback(e, tmp.get(), how == 1 ? cb1 : cb2, arg);
            std::memset(tmp.get(), 'x', info.size());
            reg[e] = {info, how, how ? arg : nullptr};
            c.check(got.empty(), "registering ran a callback");
            break;
        }
        case 1: {
            uint32_t e = c.pick(codes);
            bool plain = c.chance(1, 4);
            if (plain) e = 0;
            if (c.verbose) log += "create a status with code " + std::to_string(e) + "\n";
            st.push_back({plain ? pgbn_Status_Create() : pgbn_Status_CreateWithErrno(e), e});
            expect(e, "creating a status");
            break;
        }
        case 2: {
            uint32_t e = c.pick(codes);
            size_t j = c.draw(st.size());
            if (c.verbose) log += "set status " + std::to_string(j) + " to " + std::to_string(e) + "\n";
            if (j == st.size()) { pgbn_Status_SetErrno(pgbn_Status_GetGlobalInstance(), e); global = e; }
            else { pgbn_Status_SetErrno(st[j].p, e); st[j].code = e; }
            expect(e, "setting a status");
            break;
        }
        case 3: if (!st.empty()) { size_t j = c.draw(st.size() - 1); pgbn_Status_Destroy(st[j].p); st.erase(st.begin() + j); c.check(got.empty(), "destroying a status ran a callback"); } break;
        default: {
            uint32_t e = c.pick(codes);
            pgbn_Status_t * mine = pgbn_Status_GetGlobalInstance();
            std::string seen;
            bool distinct = false, kept = false;
            std::thread t([&] {
                pgbn_Status_t * o = pgbn_Status_GetGlobalInstance();
                distinct = o != mine;
                pgbn_Status_SetErrno(o, e);
                seen = pgbn_Status_GetInfo(o);
                kept = seen == pgbn::Status::getInstance()->getInfo();
            });
            t.join();
            expect(e, "setting the status of another thread");
            c.check(distinct, "two threads have the same status handle");
            c.check(seen == reg[e].info && kept, "the status of another thread does not report its code");
            c.check(pgbn_Status_GetGlobalInstance() == mine && pgbn_Status_GetInfo(mine) == reg[global].info, "setting the status of another thread changed this thread's");
        }
        }
        for (auto & s : st) c.checkf(pgbn_Status_GetInfo(s.p) == reg[s.code].info, [&] { return "a status reports " + pbt::quote(pgbn_Status_GetInfo(s.p)) + ", expected " + pbt::quote(reg[s.code].info); });
        c.check(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance()) == reg[global].info, "the global status does not report its code");
        c.check(pgbn::Status::getInstance()->getInfo() == reg[global].info, "the C++ interface sees another status than the C interface");
        // texts asked for one after the other are all usable together
        std::vector<const char *> texts, mineToo;
        for (auto & r : reg) texts.push_back(pgbn_Status_GetInfoByErrno(r.first));
        for (auto & x : st) mineToo.push_back(pgbn_Status_GetInfo(x.p));
        size_t ti = 0;
        for (auto & r : reg) c.check(texts[ti++] == r.second.info, "the text of a code is wrong");
        for (size_t i = 0; i < st.size(); ++i) c.check(mineToo[i] == reg[st[i].code].info, "the text of a status is no longer there after asking for others");
        c.check(std::string(pgbn_Status_GetInfoByErrno(900 + (uint32_t)c.draw(1000))) == "<ERROR_INFO>", "an unknown code has a text");
        pgbn_Status_SetErrno(pgbn_Status_GetGlobalInstance(), 0);
        got.clear();
        quietStatus();
        for (auto & r : reg) if (r.first > 16) pgbn_Status_Register(r.first, "old");
    }
    }
    if (c.verbose) c.note(log);
}
