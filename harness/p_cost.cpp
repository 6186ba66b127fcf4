// What operations cost: edges of the control flow taken and bytes allocated, counted in the 'cost' variant. Deterministic, so
// that a bound can be decided exactly; the bounds are about growth and leave several times what the code takes today.
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include "exprenv.h"
#include "Slice.h"
#include "streams/StringReadStream.h"
#include "parallel/SimpleConcurrenceQueue.h"
#include "PGBigNumber/Fraction.h"
#include "PGBigNumber/expr.h"
#include "PGBigNumber/pgbn.h"
using namespace num;
using pgbn::experimental::Fraction;

namespace {
std::string brief(const std::string & s) { return pbt::quote(s.size() > 300 ? s.substr(0, 150) + " ... " + s.substr(s.size() - 150) : s); }

struct Spent { double edges, bytes, peak; int64_t held; };
template <typename F> Spent spend(F && f) {
    auto & k = pbt::cost();
    const int64_t h = pbt::held;
    pbt::heldPeak = h;
    const uint64_t e = k.edges, b = k.bytes;
    f();
    return {(double)(k.edges - e), (double)(k.bytes - b), (double)(pbt::heldPeak - h), pbt::held - h};
}
const bool CALIBRATE = std::getenv("COST_CALIBRATE") != nullptr;
void within(Case & c, const std::string & what, const Spent & s, double edges, double bytes, double peak) {
    if (CALIBRATE && (s.edges > edges / 6 || s.bytes > bytes / 6 || s.peak > peak / 6)) {
        FILE * f = std::fopen("/tmp/cost.log", "a");
        std::fprintf(f, "%.2f %.2f %.2f | %s edges %.0f/%.0f bytes %.0f/%.0f peak %.0f/%.0f\n", s.edges / edges, s.bytes / bytes, s.peak / peak, what.c_str(), s.edges, edges, s.bytes, bytes, s.peak, peak);
        std::fclose(f);
    }
    auto say = [&](const char * m, double is, double may) { c.fail(what + " " + m + " " + std::to_string((long long)is) + ", more than " + std::to_string((long long)may)); };
    if (s.edges > edges) say("takes a number of steps (edges of the control flow) of", s.edges, edges);
    if (s.bytes > bytes) say("allocates in total a number of bytes of", s.bytes, bytes);
    if (s.peak > peak) say("needs at a time a number of bytes of", s.peak, peak);
}
size_t genSize(Case & c, size_t most) {  // in words; all orders of magnitude
    size_t s = 1;
    while (s < most && c.chance(3, 4)) s *= 3;
    return std::min(most, 1 + c.draw(s));
}
Z genWords(Case & c, size_t n) {
    Z v = c.chance(1, 2) ? genMagWords(c, n) : Z(0);
    if (v == 0) { std::vector<uint32_t> w(n); pbt::Rng r(c.bits(64)); for (auto & x : w) x = (uint32_t)r.next(); w[n - 1] |= 1; v = fromWords(w); }
    return c.chance(1, 3) ? Z(-v) : v;
}
std::string num_(double n) { return std::to_string((long long)n); }
}  // namespace

// ------------------------------------------------------------------ C36
PBT_PROPERTY("C36", prop_sharing_cost,
    "A case builds a value of 1 to 3000 words by one of the routes of C01 and (a) does 1 to 40 copies, assignments, moves, swaps, passes through functions and containers, sign and parity queries, comparisons with int64 or with a copy of itself, "
    "and reads of a low word (C++ and C interface), each of which must take a constant number of steps and bytes whatever the size; (b) writes to copies: a write may copy the digits of the written value once, "
    "further writes and the last owner's not at all; (c) counts up (or a negative value down) 1 to 3000 times in an unshared value, which must take an amortised constant of bytes, and with ++ and -- also of steps. Steps are edges of the control flow, counted by instrumentation, "
    "bytes are counted in operator new. Non-trivial: at least 300 words.",
    60000, 1500000) {
    Keep keep;
    const size_t n = genSize(c, 3000);
    Z v = genWords(c, n);
    std::string route;
    BigInteger x = build(c, v, keep, &route);
    keep.alive.clear();
    const size_t w = words(v);
    if (w >= 300) c.nontrivial();
    const size_t k = 1 + c.draw(c.chance(1, 10) ? 200 : 39);
    if (c.verbose) c.note(num_(w) + " words by " + route + ", " + num_(k) + " times");
    if (c.chance(1, 2)) { BigInteger warm(x); (void)warm.get2sComplement(0); (void)x.get2sComplement(0); }
    switch (c.weighted({5, 3, 3})) {
    case 0: {
        struct Op { const char * name; void (*f)(BigInteger &, size_t); };
        static const std::vector<Op> ops = {
            {"copy construction", [](BigInteger & x, size_t k) { while (k--) { BigInteger y(x); } }},
            {"copy assignment", [](BigInteger & x, size_t k) { BigInteger y; while (k--) y = x; }},
            {"move construction", [](BigInteger & x, size_t k) { while (k--) { BigInteger y(std::move(x)); x = std::move(y); } }},
            {"swap", [](BigInteger & x, size_t k) { BigInteger y; while (k--) { using std::swap; swap(x, y); } if (x.isZero()) { using std::swap; swap(x, y); } }},
            {"passing by value", [](BigInteger & x, size_t k) { auto f = [](BigInteger y) { return y; }; while (k--) { BigInteger z = f(x); } }},
            {"copies in a vector", [](BigInteger & x, size_t k) { std::vector<BigInteger> v; v.reserve(k); while (k--) v.push_back(x); }},
            {"unary plus", [](BigInteger & x, size_t k) { while (k--) { BigInteger y = +x; } }},
            {"negated copy", [](BigInteger & x, size_t k) { while (k--) { BigInteger y = -x; } }},
            {"absolute value of a copy", [](BigInteger & x, size_t k) { while (k--) { BigInteger y = x.absoluted(); } }},
            {"sign queries", [](BigInteger & x, size_t k) { while (k--) (void)(x.isZero() + x.isOne() + x.isNegOne() + x.isPositive() + x.isNegative() + x.isEven() + x.isOdd()); }},
            {"comparison with int64", [](BigInteger & x, size_t k) { while (k--) (void)(x.cmp((int64_t)k) + (x == (int64_t)3) + (x < (int64_t)k)); }},
            {"comparison with a copy", [](BigInteger & x, size_t k) { BigInteger y(x); while (k--) (void)(x.cmp(y) + (x == y) + (x < y)); }},
            {"conversion to int64", [](BigInteger & x, size_t k) { bool ok; while (k--) (void)(x.getInt64(&ok) + (int64_t)x.getUInt64(&ok)); }},
            {"eight bytes of the magnitude", [](BigInteger & x, size_t k) { char b[8]; while (k--) (void)x.copyMagDataTo(b, 8); }},
            {"word already asked for", [](BigInteger & x, size_t k) { (void)x.get2sComplement(0); auto s = spend([&] { while (k--) (void)x.get2sComplement(k); }); (void)s; }},
            {"negation in place", [](BigInteger & x, size_t k) { while (k--) x.negate(); }},
            {"C copies", [](BigInteger & x, size_t k) { (void)x; auto * h = pgbn_BigInteger_CreateWithI64(3); auto * g = pgbn_BigInteger_Create(); while (k--) { pgbn_BigInteger_Copy(g, h); auto * q = pgbn_BigInteger_CreateWithCopying(h); pgbn_BigInteger_Destroy(q); } pgbn_BigInteger_Destroy(g); pgbn_BigInteger_Destroy(h); }},
        };
        auto & op = c.pick(ops);
        c.stage(op.name);
        if (c.verbose) c.note(op.name);
        BigInteger own(x);
        x = BigInteger((int64_t)0);
        double extraE = 0, extraB = 0;
        if (op.name[0] == 'w') { extraE = 40.0 * w + 1000; extraB = 40.0 * w + 1000; }  // the first word fills the cache
        if (op.name[0] == 'C') {
            // the same value behind a C handle
            std::string b = twosLE(v, minTwosLen(v));
            auto * h = pgbn_BigInteger_CreateWithBin(b.size(), b.data(), true), * g = pgbn_BigInteger_Create();
            auto s = spend([&] { for (size_t i = 0; i < k; ++i) { pgbn_BigInteger_Copy(g, h); auto * q = pgbn_BigInteger_CreateWithCopying(h); (void)pgbn_BigInteger_IsOdd(q); (void)pgbn_BigInteger_Cmp(q, g); pgbn_BigInteger_Destroy(q); } });
            pgbn_BigInteger_Destroy(h);
            pgbn_BigInteger_Destroy(g);
            within(c, "copying a C handle, " + num_(k) + " times, for " + num_(w) + " words,", s, 400.0 * k + 400, 1000.0 * k + 2000, 1000.0 * k + 3000);
            break;
        }
        auto s = spend([&] { op.f(own, k); });
        within(c, std::string(op.name) + ", " + num_(k) + " times, for " + num_(w) + " words,", s, 1200.0 * k + 1000 + extraE, 3000.0 * k + 3000 + extraB, 1000.0 * k + 3000 + extraB);
        break;
    }
    case 1: {
        // copies, then each is written several times; x itself last
        const size_t m = 1 + c.draw(4), per = 1 + c.draw(5);
        std::vector<BigInteger> y(m, x);
        std::vector<size_t> order;
        for (size_t i = 0; i < m; ++i) order.push_back(i);
        for (size_t i = m; i-- > 1;) std::swap(order[i], order[c.draw(i)]);
        auto write = [&](BigInteger & b, size_t how) { if (how == 0) { if (v < 0) --b; else ++b; } else if (how == 1) { if (v < 0) b -= 5; else b += 5; } else if (how == 2) b <<= 0; else b.negate(), b.negate(); };
        const size_t how = c.draw(3);
        if (c.verbose) c.note(num_(m) + " copies, each written " + num_(per) + " times, kind " + num_(how));
        for (size_t i : order) {
            Spent first = spend([&] { write(y[i], how); });
            within(c, "the first write to a copy of " + num_(w) + " words", first, 12.0 * w + 800, 24.0 * w + 2000, 24.0 * w + 2000);
            Spent more = spend([&] { for (size_t q = 0; q < per; ++q) write(y[i], how); });
            within(c, num_(per) + " further writes to a copy of " + num_(w) + " words", more, 6.0 * w * per + 400.0 * per + 400, 600.0 * per + 200, 600.0 * per + 200);
        }
        Spent last = spend([&] { write(x, how); });
        within(c, "a write to a value of " + num_(w) + " words whose copies have been written", last, 12.0 * w + 800, 24.0 * w + 2000, 24.0 * w + 2000);
        // once nobody shares it any more, nothing has to be copied
        BigInteger * only = new BigInteger(x);
        x = (int64_t)1;
        Spent own = spend([&] { write(*only, how); });
        delete only;
        const Z d = how == 0 ? 1 : how == 1 ? 5 : 0, v1 = v < 0 ? Z(v - d) : Z(v + d), v2 = v1 < 0 ? Z(v1 - d) : Z(v1 + d);
        const double room = words(v2) > words(v1) ? 24.0 * w : 0;  // one word more may need new room
        within(c, "a write to the last owner of " + num_(w) + " words", own, 12.0 * w + 800, room + 1200, room + 1200);
        break;
    }
    default: {
        const size_t steps = 1 + c.draw(c.chance(1, 3) ? 3000 : 60);
        const int64_t add = c.chance(1, 2) ? (int64_t)(c.bits(63)) : (int64_t)c.draw(9);
        const int how = (int)c.draw(3);
        if (c.verbose) c.note(num_(steps) + (how == 3 ? " writes in place" : " counting steps"));
        if (how == 3) {
            // all kinds of writes that work in place: nothing is copied, though each may look at all digits
            BigInteger own(x);
            x = (int64_t)0;
            std::vector<int> kinds(1 + c.draw(3));
            for (auto & q : kinds) q = (int)c.draw(6);
            const unsigned long d = 1 + c.draw(40);
            const size_t rounds = std::min<size_t>(steps, 300);
            double most = (double)w;
            auto s = spend([&] { for (size_t i = 0; i < rounds; ++i) switch (kinds[i % kinds.size()]) {
                case 0: ++own; break;
                case 1: --own; break;
                case 2: own += add; break;
                case 3: own -= add; break;
                case 4: own >>= d; break;
                case 5: own <<= d; break;
                default: own.negate(); break;
            } });
            most += (double)rounds * d / 32 + 2;
            within(c, num_(rounds) + " writes in place in an unshared value of " + num_(w) + " words", s, 12.0 * most * rounds + 400.0 * rounds + 1000, 24.0 * most + 800.0 * rounds + 2000, 24.0 * most + 3000);
            break;
        }
        if (v < 0) { (void)0; }
        BigInteger own(x);
        x = (int64_t)0;
        auto s = spend([&] {
            for (size_t i = 0; i < steps; ++i) {
                if (how == 0) { if (v < 0) --own; else ++own; }
                else if (how == 1) { if (v < 0) own -= add; else own += add; }
                else { if (i & 1) { if (v < 0) --own; else ++own; } else { if (v < 0) own -= add; else own += add; } }
            }
        });
        within(c, num_(steps) + " steps of counting in an unshared value of " + num_(w) + " words", s, 12.0 * w + 400.0 * steps + 1000 + (how == 0 ? 0 : 6.0 * w * steps), 24.0 * w + 600.0 * steps + 1000, 24.0 * w + 3000);  // an addition may pass over all words
    }
    }
    c.label(w >= 1000 ? "1000 words or more" : w >= 100 ? "100 to 999 words" : "below 100 words");
}

// ------------------------------------------------------------------ C37
namespace {
void arithmetic(Case & c) {
    Keep keep;
    const size_t most = c.chance(1, 40) ? 3000 : 400;
    size_t n = genSize(c, most), m = genSize(c, most);
    Z a = genWords(c, n), b = genWords(c, m);
    BigInteger A = build(c, a, keep), B = build(c, b, keep), R;
    if (c.chance(1, 2)) keep.alive.clear();
    n = words(a);
    m = words(b);
    const double s = (double)(n + m), N = (double)n, M = (double)m;
    if (n + m > 400) c.heavy();
    if (std::max(n, m) >= 50) c.nontrivial();
    const unsigned long k = c.chance(1, 2) ? 32 * c.draw(2000) : c.draw(3000);
    const double kw = k / 32.0;
    const int op = (int)c.draw(17);
    const int radix = (int)c.range(2, 36);
    static const char * const NAME[] = {"a + b", "a - b", "a += b", "a & b", "a | b", "a ^ b", "~a", "a << k", "a >> k", "a <=> b", "words of a", "bytes of a", "a * b", "a / b", "a % b", "text of a", "a from its text", "a from its bytes"};
    const std::string what = std::string(NAME[op]) + " for " + num_(N) + " and " + num_(M) + " words" + (op == 7 || op == 8 ? " and k = " + std::to_string(k) : "") + (op == 15 || op == 16 ? " in radix " + std::to_string(radix) : "");
    c.stage(what);
    if (c.verbose) c.note(what);
    std::string text, bytes;
    if (op == 16) text = a.get_str(radix);
    if (op == 17) bytes = twosLE(a, minTwosLen(a));
    Spent x{};
    const double lin = 60 * s + 1500, linB = 120 * s + 3000;
    switch (op) {
    case 0: x = spend([&] { R = A + B; }); return within(c, what, x, lin, linB, linB);
    case 1: x = spend([&] { R = A - B; }); return within(c, what, x, lin, linB, linB);
    case 2: x = spend([&] { A += B; }); return within(c, what, x, lin, linB, linB);
    case 3: x = spend([&] { R = A & B; }); return within(c, what, x, lin, linB, linB);
    case 4: x = spend([&] { R = A | B; }); return within(c, what, x, lin, linB, linB);
    case 5: x = spend([&] { R = A ^ B; }); return within(c, what, x, lin, linB, linB);
    case 6: x = spend([&] { R = ~A; }); return within(c, what, x, lin, linB, linB);
    case 7: x = spend([&] { A <<= k; }); return within(c, what, x, 60 * (N + kw) + 1500, 120 * (N + kw) + 3000, 120 * (N + kw) + 3000);
    case 8: x = spend([&] { A >>= k; }); return within(c, what, x, 60 * N + 1500, 120 * N + 3000, 120 * N + 3000);
    case 9: x = spend([&] { (void)(A.cmp(B) + (A == B) + (A < B)); }); return within(c, what, x, lin, linB, linB);
    case 10: x = spend([&] { for (size_t i = 0; i < n; ++i) (void)A.get2sComplement(i); }); return within(c, what, x, 60 * N + 1500, 120 * N + 3000, 120 * N + 3000);
    case 11: bytes.assign(4 * n + 9, '\0'); x = spend([&] { (void)A.copyMagDataTo(&bytes[0], bytes.size()); }); return within(c, what, x, 60 * N + 1500, 120 * N + 3000, 120 * N + 3000);
    case 12: { const double p = std::min(N * M, 10 * std::max(N, M) * std::pow(std::min(N, M), 0.6)); x = spend([&] { R = A * B; }); return within(c, what, x, 12 * N * M + 100 * s + 3000, 60 * p + 200 * s + 6000, 300 * s + 6000); }
    case 13: x = spend([&] { R = A / B; }); return within(c, what, x, 12 * std::max(1.0, N - M + 1) * M + 200 * s + 3000, 300 * s + 6000, 300 * s + 6000);
    case 14: x = spend([&] { R = A % B; }); return within(c, what, x, 12 * std::max(1.0, N - M + 1) * M + 200 * s + 3000, 300 * s + 6000, 300 * s + 6000);
    case 15: x = spend([&] { text = A.toString(radix); }); return within(c, what, x, 40 * N * N + 6000 * N + 5000, 200 * N * N + 12000 * N + 10000, 1000 * N + 10000);
    case 16: x = spend([&] { R.assign(pgbn::StringArg(text), radix); }); return within(c, what, x, 20 * N * N + 3000 * N + 5000, 3000 * N + 10000, 1000 * N + 10000);
    default: x = spend([&] { R.fromBinary(bytes.data(), bytes.size(), true); }); return within(c, what, x, 60 * N + 1500, 120 * N + 3000, 120 * N + 3000);
    }
}
// the product of long values must grow like the divide-and-conquer method: four times the length, about nine times the work
void growth(Case & c) {
    const size_t n = 500 + c.draw(300);
    c.heavy();
    pbt::Rng r(c.bits(64));
    auto value = [&](size_t w) { std::vector<uint32_t> x(w); for (auto & y : x) y = (uint32_t)r.next() | 1; return fromZ(fromWords(x)); };
    BigInteger a = value(n), b = value(n), A = value(4 * n), B = value(4 * n), R;
    c.stage("product of long values");
    double one = spend([&] { R = a * b; }).edges, four = spend([&] { R = A * B; }).edges;
    if (c.verbose) c.note(num_(n) + " and " + num_(4 * n) + " words");
    c.checkf(four <= 12.8 * one, [&] { return "multiplying values of " + num_(n) + " words takes " + num_(one) + " steps, of " + num_(4 * n) + " words " + num_(four) + ": the work grows like the square of the length"; });
}
const std::vector<std::pair<const char *, const char *>> & parts();
// of four times the length: at most some seven times the work
void longer(Case & c) {
    setup();
    const auto & p = c.pick(parts()), & q = c.pick(parts());
    const bool two = c.chance(1, 2), par = c.chance(1, 3), cut = c.chance(1, 6), args = c.chance(1, 8);
    const int threads = 1 + (int)c.draw(2);
    const size_t k = 60 + c.draw(c.chance(1, 3) ? 260 : 100);
    static const std::vector<const char *> ENDS = {"=", ")", "$", "+", "(", " 1", ",", "?", ":", "id", "0x", "_h(1,", "}"};
    const char * end = c.pick(ENDS);
    const int broken = (int)c.draw(3);
    auto text = [&](size_t n) {
        std::string l, r;
        if (args) { for (size_t i = 0; i < n; ++i) l += (i ? "," : "_h(") + std::string("(") + p.first + "1" + p.second + ")"; return l + ")"; }
        for (size_t i = 0; i < n; ++i) { l += p.first; if (two) l += q.first; }
        for (size_t i = 0; i < n; ++i) { if (two) r += q.second; r += p.second; }
        return !cut ? l + "(5)" + r : broken == 0 ? l : broken == 1 ? l + "(5)" : broken == 2 ? l + "(5)" + r + end : end + l + "(5)" + r;
    };
    const std::string a = text(k), b = text(4 * k);
    if (c.verbose) c.note((par ? "peval with " + num_(threads) + " threads: " : std::string("eval: ")) + num_(k) + " and " + num_(4 * k) + " times " + p.first + (two ? q.first : "") + " ... " + (two ? q.second : "") + p.second + (args ? ", as arguments" : "") + (cut ? std::string(", made malformed in way ") + num_(broken) + " with " + end : std::string()));
    c.stage("eval of " + brief(a));
    if (k >= 100) c.nontrivial();
    if (par) c.label("peval");
    pgbn::Status st;
    auto run = [&](const std::string & t) { BigInteger r = par ? pgbn::expr::peval(t, threads, &st) : pgbn::expr::eval(t, &st); };
    run("1+2*id(3)");
    const Spent one = spend([&] { run(a); }), four = spend([&] { run(b); });
    if (CALIBRATE) { FILE * f = std::fopen("/tmp/cost.log", "a"); std::fprintf(f, "%.2f %.2f %.2f | growth %s %s%s\n", four.edges / one.edges, four.bytes / one.bytes, four.peak / one.peak, par ? "peval" : "eval", p.first, p.second); std::fclose(f); }
    auto grows = [&](const char * what, double x, double y, double base) {
        c.checkf(y <= 7 * x + base, [&] { return std::string(what) + " to evaluate an expression of " + num_((double)a.size()) + " characters: " + num_(x) + ", of " + num_((double)b.size()) + " characters of the same kind: " + num_(y) + "; this grows like the square of the length"; });
    };
    grows("steps", one.edges, four.edges, 20000);
    grows("bytes", one.bytes, four.bytes, 40000);
    grows("bytes at a time", one.peak, four.peak, 40000);
}
const std::vector<std::pair<const char *, const char *>> & parts() {
    static const std::vector<std::pair<const char *, const char *>> PARTS = {
        {"(", ")"}, {"-", ""}, {"~", ""}, {"", "+1"}, {"", "-2"}, {"0?2:", ""}, {"1?3:", ""}, {"1?", ":4"}, {"(1+", ")"}, {"", "<2"}, {"", "&5"}, {"", "|2"}, {"", "%7"}, {"", "/2"}, {"3>", ""}, {"id(", ")"}, {"sub(2,", ")"}, {"_h(1,(", ")%1000,2)"}, {" ", " "}, {"", "==1"},
        {"K-", ""}, {"(0)?(1):(", ")"}, {"mix3_(1,2,", ")"}, {"((", ")<<0)"}, {"((", ")>>3)"}, {"2*(", "%9)"}, {"zero()+", ""}, {"NEG_1+", ""}, {"1+ 0x1f+", ""}};
    return PARTS;
}
void expressions(Case & c) {
    setup();
    if (c.chance(1, 3)) return longer(c);
    std::string pre, post;
    size_t units = 0;
    const size_t runs = 1 + c.draw(2);
    std::string text = std::to_string(c.draw(9));
    std::string shape;
    for (size_t q = 0; q < runs; ++q) {
        std::vector<std::pair<const char *, const char *>> pat;
        for (size_t i = 0, l = 1 + c.draw(2); i < l; ++i) pat.push_back(c.pick(parts()));
        pre.clear();
        post.clear();
        for (auto & p : pat) { pre += p.first; post.insert(0, p.second); }
        const size_t k = 1 + c.draw(c.chance(1, 6) ? 700 : 60);
        units += k;
        std::string l, r;
        for (size_t i = 0; i < k; ++i) { l += pre; r += post; }
        text = l + "(" + text + ")" + r;
        shape += num_(k) + " times " + pre + " ... " + post + "; ";
    }
    if (c.chance(1, 8)) text = text.substr(0, c.draw(text.size()));  // malformed
    if (c.chance(1, 8)) { size_t k = 1 + c.draw(2000); std::string l; for (size_t i = 0; i < k; ++i) l += i ? ",1" : "1"; text = "_h(" + l + ")+" + text; }
    if (c.verbose) c.note(shape + brief(text));
    c.stage("eval " + brief(text));
    if (units >= 100) c.nontrivial();
    const double L = (double)text.size();
    pgbn::Status st;
    BigInteger R;
    // an evaluation before, so that what is set up only once does not count
    pgbn::expr::eval("1+2*id(3)", &st);
    Spent x = spend([&] { R = pgbn::expr::eval(text, &st); });
    within(c, "evaluating an expression of " + num_(L) + " characters (" + shape + ")", x, 3000 * L + 20000, 12000 * L + 40000, 6000 * L + 40000);
    R = (int64_t)0;
    Spent again = spend([&] { R = pgbn::expr::eval(text, &st); R = (int64_t)0; });
    c.checkf(again.held <= 512, [&] { return "evaluating the same expression again keeps " + std::to_string(again.held) + " bytes"; });
}
void literals(Case & c) {
    const size_t n = 1 + c.draw(c.chance(1, 20) ? 9000 : 900);
    std::string t;
    int kind = (int)c.draw(3);
    switch (kind) {
    case 0: t = std::string(n, ' ') + "7" + std::string(c.draw(n), '\t'); break;
    case 1: t = std::string(n, '0') + "7"; break;
    case 2: t = "0x" + std::string(n, 'f'); break;
    default: t = std::string(n, '9'); break;
    }
    const double L = (double)t.size(), W = kind < 2 ? 1 : n / 8.0 + 2;
    pgbn::Status st;
    BigInteger R;
    if (c.verbose) c.note(brief(t));
    Spent x = spend([&] { R = pgbn::expr::eval(t, &st); });
    within(c, "evaluating " + brief(t), x, 300 * L + 40 * W * W + 6000 * W + 20000, 600 * L + 3000 * W + 40000, 600 * L + 1000 * W + 40000);
}
void factorials(Case & c) {
    const unsigned long k = c.draw(c.chance(1, 20) ? 3000 : 400);
    Z f;
    mpz_fac_ui(f.get_mpz_t(), k);
    const double W = (double)words(f);
    BigInteger R;
    pgbn::Status st;
    if (c.verbose) c.note(std::to_string(k) + "!");
    Spent x = spend([&] { R = pgbn::expr::eval(std::to_string(k) + "!", &st); });
    within(c, std::to_string(k) + "!", x, 30 * W * k + 3000.0 * k + 30000, 100 * W * k + 3000.0 * k + 40000, 500 * W + 40000);
}
void fractions(Case & c) {
    const size_t n = genSize(c, c.chance(1, 20) ? 150 : 40), m = genSize(c, c.chance(1, 20) ? 150 : 40);
    Z a = genWords(c, n), b = genWords(c, m);
    BigInteger A = fromZ(a), B = fromZ(b);
    const double s = (double)(n + m);
    if (std::max(n, m) >= 50) c.nontrivial();
    if (c.verbose) c.note("fraction of " + num_(n) + " and " + num_(m) + " words");
    Spent x = spend([&] { Fraction f(A, B); (void)f; });
    within(c, "reducing a fraction of " + num_(n) + " and " + num_(m) + " words", x, 200 * s * s + 50000 * s + 20000, 1000 * s * s + 200000 * s + 50000, 3000 * s + 20000);
    Fraction f(A, B);
    const size_t places = c.draw(c.chance(1, 10) ? 600 : 60);
    std::string t;
    x = spend([&] { t = f.toDecimal(places); });
    const double p = (double)places / 9 + s + 2;
    within(c, num_(places) + " decimal places of a fraction of " + num_(n) + " and " + num_(m) + " words", x, 200 * p * p + 60000 * p + 20000, 1000 * p * p + 200000 * p + 50000, 10000 * p + 50000);
}
void containers(Case & c) {
    const size_t k = 1 + c.draw(c.chance(1, 5) ? 4000 : 200);
    const double K = (double)k;
    switch (c.draw(3)) {
    case 0: {
        pgbn::parallel::SimpleConcurrenceQueue<int> q;
        int v = 0;
        Spent x = spend([&] { for (size_t i = 0; i < k; ++i) q.push((int)i, [] { return true; }, [] {}); while (q.tryPop(v)) {} });
        within(c, num_(K) + " elements through a queue", x, 400 * K + 1000, 200 * K + 3000, 200 * K + 3000);
        x = spend([&] { for (size_t i = 0; i < k; ++i) { q.push((int)i, [] { return true; }, [] {}); q.pop(v); } });
        within(c, num_(K) + " elements one at a time through a queue", x, 400 * K + 1000, 40 * K + 3000, 6000);
        break;
    }
    case 1: {
        pgbn::Slice<uint32_t> s;
        Spent x = spend([&] { for (size_t i = 0; i < k; ++i) s.append((uint32_t)i); for (size_t i = 0; i < k; ++i) s.cloneData()[i] = 3; });
        within(c, num_(K) + " elements appended to a slice and written", x, 400 * K + 1000, 200 * K + 3000, 200 * K + 3000);
        x = spend([&] { pgbn::Slice<uint32_t> y(s), z = s.sliced(0, k / 2); (void)y.count(); (void)z.count(); (void)y.weakEquals(s); });
        within(c, "copying and cutting a slice of " + num_(K) + " elements", x, 400, 600, 600);
        // a window that moves on
        pgbn::Slice<uint32_t> win;
        const size_t len = 1 + c.draw(20);
        for (size_t i = 0; i < len; ++i) win.append(1);
        x = spend([&] { for (size_t i = 0; i < k; ++i) { win.append(2); win.slice(1, len + 1); } });
        c.checkf(x.held <= 64 * (double)len + 4000, [&] { return "a slice of " + num_(len) + " elements holds " + std::to_string(x.held) + " bytes more after " + num_(K) + " times appending at its end and dropping the first element"; });
        within(c, num_(K) + " steps of a moving window of " + num_(len) + " elements", x, 400 * K + 1000, 400 * K + 4000, 1e18);
        break;
    }
    case 2: {
        std::string t;
        for (size_t i = 0; i < k; ++i) t += (char)('a' + i % 26);
        size_t n = 0;
        Spent x = spend([&] { pg::base::StringReadStream in(t), cp(t, true); while (!in.eof()) { (void)in.get(); ++n; } while (!cp.eof()) (void)cp.get(); });
        within(c, num_(K) + " characters through a stream", x, 400 * K + 1000, 200 * K + 3000, 200 * K + 3000);
        break;
    }
    default: {
        std::string f, r;
        for (size_t i = 0; i < k; ++i) f += c.chance(1, 8) ? "{1}" : i % 3 ? "{0}" : "xy";
        Spent x = spend([&] { r = pgfmt::format(f, 12, std::string("abc")); });
        within(c, "formatting " + num_(f.size()) + " characters", x, 3000 * (double)f.size() + 10000, 6000 * (double)f.size() + 20000, 600 * (double)f.size() + 20000);
    }
    }
}
// the memory that values hold is bounded by the size they have had, not by what was done to them
void held(Case & c) {
    const size_t n = 1 + c.draw(2), bits = 32 * (1 + c.draw(c.chance(1, 4) ? 100 : 12));
    const size_t steps = 20 + c.draw(c.chance(1, 3) ? 2500 : 300);
    std::vector<Z> v(n);
    size_t most = 1;
    for (auto & z : v) { z = genZ(c, SMALL); most = std::max(most, words(z)); }
    // a pattern of one to five operations, repeated; each is drawn once
    struct Op { int kind; size_t d, s; unsigned long k; int64_t i; };
    std::vector<Op> pat(1 + c.draw(4));
    std::string desc;
    static const char * const NAME[] = {"<<=", ">>=", "+= i", "-= i", "+= s", "-= s", "^= s", "&= s", "|= s", "*= i", "/= i", "%= s", "++", "--", "negate", "~", "copy of s", "+= 2^k", "-= 2^k", "swap with s", "word", "text", "from bytes", "|= 2^k", "&= 2^k - 1"};
    for (auto & o : pat) {
        o = {(int)c.draw(24), c.draw(n - 1), c.draw(n - 1), c.chance(1, 2) ? 32 * c.draw(bits / 32 + 1) : c.draw(bits), genI64(c)};
        if (o.i == 0) o.i = 1;
        desc += "v" + num_(o.d) + " " + NAME[o.kind] + " (s = v" + num_(o.s) + ", k = " + std::to_string(o.k) + ", i = " + std::to_string(o.i) + "); ";
    }
    if (c.verbose) c.note(num_(steps) + " times: " + desc);
    c.stage("memory held: " + desc);
    if (steps >= 300) { c.nontrivial(); c.heavy(); }
    const int64_t before = pbt::held;
    std::vector<std::unique_ptr<BigInteger>> x;
    for (auto & z : v) x.push_back(std::make_unique<BigInteger>(fromZ(z)));
    for (size_t st = 0; st < steps; ++st) for (auto & o : pat) {
        Z & V = v[o.d];
        const Z S = v[o.s];
        BigInteger & X = *x[o.d];
        const BigInteger & Y = *x[o.s];
        switch (o.kind) {
        case 0: X <<= o.k; V <<= o.k; break;
        case 1: X >>= o.k; mpz_fdiv_q_2exp(V.get_mpz_t(), V.get_mpz_t(), o.k); break;
        case 2: X += o.i; V += z64(o.i); break;
        case 3: X -= o.i; V -= z64(o.i); break;
        case 4: X += Y; V += S; break;
        case 5: X -= Y; V -= S; break;
        case 6: X ^= Y; V ^= S; break;
        case 7: X &= Y; V &= S; break;
        case 8: X |= Y; V |= S; break;
        case 9: X *= o.i; V *= z64(o.i); break;
        case 10: X /= o.i; V /= z64(o.i); break;
        case 11: if (S != 0) { X %= Y; V %= S; } break;
        case 12: ++X; V += 1; break;
        case 13: --X; V -= 1; break;
        case 14: X.negate(); V = -V; break;
        case 15: X = ~X; V = ~V; break;
        case 16: X = Y; V = S; break;
        case 17: X += fromZ(pow2(o.k)); V += pow2(o.k); break;
        case 18: X -= fromZ(pow2(o.k)); V -= pow2(o.k); break;
        case 19: if (o.d != o.s) { std::swap(*x[o.d], *x[o.s]); std::swap(v[o.d], v[o.s]); } break;
        case 20: (void)X.get2sComplement(o.k / 32); break;
        case 21: if (st < 20) (void)X.toString(16); break;
        case 22: { std::string b = twosLE(V, minTwosLen(V) + 3); X.fromBinary(b.data(), b.size(), true); break; }
        case 23: X |= fromZ(pow2(o.k)); V |= pow2(o.k); break;
        default: X &= fromZ(pow2(o.k) - 1); V &= pow2(o.k) - 1; break;
        }
        most = std::max(most, words(v[o.d]));
        if (bitlen(v[o.d]) > bits + 32) { unsigned long d = bitlen(v[o.d]) - bits; *x[o.d] >>= d; mpz_fdiv_q_2exp(v[o.d].get_mpz_t(), v[o.d].get_mpz_t(), d); }
    }
    const int64_t now = pbt::held - before;
    const double may = (double)n * (80.0 * (double)most + 3000);
    for (size_t i = 0; i < n; ++i) observe(c, *x[i], v[i], "a value after the history", false);
    if (CALIBRATE && (double)now > may / 6) { FILE * f = std::fopen("/tmp/cost.log", "a"); std::fprintf(f, "held %ld may %.0f most %zu n %zu\n", (long)now, may, most, n); std::fclose(f); }
    c.checkf((double)now <= may, [&] { return num_((double)n) + " value(s) that never had more than " + num_((double)most) + " words hold " + std::to_string(now) + " bytes after " + num_((double)steps) + " times: " + desc; });
}
}  // namespace

PBT_PROPERTY("C37", prop_cost,
    "A case draws one of: an operation of the integers with operands of 1 to 400 (sometimes 3000) words built by any route; products of values of n and 4n words; an expression made of up to some thousand repetitions of nested pieces (also cut off), long literals, "
    "white space, factorials; a fraction; elements through the queue, a slice, a stream, the formatter; or a pattern of 1 to 5 operations repeated up to 2500 times over 1 to 3 values whose size stays bounded. Steps (edges of the control flow), bytes allocated in "
    "total and at a time must stay below a bound of the stated growth with several times today's constants, and what the values hold at the end below a multiple of the largest size they have had. "
    "Non-trivial: an operand of at least 50 words, an expression of at least 100 repetitions, or a history of at least 300.",
    40000, 400000) {
    pbt::quote("");
    quiet();
    switch (c.weighted({8, 1, 6, 1, 1, 2, 3, 5})) {
    case 0: c.label("integers"); arithmetic(c); break;
    case 1: if (!c.chance(1, 4)) { c.label("integers"); arithmetic(c); break; } c.label("growth of the product"); c.nontrivial(); growth(c); break;
    case 2: c.label("expression"); expressions(c); break;
    case 3: c.label("literal"); literals(c); break;
    case 4: c.label("factorial"); factorials(c); break;
    case 5: c.label("fraction"); fractions(c); break;
    case 6: c.label("containers"); containers(c); break;
    default: c.label("memory held"); held(c); break;
    }
}
