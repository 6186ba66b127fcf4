// Exact fractions.
#include <gmpxx.h>
#include "view.h"
#include "PGBigNumber/Fraction.h"
using namespace num;
using pgbn::Status;
using pgbn::experimental::Fraction;
namespace ErrCode = pgbn::ErrCode;
using Q = mpq_class;

namespace {
Q mk(const Z & n, const Z & d) { Q q(n, d); q.canonicalize(); return q; }
std::string qs(const Q & q) { return zs(q.get_num()) + "/" + zs(q.get_den()); }

// lowest terms and the right value; which of the two carries the sign is left open
void look(Case & c, const Fraction & f, const Q & q, const char * what) {
    c.stage(what);
    Z n = toZ(f.getNum()), d = toZ(f.getDen());
    auto ctx = [&](const char * m) { return std::string(what) + ": " + m + "; got " + zs(n) + " / " + zs(d) + ", expected " + qs(q); };
    c.checkf(d != 0, [&] { return ctx("the denominator is 0"); });
    observe(c, f.getNum(), n, "numerator", false);
    observe(c, f.getDen(), d, "denominator", false);
    c.checkf(mk(n, d) == q, [&] { return ctx("wrong value"); });
    Z g = gcd(n, d);
    c.checkf(abs(g) == 1, [&] { return ctx("not in lowest terms"); });
}
Z part(Case & c) {
    switch (c.weighted({4, 3, 2})) {
    case 0: return Z((long)c.range(-12, 12));
    case 1: { Z v = 1; static const long p[] = {2, 3, 5, 7, 10, 11, 65536, 4294967291}; size_t k = c.draw(12); while (k--) v *= p[c.draw(7)]; return c.chance(1, 2) ? Z(-v) : v; }
    default: return genZ(c, c.chance(1, 80) ? LARGE : SMALL);
    }
}
Fraction make(Case & c, Q & q, std::string & log) {
    Z n = part(c), d = part(c);
    if (d == 0) d = 1;
    if (c.chance(1, 3)) { Z g = abs(part(c)); if (g != 0) { n *= g; d *= g; } }
    q = mk(n, d);
    if (c.chance(1, 30)) { log += "Fraction()"; q = 0; return Fraction(); }
    if (c.chance(1, 60)) { log += "Fraction{} moved on"; q = 0; Fraction f, g; g = std::move(f); return g; }
    size_t how = c.draw(4);
    log += "Fraction(" + zs(n) + ", " + zs(d) + ") by route " + std::to_string(how);
    switch (how) {
    case 0: { bool ok = false; Fraction f(fromZ(n), fromZ(d), &ok); c.check(ok, "a fraction with a non-zero denominator is reported as failed"); return f; }
    case 1: return Fraction(fromZ(n)) / Fraction(fromZ(d));
    case 2: { Fraction f; f.setDen(fromZ(d)); f.setNum(fromZ(n) * (toZ(f.getDen()) < 0 && d > 0 ? fromZ(-1) : fromZ(1))); q = mk(n, toZ(f.getDen())); return f; }
    case 3: if (n != 0) { bool ok = false; Fraction f = Fraction(fromZ(d), fromZ(n)).reciprocal(&ok); c.check(ok, "the reciprocal of a non-zero fraction is reported as failed"); return f; } [[fallthrough]];
    default: { if (d == 1 && c.chance(1, 2)) return Fraction(fromZ(n)); Fraction f(fromZ(n), fromZ(d)); Fraction g = f; return g; }
    }
}
void quiet() { for (pgbn::Enum e = 1; e <= 16; ++e) Status::registe(e, Status::getInfo(e)); }
}  // namespace

PBT_PROPERTY("C17", prop_fraction,
    "A case is a history of 1 to ~24 steps over three fractions (built by constructor (also without arguments), setters, division, reciprocal or copy from numerators and denominators with common factors, either sign, up to ~1200 bits, now and then ~8000): + - * /, "
    "reciprocal, setNum, setDen, copies, also of a fraction with itself; after each step the result must equal GMP's rational, be in lowest terms with a non-zero denominator, and the operands must be unchanged; gcd of "
    "non-negative integers is compared too. Non-trivial: some result had a common factor cancelled from parts of at least two words.",
    240000, 4000000) {
    std::string log;
    Fraction f[3];
    Q q[3];
    for (int i = 0; i < 3; ++i) { f[i] = make(c, q[i], log); log += "\n"; look(c, f[i], q[i], "a new fraction"); }
    if (c.chance(1, 6)) {
        Z a = abs(genZ(c, MEDIUM)), b = abs(genZ(c, MEDIUM));
        if (c.chance(1, 2)) { Z g = genMag(c, SMALL); a *= g; b *= g; }
        if (c.chance(1, 300)) {  // neighbouring Fibonacci numbers, perhaps with a common factor: the most steps for the size
            unsigned long k = c.chance(1, 4) ? 1000 + c.draw(11500) : 20 + c.draw(1500);
            c.massive();
            mpz_fib2_ui(a.get_mpz_t(), b.get_mpz_t(), k);
            if (c.chance(1, 2)) { Z g = genMag(c, SMALL); a *= g; b *= g; }
            if (c.chance(1, 2)) std::swap(a, b);
            c.label("gcd with thousands of steps");
        }
        BigInteger A = fromZ(a), B = fromZ(b);
        c.stage("gcd");
        BigInteger g = pgbn::algo::gcd(A, B);
        observe(c, g, gcd(a, b), "gcd");
        observe(c, A, a, "first argument of gcd");
        observe(c, B, b, "second argument of gcd");
        c.label("gcd");
        if (words(a) > 1 && words(b) > 1) c.nontrivial();
    }
    size_t steps = 1 + c.draw(c.chance(1, 4) ? 23 : 7);
    const size_t limit = c.chance(1, 60) ? 16000 : 2400;
    if (limit > 2400) c.heavy();
    for (size_t s = 0; s < steps; ++s) {
        size_t d = c.draw(2), a = c.draw(2), b = c.draw(2);
        int op = (int)c.weighted({4, 4, 4, 4, 2, 2, 2, 2});
        if (op == 3 && q[b] == 0) op = 0;
        if (op == 4 && q[a] == 0) op = 1;
        Q qa = q[a], qb = q[b], r;
        Z raw = 0;
        std::string what;
        Fraction res;
        switch (op) {
        case 0: what = "f" + std::to_string(a) + " + f" + std::to_string(b); c.stage(what); res = f[a] + f[b]; r = qa + qb; raw = qa.get_den() * qb.get_den(); break;
        case 1: what = "f" + std::to_string(a) + " - f" + std::to_string(b); c.stage(what); res = f[a] - f[b]; r = qa - qb; raw = qa.get_den() * qb.get_den(); break;
        case 2: what = "f" + std::to_string(a) + " * f" + std::to_string(b); c.stage(what); res = f[a] * f[b]; r = qa * qb; raw = qa.get_den() * qb.get_den(); break;
        case 3: what = "f" + std::to_string(a) + " / f" + std::to_string(b); c.stage(what); res = f[a] / f[b]; r = qa / qb; raw = qa.get_den() * qb.get_num(); break;
        case 4: what = "reciprocal of f" + std::to_string(a); c.stage(what); res = f[a].reciprocal(); r = 1 / qa; break;
        case 5: {
            Z n = part(c);
            if (c.chance(1, 3)) n *= qa.get_den();
            what = "f" + std::to_string(a) + ".setNum(" + zs(n) + ")";
            c.stage(what);
            res = f[a];
            Z den = toZ(res.getDen());
            if (c.chance(1, 8)) { res.setNum(res.getNum()); r = qa; }
            else { res.setNum(fromZ(n)); r = mk(n, den); }
            raw = den;
            break;
        }
        case 6: {
            Z n = part(c);
            if (n == 0) n = 6;
            if (c.chance(1, 3) && qa != 0) n *= qa.get_num();
            what = "f" + std::to_string(a) + ".setDen(" + zs(n) + ")";
            c.stage(what);
            res = f[a];
            Z nu = toZ(res.getNum());
            bool ok = false;
            if (c.chance(1, 8)) { res.setDen(res.getDen(), &ok); r = qa; }
            else { res.setDen(fromZ(n), &ok); r = mk(nu, n); }
            c.check(ok, what + ": reported as failed");
            raw = n;
            break;
        }
        default: what = "f" + std::to_string(d) + " = f" + std::to_string(a); res = f[a]; r = qa; break;
        }
        if (c.verbose) log += what + "\n";
        if (words(raw) >= 2 && abs(raw) != r.get_den()) c.nontrivial();
        look(c, res, r, what.c_str());
        look(c, f[a], qa, "left operand afterwards");
        look(c, f[b], qb, "right operand afterwards");
        if (bitlen(r.get_num()) + bitlen(r.get_den()) < limit) {
            f[d] = res;
            q[d] = r;
        } else f[d] = make(c, q[d], log);
        if (r == 0) c.label("zero result");
    }
    if (c.verbose) c.note(log);
    for (int i = 0; i < 3; ++i) look(c, f[i], q[i], "finally");
}

PBT_PROPERTY("C18", prop_fraction_text,
    "A case builds a fraction (either sign, in lowest terms after construction, also with small results below 1, powers of ten and values at digit boundaries) and compares toString in a drawn radix with |numerator|/|denominator| "
    "and its sign, and toDecimal for 0 to 60 (now and then 3000) places with GMP's truncated decimal expansion (the sign of a result that shows only zeros is left open). Non-trivial: the value is not an integer.",
    600000, 8000000) {
    std::string log;
    Q q;
    Fraction f;
    if (c.chance(1, 3)) {
        Z n = part(c), d = 1;
        mpz_ui_pow_ui(d.get_mpz_t(), 10, c.draw(30));
        n = n + (long)c.range(-1, 1);
        if (c.chance(1, 4)) d = d + (long)c.range(-1, 1);
        if (d == 0) d = 3;
        if (c.chance(1, 4)) { n = -n; d = -d; }
        q = mk(n, d);
        f = Fraction(fromZ(n), fromZ(d));
        log = zs(n) + " / " + zs(d);
    } else f = make(c, q, log);
    if (c.verbose) c.note(log);
    look(c, f, q, "the fraction");
    if (q.get_den() != 1) c.nontrivial();
    int radix = c.chance(1, 3) ? 10 : (int)c.range(2, 36);
    c.stage("toString");
    std::string s = f.toString(radix), e = std::string(q < 0 ? "-" : "") + Z(abs(q.get_num())).get_str(radix) + "/" + q.get_den().get_str(radix);
    c.checkf(s == e, [&] { return "toString(" + std::to_string(radix) + ") is " + s + ", expected " + e; });
    std::string s10 = f.toString();
    c.checkf(s10 == std::string(q < 0 ? "-" : "") + Z(abs(q.get_num())).get_str() + "/" + q.get_den().get_str(), [&] { return "toString() is " + s10; });
    if (bitlen(q.get_den()) > 2400) c.heavy();
    bool dflt = c.chance(1, 8);
    int k = dflt ? 8 : (int)c.draw(c.chance(1, 4) ? (c.chance(1, 60) ? 3000 : 60) : 12);
    if (!dflt && c.chance(1, 20000)) { k = c.chance(1, 3) ? 32760 + (int)c.draw(20) : 3000 + (int)c.draw(20000); c.massive(); c.label("tens of thousands of places"); }
    if (k > 60) c.heavy();
    c.stage("toDecimal");
    std::string d = dflt ? f.toDecimal() : f.toDecimal(k);
    Z p10;
    mpz_ui_pow_ui(p10.get_mpz_t(), 10, k);
    Z t = abs(q.get_num()) * p10 / q.get_den();  // truncated
    std::string digits = t.get_str();
    if ((int)digits.size() <= k) digits.insert(0, k + 1 - digits.size(), '0');
    std::string want = digits.substr(0, digits.size() - k) + (k ? "." + digits.substr(digits.size() - k) : "");
    bool ok = q >= 0 ? d == want : t != 0 ? d == "-" + want : (d == "-" + want || d == want);
    c.checkf(ok, [&] { return "toDecimal(" + std::to_string(k) + ") of " + qs(q) + " is " + d + ", expected " + (q < 0 ? "-" : "") + want; });
    if (t == 0 && q != 0) c.label("only zeros shown");
    if (q < 0) c.label("negative");
    look(c, f, q, "the fraction afterwards");
}

PBT_PROPERTY("C19", prop_fraction_zero,
    "A case asks for a fraction with denominator 0 (constructor or setter), the reciprocal of zero, or a quotient by a zero fraction, zero being built through any route, mixed with the same calls on non-zero values: exactly the former "
    "must run the division-by-zero handler once, return ok = false and leave the thread's status showing it, the others must report success, and every operand (for the setter: the fraction) must keep its value; some cases "
    "use the built-in handler in a child process, which must print the message and exit with status 1. Non-trivial: the operation divides by zero.",
    400000, 6000000) {
    static const pgbn::Callback builtin = Status::getCallback(ErrCode::DIVBY0);
    std::string log;
    Q q;
    Fraction f = make(c, q, log);
    Keep keep;
    Z d = c.chance(1, 2) ? Z(0) : part(c);
    std::string route;
    BigInteger D = build(c, d, keep, &route);
    int op = (int)c.draw(3);
    bool zero;
    Fraction z;
    Q zq = 0;
    if (op >= 2) {  // a zero (or other) fraction by several routes
        switch (c.draw(4)) {
        case 0: z = Fraction(D); zq = d; break;
        case 1: { Z n = part(c); if (n == 0) n = 9; z = Fraction(D, fromZ(n)); zq = mk(d, n); break; }
        case 2: z = f - f; zq = 0; break;
        case 3: z = f * Fraction(D); zq = q * d; break;
        default: z = f; z.setNum(D); zq = mk(d, toZ(f.getDen())); break;
        }
        zero = zq == 0;
    } else zero = d == 0;
    static const char * names[] = {"Fraction(n, d)", "setDen(d)", "reciprocal()", "f / z"};
    if (c.verbose) c.note(std::string(names[op]) + ", f = " + qs(q) + ", d = " + zs(d) + " (" + route + "), z = " + qs(zq));
    bool ok = zero, useOk = c.chance(3, 4);
    Fraction res;
    auto run = [&] {
        bool * p = useOk ? &ok : nullptr;
        switch (op) {
        case 0: { Fraction t(fromZ(q.get_num()), D, p); res = t; break; }
        case 1: f.setDen(D, p); break;
        case 2: res = z.reciprocal(p); break;
        default: res = f / z; break;
        }
    };
    if (zero) c.nontrivial();
    c.label(zero ? names[op] : "not a division by zero");
    if (c.chance(1, 30)) {
        c.label("built-in handler");
        std::string info = infoOf(ErrCode::DIVBY0);
        Status::registe(ErrCode::DIVBY0, info, builtin);
        auto r = pbt::inChild([&] { run(); });
        if (zero) {
            c.checkf(r.exited && r.code == 1, [&] { return std::string(names[op]) + " with zero: the process did not exit with status 1: " + (r.exited ? "exit " + std::to_string(r.code) : "signal " + std::to_string(r.sig)); });
            c.checkf(r.err.find(info) != std::string::npos, [&] { return std::string(names[op]) + ": the registered message is missing in the output " + pbt::quote(r.err); });
        } else c.check(r.exited && r.code == 0, std::string(names[op]) + " without zero ended the process");
        return;
    }
    static int calls;
    quiet();
    Status::registe(ErrCode::DIVBY0, Status::getInfo(ErrCode::DIVBY0), [] { ++calls; });
    calls = 0;
    Z den0 = toZ(f.getDen()), num0 = toZ(f.getNum());
    *Status::getInstance() = c.chance(1, 2) ? ErrCode::SUCCESS : ErrCode::RADIX_INVALID;
    c.stage(names[op]);
    run();
    std::string info = statusInfo();
    c.checkf(calls == (zero ? 1 : 0), [&] { return std::string(names[op]) + ": the handler of the division by zero ran " + std::to_string(calls) + " times"; });
    if (op != 3 && useOk) c.checkf(ok == !zero, [&] { return std::string(names[op]) + ": ok is wrong"; });
    c.checkf(info == infoOf(zero ? ErrCode::DIVBY0 : ErrCode::SUCCESS), [&] { return std::string(names[op]) + ": the thread's status is " + pbt::quote(info); });
    observe(c, D, d, "the denominator afterwards");
    observeKeep(c, keep);
    if (op != 1) c.checkf(toZ(res.getDen()) != 0, [&] { return std::string(names[op]) + ": the resulting fraction has denominator 0"; });
    if (op != 1) look(c, f, q, "the other fraction afterwards");
    else if (zero) look(c, f, q, "a fraction whose denominator was not set");
    else look(c, f, mk(num0, d), "a fraction whose denominator was set");
    if (op >= 2) look(c, z, zq, "the divisor afterwards");
    if (!zero && op == 0) look(c, res, mk(q.get_num(), d), names[op]);
    if (!zero && op == 2) look(c, res, 1 / zq, names[op]);
    if (!zero && op == 3) look(c, res, q / zq, names[op]);
}
