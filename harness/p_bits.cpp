#include "forms.h"
using namespace num;

// ------------------------------------------------------------------ C04
PBT_PROPERTY("C04", prop_bits,
    "A case builds two operands (all sign combinations; magnitudes with zero low words, 2^k+d, words of 0/ff../80.., lengths 0 to ~120 words), applies &, | or ^ in one of 7 "
    "operand forms and compares with GMP's infinite two's complement semantics; or applies ~, notSelf() (x -> -x-1) or notBits() (the significant bits of the magnitude complemented, sign kept), "
    "and uses the result further. Operands and sharing values must be unchanged. Non-trivial: an operand is negative and has at least two words, or a magnitude of at least two words is complemented.",
    1500000, 15000000) {
    const bool massive = c.chance(1, 4000);
    if (massive) c.label("beyond 1000 words");
    if (c.chance(1, 4)) {
        Keep k;
        Z v = massive ? genMassive(c) : c.chance(1, 3) ? Z(pow2(c.draw(1) ? 32 * c.draw(9) : c.draw(300)) + (long)c.range(-2, 2)) : genMag(c, MEDIUM);
        if (c.chance(1, 2)) v = -v;
        std::string route;
        BigInteger x = build(c, v, k, &route);
        BigInteger copy = x;
        int op = (int)c.draw(2);
        if (c.verbose) c.note(std::string(op == 0 ? "~" : op == 1 ? "notSelf" : "notBits") + " of " + zs(v) + " (" + route + ")");
        Z e;
        if (op == 0) {
            c.label("~");
            c.stage("~x");
            e = -v - 1;
            BigInteger r = ~x;
            observe(c, x, v, "operand of ~");
            x = r;
        } else if (op == 1) {
            c.label("notSelf");
            c.stage("notSelf()");
            e = -v - 1;
            BigInteger & r = x.notSelf();
            c.check(&r == &x, "notSelf() must return its object");
        } else {
            c.label("notBits");
            c.stage("notBits()");
            Z m = abs(v);
            e = v == 0 ? Z(0) : Z(pow2(bitlen(m)) - 1 - m);
            BigInteger & r = x.notBits();
            c.check(&r == &x, "notBits() must return its object");
            if (v < 0) e = -e;
        }
        observe(c, x, e, "result of a complement");
        if (words(v) >= 2) c.nontrivial();
        // the result is an ordinary value
        Z d = genZ(c, SMALL);
        x += fromZ(d);
        observe(c, x, e + d, "complement plus a number");
        observe(c, copy, v, "copy taken before the complement");
        observeKeep(c, k);
        return;
    }
    Operands o;
    if (massive) makeForm(c, o, c.chance(1, 4) ? MEDIUM : MASSIVE, c.chance(1, 4) ? MEDIUM : MASSIVE, false);
    else makeForm(c, o, c.chance(1, 8) ? LARGE : MEDIUM, c.chance(1, 8) ? LARGE : MEDIUM, false);
    if ((o.form == FORM_BB || o.form == FORM_ASSIGN_B) && c.chance(1, 4)) {  // zero low words
        unsigned long s = 32 * c.draw(6);
        o.a <<= s;
        if (c.chance(1, 2)) o.b <<= 32 * c.draw(6);
        o.A = build(c, o.a, o.keep, &o.ra);
        o.B = build(c, o.b, o.keep, &o.rb);
        c.label("low words zero");
        if (c.verbose) c.note("replaced by\na = " + zs(o.a) + "\nb = " + zs(o.b));
    }
    if ((o.a < 0 && words(o.a) >= 2) || (o.b < 0 && words(o.b) >= 2)) c.nontrivial();
    if (o.a < 0 && o.b < 0) c.label("both negative");
    else if (o.a < 0 || o.b < 0) c.label("one negative");
    Z e;
    BigInteger r;
    switch (c.draw(2)) {
    case 0: e = o.a & o.b; r = apply(c, o, BIN_FORMS(&), e, "a & b"); c.label("and"); break;
    case 1: e = o.a | o.b; r = apply(c, o, BIN_FORMS(|), e, "a | b"); c.label("or"); break;
    default: e = o.a ^ o.b; r = apply(c, o, BIN_FORMS(^), e, "a ^ b"); c.label("xor"); break;
    }
    observe(c, r, e, "result of a bitwise operator");
    operandsUnchanged(c, o);
    Z d = genZ(c, SMALL);
    r += fromZ(d);
    observe(c, r, e + d, "bitwise result plus a number");
}

// ------------------------------------------------------------------ C05
PBT_PROPERTY("C05", prop_shift,
    "A case builds a value, shifts it left or right (by operator, compound operator, or compound operator on a shared copy) by an amount that is small, a multiple of 32 plus or minus one, at or around the "
    "length of the value, or far beyond it, and compares with x*2^n and floor(x/2^n); x must be unchanged and the result usable. "
    "Non-trivial: the value is non-zero and the shift amount positive.",
    1500000, 15000000) {
    Keep k;
    const bool massive = c.chance(1, 4000);  // a value beyond 1000 words, or a left shift that makes one beyond 2^20 or 2^24 bits
    if (massive) { c.massive(); c.label("massive"); }
    Z v = genZ(c, massive && c.chance(1, 2) ? MASSIVE : c.chance(1, 8) ? LARGE : MEDIUM);
    if (!massive && c.chance(1, 5)) v = c.chance(1, 2) ? Z(-pow2(c.draw(200)) + (long)c.range(-1, 1)) : Z(-(pow2(32 * (1 + c.draw(4))) - pow2(c.draw(31))));
    uint64_t n;
    uint64_t len = bitlen(v);
    bool left = c.chance(1, 2);
    switch (c.weighted({3, 4, 4, 2, massive ? 20 : 1})) {
    case 0: n = c.draw(70); break;
    case 1: n = 32 * c.draw(c.chance(1, 20) ? 400 : 8) + c.draw(2); if (n) --n; break;
    case 2: n = len + c.draw(4) >= 2 ? len + c.draw(4) - 2 : 0; if (n > len + 64) n = 0; break;
    case 3: n = 32 * words(v) + c.draw(66); break;
    default:
        if (left && massive) n = (1ull << c.range(16, c.chance(1, 6) ? 27 : 22)) + c.draw(200) - 100;
        else if (left) n = c.draw(c.chance(1, 60) ? 600000 : 20000);
        else if (c.chance(1, 3)) n = (uint64_t)INT64_MAX - c.draw(40);
        else if (c.chance(1, 2)) n = (1ull << c.range(12, 62)) + c.draw(70);  // nothing of a large amount may be cut off
        else n = c.bits(40);
        break;
    }
    if (left && n > 20000) c.heavy();
    std::string route;
    if (c.verbose) c.note(std::string(left ? "<< " : ">> ") + std::to_string(n) + " of " + zs(v));
    BigInteger x = build(c, v, k, &route);
    BigInteger copy = x;
    if (v != 0 && n != 0) c.nontrivial();
    if (v < 0 && !left) c.label("right shift of a negative");
    if (!left && n >= len) c.label("everything shifted out");
    Z e;
    if (left) { mpz_mul_2exp(e.get_mpz_t(), v.get_mpz_t(), n); }
    else if (n > len + 100) e = v < 0 ? -1 : 0;
    else mpz_fdiv_q_2exp(e.get_mpz_t(), v.get_mpz_t(), n);
    const char * what = left ? "x << n" : "x >> n";
    c.stage(what);
    BigInteger r;
    switch (c.draw(3)) {
    case 0: r = left ? x << (int64_t)n : x >> (int64_t)n; c.label("operator"); break;
    case 1: { r = x; BigInteger & q = left ? (r <<= n) : (r >>= n); c.check(&q == &r, "a compound shift must return its object"); c.label("compound, shared"); break; }
    case 2: { r = fromZ(v); if (left) r <<= n; else r >>= n; c.label("compound, own storage"); break; }
    default: {  // a longer value was there before
        r = fromZ((v << 96) + 7);
        r >>= 96;
        if (left) r <<= n; else r >>= n;
        c.label("compound, after an earlier shift");
        break;
    }
    }
    observe(c, r, e, what);
    observe(c, x, v, "shifted operand afterwards");
    observe(c, copy, v, "copy of the shifted operand");
    observeKeep(c, k);
    // round trips and further use
    if (left) {
        BigInteger s = r;
        s >>= n;
        observe(c, s, v, "(x << n) >> n");
        observe(c, r, e, "x << n after a copy was shifted back");
    }
    Z d = genZ(c, SMALL);
    r += fromZ(d);
    observe(c, r, e + d, "shifted value plus a number");
}

// ------------------------------------------------------------------ C06
PBT_PROPERTY("C06", prop_cmp,
    "A case builds three values, often equal, adjacent, of opposite sign, or differing in one word only, each through its own construction route, and compares every ordered pair (and each with an int64) by "
    "==, !=, <, <=, >, >= and cmp in both directions against GMP's order; equal values must agree whatever their route. Non-trivial: a pair of equal values from different routes, or values "
    "of at least two words that differ in one bit or by one.",
    900000, 10000000) {
    Keep k;
    Z v[3];
    const bool massive = c.chance(1, 4000);
    if (massive) c.label("beyond 1000 words");
    v[0] = genZ(c, massive ? MASSIVE : c.chance(1, 8) ? LARGE : MEDIUM);
    bool close = false;
    for (int i = 1; i < 3; ++i) {
        switch (c.weighted({3, 3, 2, 3, 3})) {
        case 0: v[i] = v[i - 1]; close = true; break;
        case 1: v[i] = v[i - 1] + (long)c.range(-1, 1); close = words(v[i]) >= 2; break;
        case 2: v[i] = -v[i - 1]; break;
        case 3: {
            v[i] = v[i - 1];
            Z m = abs(v[i]);
            mpz_combit(m.get_mpz_t(), c.draw(bitlen(m) + 32));
            v[i] = v[i] < 0 ? Z(-m) : m;
            close = words(v[i]) >= 2;
            break;
        }
        default: v[i] = genZ(c, MEDIUM); break;
        }
    }
    std::string route[3];
    std::vector<BigInteger> b;
    for (int i = 0; i < 3; ++i) {
        if (c.verbose) c.note("v" + std::to_string(i) + " = " + zs(v[i]));
        b.push_back(build(c, v[i], k, &route[i]));
    }
    if (close) c.nontrivial();
    auto one = [&](const BigInteger & x, const BigInteger & y, int s, const std::string & what) {
        c.stage("comparing");
        int g = x.cmp(y);
        c.checkf(g == s, [&] { return what + ": cmp is " + std::to_string(g) + ", expected " + std::to_string(s); });
        bool ok = (x == y) == (s == 0) && (x != y) == (s != 0) && (x < y) == (s < 0) && (x <= y) == (s <= 0) && (x > y) == (s > 0) && (x >= y) == (s >= 0);
        c.checkf(ok, [&] { return what + ": an operator disagrees with the order (expected sign " + std::to_string(s) + ")"; });
    };
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            int s = sgn(Z(v[i] - v[j]));
            one(b[i], b[j], s, "v" + std::to_string(i) + " (" + route[i] + ") against v" + std::to_string(j) + " (" + route[j] + ")");
        }
    for (int i = 0; i < 3; ++i) {
        int64_t n = fitsI64(v[i]) && c.chance(2, 3) ? toI64(v[i]) : genI64(c);
        if (c.chance(1, 4) && n != INT64_MAX) ++n;
        int s = sgn(Z(v[i] - z64(n)));
        const BigInteger & x = b[i];
        c.stage("comparing with an int64");
        std::string what = "v" + std::to_string(i) + " (" + route[i] + ") against the int64 " + std::to_string(n);
        int g = x.cmp(n);
        c.checkf(g == s, [&] { return what + ": cmp is " + std::to_string(g) + ", expected " + std::to_string(s); });
        bool ok = (x == n) == (s == 0) && (x != n) == (s != 0) && (x < n) == (s < 0) && (x <= n) == (s <= 0) && (x > n) == (s > 0) && (x >= n) == (s >= 0);
        bool ko = (n == x) == (s == 0) && (n != x) == (s != 0) && (n < x) == (s > 0) && (n <= x) == (s >= 0) && (n > x) == (s < 0) && (n >= x) == (s <= 0);
        c.checkf(ok && ko, [&] { return what + ": an operator disagrees with the order (expected sign " + std::to_string(s) + ")"; });
    }
    for (int i = 0; i < 3; ++i) observe(c, b[i], v[i], "a compared value afterwards");
    observeKeep(c, k);
}
