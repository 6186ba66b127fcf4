#include "forms.h"
using namespace num;

// ------------------------------------------------------------------ C01
PBT_PROPERTY("C01", prop_addsub,
    "A case builds two operands (0 to ~640 words, int64 boundaries, 2^k+d, words of 0/ff../80.., equal or opposite values) through 18 "
    "construction routes (parsed, binary, computed, shared, over old storage, ...), applies + or - in one of 7 operand forms (big/big, big/int64, int64/big, "
    "compound, aliased, shared copy) or ++/--/negation/absolute value, and compares every observation with GMP; operands and values sharing storage must be unchanged. "
    "Non-trivial: both operands non-zero and the larger has at least two 32-bit words, or a unary step at a word boundary.",
    2000000, 20000000) {
    const bool massive = c.chance(1, 4000);
    if (massive) c.label("beyond 1000 words");
    if (c.chance(1, 5)) {
        Keep k;
        Z v = massive ? genMassive(c) : c.chance(1, 2) ? Z(pow2(32 * c.draw(12)) + (long)c.range(-2, 2)) : genMag(c, MEDIUM);
        if (c.chance(1, 2)) v = -v;
        std::string route;
        BigInteger x = build(c, v, k, &route);
        int op = (int)c.draw(9);
        if (c.verbose) c.note("unary " + std::to_string(op) + " on " + zs(v) + " (" + route + ")");
        BigInteger copy = x;
        Z e = v;
        static const char * names[] = {"++x", "x++", "--x", "x--", "-x", "+x", "negated()", "absoluted()", "negate()", "abs()"};
        c.stage(names[op]);
        switch (op) {
        case 0: e = v + 1; { BigInteger & r = ++x; c.check(&r == &x, "++x must return x"); } break;
        case 1: e = v + 1; { BigInteger r = x++; observe(c, r, v, "value of x++"); } break;
        case 2: e = v - 1; { BigInteger & r = --x; c.check(&r == &x, "--x must return x"); } break;
        case 3: e = v - 1; { BigInteger r = x--; observe(c, r, v, "value of x--"); } break;
        case 4: { BigInteger r = -x; observe(c, r, -v, "-x"); } break;
        case 5: { BigInteger r = +x; observe(c, r, v, "+x"); } break;
        case 6: { BigInteger r = x.negated(); observe(c, r, -v, "negated()"); } break;
        case 7: { BigInteger r = x.absoluted(); observe(c, r, abs(v), "absoluted()"); } break;
        case 8: e = -v; { BigInteger & r = x.negate(); c.check(&r == &x, "negate() must return x"); } break;
        default: e = abs(v); { BigInteger & r = x.abs(); c.check(&r == &x, "abs() must return x"); } break;
        }
        observe(c, x, e, names[op]);
        observe(c, copy, v, "copy taken before the unary operation");
        observeKeep(c, k);
        c.label("unary");
        if (words(v) >= 1 && v != 0) c.nontrivial();
        return;
    }
    Operands o;
    bool big = c.chance(1, 12);
    if (massive) makeForm(c, o, big ? MEDIUM : MASSIVE, c.chance(1, 3) ? MEDIUM : MASSIVE, false);
    else makeForm(c, o, big ? HUGE_ : MEDIUM, big ? HUGE_ : MEDIUM, false);
    if (o.a != 0 && o.b != 0 && std::max(words(o.a), words(o.b)) >= 2) c.nontrivial();
    if (c.chance(1, 2)) {
        Z e = o.a + o.b;
        BigInteger r = apply(c, o, BIN_FORMS(+), e, "a + b");
        observe(c, r, e, "a + b");
        c.label("add");
        if (words(e) > std::max(words(o.a), words(o.b))) c.label("carry into a new word");
    } else {
        Z e = o.a - o.b;
        BigInteger r = apply(c, o, BIN_FORMS(-), e, "a - b");
        observe(c, r, e, "a - b");
        c.label("sub");
    }
    if (sgn(o.a) * sgn(o.b) < 0) c.label("mixed signs");
    Z s = o.a + o.b, d = o.a - o.b;
    if (std::min(words(s), words(d)) + 1 < words(o.a)) c.label("cancellation of words");
    operandsUnchanged(c, o);
}

// ------------------------------------------------------------------ C02
PBT_PROPERTY("C02", prop_mul,
    "A case builds two operands, biased towards sizes around and above 80 words (where the algorithm changes), unbalanced lengths, and words of 0/ff../80.., "
    "multiplies them in one of 7 operand forms and compares with GMP; the operands must be unchanged. Non-trivial: both factors have at least two words.",
    400000, 5000000) {
    if (c.chance(1, 8)) {  // the implementation's three-operand form, into an object that was in use
        bool big = c.chance(1, 3);
        Z a = big ? genMagWords(c, 70 + c.draw(60)) : genZ(c, MEDIUM), b = big ? genMagWords(c, 70 + c.draw(60)) : genZ(c, MEDIUM), old = genZ(c, SMALL);
        if (c.chance(1, 2)) old <<= 32 * c.draw(3);
        if (big && c.chance(1, 2)) a = -a;
        if (big && c.chance(1, 2)) b = -b;
        if (c.verbose) c.note("BigIntegerImpl::mul\na = " + zs(a) + "\nb = " + zs(b) + "\nthe result object held " + zs(old));
        pgbn::BigIntegerImpl A = usedImpl(c, a), B = usedImpl(c, b), R = usedImpl(c, old);
        pgbn::BigIntegerImpl share = c.chance(1, 2) ? R : A;
        const bool shareR = share.cmp(R) == 0;
        c.stage("BigIntegerImpl::mul");
        pgbn::BigIntegerImpl::mul(R, A, B);
        observeImpl(c, R, a * b, "BigIntegerImpl::mul");
        observeImpl(c, A, a, "first factor afterwards");
        observeImpl(c, B, b, "second factor afterwards");
        observeImpl(c, share, shareR ? old : a, "a copy taken before");
        R.subAssign(implOf(old));
        observeImpl(c, R, a * b - old, "the product, used further");
        if (words(a) >= 2 && words(b) >= 2) c.nontrivial();
        c.label("implementation object");
        return;
    }
    Operands o;
    const bool massive = c.chance(1, 3000);  // one factor beyond 1000 words, the other with a few
    size_t cls = massive ? 0 : c.weighted({5, 4, 3, 2});
    Size sa = MEDIUM, sb = MEDIUM;
    if (massive) { (c.chance(1, 2) ? sa : sb) = MASSIVE; (sa == MASSIVE ? sb : sa) = SMALL; c.label("beyond 1000 words"); }
    if (cls == 1) sa = sb = HUGE_;
    if (cls == 2) sa = HUGE_;
    makeForm(c, o, sa, sb, false);
    if (massive && words(o.a) > 2000 && words(o.b) > 2000) return;  // squares of such values take too long
    if (cls == 3 && o.form != FORM_BI && o.form != FORM_ASSIGN_I && o.form != FORM_IB && o.form != FORM_SELF && o.form != FORM_SHARED) {
        // both just large, possibly very unbalanced: the recursive split sees empty and partial halves
        size_t na = 78 + c.draw(90), nb = 78 + c.draw(c.chance(1, 3) ? 600 : 90);
        o.a = genMagWords(c, na);
        o.b = genMagWords(c, nb);
        if (c.chance(1, 3)) o.b = (o.b >> (32 * (nb / 2))) << (32 * (nb / 2));  // empty low half
        if (c.chance(1, 2)) o.a = -o.a;
        if (c.chance(1, 2)) o.b = -o.b;
        o.A = build(c, o.a, o.keep, &o.ra);
        o.B = build(c, o.b, o.keep, &o.rb);
        if (c.verbose) c.note("replaced by\na = " + zs(o.a) + "\nb = " + zs(o.b));
    }
    size_t wa = words(o.a), wb = words(o.b);
    if (wa >= 2 && wb >= 2) c.nontrivial();
    if (wa >= 80 && wb >= 80) c.label("both at least 80 words");
    if (wa >= 160 && wb >= 160) c.label("both at least 160 words (nested split)");
    if ((wa >= 80 && wb >= 80) && (wa >= 2 * wb || wb >= 2 * wa)) c.label("large and unbalanced");
    Z e = o.a * o.b;
    BigInteger r = apply(c, o, BIN_FORMS(*), e, "a * b");
    observe(c, r, e, "a * b");
    operandsUnchanged(c, o);
    // the result is an ordinary value: it can be used and changed further
    Z d = genZ(c, SMALL);
    r += fromZ(d);
    observe(c, r, e + d, "(a * b) + d");
}

// ------------------------------------------------------------------ C03
namespace {
// dividend and divisor that exercise the trial-digit corrections
void genDivision(Case & c, Z & a, Z & b, bool & special) {
    special = true;
    switch (c.weighted({4, 3, 4})) {
    case 0: {  // a = q*b + r with extreme quotient words and remainders near 0 or b
        b = genMagWords(c, 2 + c.draw(4));
        Z q = genMagWords(c, 1 + c.draw(5));
        Z r;
        switch (c.draw(4)) {
        case 0: r = 0; break;
        case 1: r = b - 1; break;
        case 2: r = 1; break;
        case 3: r = b / 2; break;
        default: r = genMagWords(c, c.draw(5)) % b; break;
        }
        if (r < 0) r = 0;
        a = q * b + r;
        break;
    }
    case 1: {  // the leading words of the dividend equal those of the divisor
        size_t n = 2 + c.draw(4), m = 1 + c.draw(5);
        std::vector<uint32_t> d(n), u(n + m);
        for (auto & x : d) x = genWord(c);
        if (!d[n - 1]) d[n - 1] = 0x80000000u;
        if (c.chance(1, 2)) d[n - 1] |= 0x80000000u;
        for (auto & x : u) x = genWord(c);
        size_t k = 1 + c.draw(n - 1);
        for (size_t i = 0; i < k; ++i) u[n + m - 1 - i] = d[n - 1 - i];
        if (c.chance(1, 2) && k < n) u[n + m - 1 - k] = d[n - 1 - k] - 1;
        a = fromWords(u);
        b = fromWords(d);
        unsigned long s = c.draw(31);
        if (c.chance(1, 2)) { a >>= s; b >>= s; if (b == 0) b = 1; }
        break;
    }
    default: special = false; return;
    }
    if (c.chance(1, 2)) a = -a;
    if (c.chance(1, 2)) b = -b;
    if (b == 0) b = 1;
}
}  // namespace

PBT_PROPERTY("C03", prop_div,
    "A case builds dividend and non-zero divisor (general values, or constructed as q*b+r with extreme quotient words and remainders, or with equal leading words so that "
    "quotient-digit estimates need correction), computes a/b and a%b in one of 7 operand forms and compares with GMP's truncated division and with a == (a/b)*b + a%b. "
    "Non-trivial: the divisor has at least two words and |a| >= |b|.",
    1200000, 15000000) {
    if (c.chance(1, 8)) {  // quotient and remainder at once, into objects that were in use
        Z a, b, oldQ = genZ(c, SMALL), oldR = genZ(c, SMALL);
        bool special;
        genDivision(c, a, b, special);
        if (!special) { a = genZ(c, MEDIUM); b = genZ(c, MEDIUM); if (b == 0) b = -3; }
        if (c.chance(1, 2)) oldQ <<= 32 * c.draw(3);
        if (c.chance(1, 2)) oldR <<= 32 * c.draw(3);
        const int how = (int)c.draw(5);
        int64_t i = genI64(c);
        if (i == 0) i = 7;
        if (how >= 3) b = z64(i);
        static const char * const N[] = {"div(q, r, a, b)", "divideAssignAndReminder", "modAssignAndQuotient", "div(q, r, a, int64)", "divideAssignAndReminder(int64)", "modAssignAndQuotient(int64)"};
        if (c.verbose) c.note(std::string(N[how]) + "\na = " + zs(a) + "\nb = " + zs(b) + "\nthe result objects held " + zs(oldQ) + " and " + zs(oldR));
        Z q, r;
        mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), a.get_mpz_t(), b.get_mpz_t());
        pgbn::BigIntegerImpl A = usedImpl(c, a), B = usedImpl(c, b), Q = usedImpl(c, oldQ), R = usedImpl(c, oldR);
        pgbn::BigIntegerImpl shareA = A, shareQ = Q, shareR = R;
        c.stage(N[how]);
        switch (how) {
        case 0: pgbn::BigIntegerImpl::div(Q, R, A, B); break;
        case 1: A.divideAssignAndReminder(B, R); Q = A; break;
        case 2: A.modAssignAndQuotient(B, Q); R = A; break;
        case 3: pgbn::BigIntegerImpl::div(Q, R, A, i); break;
        case 4: A.divideAssignAndReminder(i, R); Q = A; break;
        default: A.modAssignAndQuotient(i, Q); R = A; break;
        }
        observeImpl(c, Q, q, "quotient");
        observeImpl(c, R, r, "remainder");
        if (how == 0 || how == 3) observeImpl(c, A, a, "dividend afterwards");
        observeImpl(c, B, b, "divisor afterwards");
        observeImpl(c, shareA, a, "a copy of the dividend");
        observeImpl(c, shareQ, oldQ, "a copy of the quotient's old value");
        observeImpl(c, shareR, oldR, "a copy of the remainder's old value");
        if (words(b) >= 2 && abs(a) >= abs(b)) c.nontrivial();
        c.label("implementation object");
        return;
    }
    Operands o;
    const bool massive = c.chance(1, 3000);  // one operand beyond 1000 words, and a quotient or a divisor with a few; or both
    if (massive) {
        c.label("beyond 1000 words");
        makeForm(c, o, MASSIVE, SMALL, true);
        if ((o.form == FORM_BB || o.form == FORM_ASSIGN_B) && c.chance(1, 2)) {
            o.b = (o.a >> c.draw(1000)) + (long)c.range(-2, 2);
            if (c.chance(1, 2)) o.b = -o.b;
            o.B = build(c, o.b, o.keep, &o.rb);
        }
    } else makeForm(c, o, c.chance(1, 10) ? HUGE_ : MEDIUM, c.chance(1, 10) ? LARGE : MEDIUM, true);
    bool special = false;
    if (!massive && (o.form == FORM_BB || o.form == FORM_ASSIGN_B)) {
        Z a, b;
        genDivision(c, a, b, special);
        if (special) {
            o.a = a;
            o.b = b;
            o.A = build(c, a, o.keep, &o.ra);
            o.B = build(c, b, o.keep, &o.rb);
            c.label("constructed for digit correction");
            if (c.verbose) c.note("replaced by\na = " + zs(a) + " (" + o.ra + ")\nb = " + zs(b) + " (" + o.rb + ")");
        }
    }
    if (words(o.b) >= 2 && abs(o.a) >= abs(o.b)) c.nontrivial();
    if (words(o.b) == 1) c.label("one-word divisor");
    if (sgn(o.a) < 0 || sgn(o.b) < 0) c.label("a negative operand");
    Z q, r;
    mpz_tdiv_qr(q.get_mpz_t(), r.get_mpz_t(), o.a.get_mpz_t(), o.b.get_mpz_t());
    BigInteger Q = apply(c, o, BIN_FORMS(/), q, "a / b");
    observe(c, Q, q, "a / b");
    BigInteger R = apply(c, o, BIN_FORMS(%), r, "a % b");
    observe(c, R, r, "a % b");
    operandsUnchanged(c, o);
    // the results are ordinary values
    BigInteger S = Q;
    S *= o.B;
    S += R;
    observe(c, S, o.a, "(a / b) * b + a % b");
    Q += 1;
    observe(c, Q, q + 1, "(a / b) + 1");
    Z d = genZ(c, SMALL);
    R |= fromZ(d);
    observe(c, R, r | d, "(a % b) | d");
}
