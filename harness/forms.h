// The forms in which a binary operator can be applied, and the operands for them.
#pragma once
#include "num.h"

namespace num {

// the ways to apply a binary operator; v gets what the form must leave in the result
enum { FORM_BB, FORM_BI, FORM_IB, FORM_ASSIGN_B, FORM_ASSIGN_I, FORM_SELF, FORM_SHARED, FORM_PROVIDED };

struct Operands {
    Keep keep;
    Z a, b;
    BigInteger A, B;
    int64_t i = 0;
    std::string ra, rb;
    int form = FORM_BB;
};

inline void makeForm(Case & c, Operands & o, Size sa, Size sb, bool nonzeroB) {
    o.form = (int)c.weighted({5, 2, 2, 4, 2, 1, 1});
    o.a = genZ(c, sa);
    o.b = genZ(c, sb);
    if (c.chance(1, 8)) o.b = o.a + (long)c.range(-1, 1);
    if (c.chance(1, 16)) o.b = -o.a + (long)c.range(-1, 1);
    if (sa == MASSIVE && sb == MASSIVE && c.chance(1, 2)) { o.b = c.chance(1, 2) ? o.a : Z(-o.a); mpz_combit(o.b.get_mpz_t(), c.draw(bitlen(o.b))); }
    if (o.form == FORM_BI || o.form == FORM_ASSIGN_I) { o.i = genI64(c); if (nonzeroB && o.i == 0) o.i = 1; o.b = z64(o.i); }
    if (o.form == FORM_IB) { o.i = genI64(c); o.a = z64(o.i); }
    if (o.form == FORM_SELF || o.form == FORM_SHARED) { if (nonzeroB && o.a == 0) o.a = 1; o.b = o.a; }
    if (nonzeroB && o.b == 0) o.b = 1;
    if (c.verbose) c.note("form " + std::to_string(o.form) + "\na = " + zs(o.a) + "\nb = " + zs(o.b));
    o.A = build(c, o.a, o.keep, &o.ra);
    if (o.form == FORM_SHARED) { o.B = o.A; o.rb = "copy of a"; }
    else o.B = build(c, o.b, o.keep, &o.rb);
    if (c.verbose) c.note("operands built by: " + o.ra + ", " + o.rb);
    c.label(words(o.a) >= 2 ? "a: several words" : "a: at most one word");
}

template <typename Bin, typename Asg, typename AsgI, typename BI, typename IB>
BigInteger apply(Case & c, Operands & o, Bin bin, Asg asg, AsgI asgi, BI bi, IB ib, const Z & expect, const char * what) {
    c.stage(what);
    switch (o.form) {
    case FORM_BI: return bi(o.A, o.i);
    case FORM_IB: return ib(o.i, o.B);
    case FORM_ASSIGN_B: case FORM_SHARED: {
        BigInteger r = o.A;
        bool alone = c.chance(1, 2);
        if (alone) { BigInteger t = fromZ(o.a); r = t; t = fromZ(0); }
        BigInteger & ret = asg(r, o.B);
        c.check(&ret == &r, std::string(what) + ": the compound assignment does not return its left operand");
        if (o.form == FORM_SHARED) { BigInteger q = o.A; asg(o.A, o.B); observe(c, o.A, expect, what); o.A = q; }
        return r;
    }
    case FORM_ASSIGN_I: { BigInteger r = o.A; asgi(r, o.i); return r; }
    case FORM_SELF: { BigInteger r = o.A; asg(r, r); return r; }
    default: return bin(o.A, o.B);
    }
}

#define BIN_FORMS(op) \
    [](const BigInteger & x, const BigInteger & y) { return x op y; }, \
    [](BigInteger & x, const BigInteger & y) -> BigInteger & { return x op##= y; }, \
    [](BigInteger & x, int64_t y) -> BigInteger & { return x op##= y; }, \
    [](const BigInteger & x, int64_t y) { return x op y; }, \
    [](int64_t x, const BigInteger & y) { return x op y; }

inline void operandsUnchanged(Case & c, Operands & o) {
    observe(c, o.A, o.a, "left operand afterwards");
    observe(c, o.B, o.b, "right operand afterwards");
    observeKeep(c, o.keep);
}

}  // namespace num
