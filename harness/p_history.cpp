// Histories over a pool of values: value semantics with shared (copy-on-write) storage.
#include <map>
#include <optional>
#include "num.h"
using namespace num;

namespace {
constexpr size_t LIMIT = 24 * 32;   // bits a value may have before it is cut down
constexpr size_t HARD = 90 * 32;

struct Pool {
    Case & c;
    std::vector<BigInteger> x;
    std::vector<Z> v;
    std::vector<int> group;   // slots with the same number got their storage by copying one another
    int nextGroup = 0;
    size_t shareMut = 0, writes = 0;
    explicit Pool(Case & c, size_t n) : c(c), x(n), v(n), group(n) { for (auto & g : group) g = nextGroup++; }
    bool shared(size_t i) const { for (size_t j = 0; j < group.size(); ++j) if (j != i && group[j] == group[i]) return true; return false; }
    void wrote(size_t i) { ++writes; if (shared(i)) { ++shareMut; group[i] = nextGroup++; } }
    void copied(size_t d, size_t s) { if (d != s) group[d] = group[s]; }
    void all(bool full, const char * what) { for (size_t i = 0; i < x.size(); ++i) observe(c, x[i], v[i], what, full); }
};
std::string nm(size_t i) { return "x" + std::to_string(i); }

// the same at the level of the implementation class, whose swap, moves and static operations BigInteger does not go through
void implHistory(Case & c) {
    using pgbn::BigIntegerImpl;
    size_t n = 3 + (c.chance(1, 80) ? c.draw(70) : c.draw(2));
    std::vector<BigIntegerImpl> x(n);
    std::vector<Z> v(n);
    auto slot = [&] { return (size_t)c.draw(n - 1); };
    size_t steps = 1 + c.draw(c.chance(1, 300) ? 1500 : c.chance(1, 3) ? 40 : 12), writes = 0;
    if (steps > 100) c.heavy();
    std::string log;
    for (size_t st = 0; st < steps; ++st) {
        size_t d = slot(), s = slot();
        BigIntegerImpl & D = x[d];
        Z & V = v[d];
        std::string what;
        auto begin = [&](const std::string & t) { what = "impl: " + t; c.stage(what); if (c.verbose) log += "  " + what + "\n"; };
        switch (c.weighted({5, 3, 4, 6, 6, 5, 6, 4, 3, 3})) {
        case 0:
            begin(nm(d) + " = " + nm(s));
            switch (c.draw(2)) { case 0: D = x[s]; break; case 1: D.assign(x[s]); break; default: { BigIntegerImpl t(x[s]); D = std::move(t); } }
            V = Z(v[s]);
            break;
        case 1:
            begin(nm(d) + " = move(" + nm(s) + "), then " + nm(s) + " gets a new value");
            if (s == d) break;
            if (c.chance(1, 2)) D = std::move(x[s]); else { BigIntegerImpl t(std::move(x[s])); D.assign(std::move(t)); }
            V = v[s];
            { int64_t i = genI64(c); if (c.chance(1, 2)) x[s].assign(i); else x[s] = BigIntegerImpl(i); v[s] = z64(i); }
            break;
        case 2: {
            begin("swap(" + nm(d) + ", " + nm(s) + ")");
            using std::swap;
            if (c.chance(1, 2)) D.swap(x[s]); else swap(D, x[s]);
            std::swap(V, v[s]);
            break;
        }
        case 3: {
            Z z = genZ(c, SMALL);
            if (c.chance(1, 2)) z <<= 32 * c.draw(4);
            begin(nm(d) + " = " + zs(z));
            if (c.chance(1, 3)) { BigIntegerImpl t = implOfSlice(c, z); if (c.chance(1, 2)) D = std::move(t); else { BigIntegerImpl u(t); D.swap(u); observeImpl(c, t, z, "built from words"); } }
            else if (c.chance(1, 2)) { std::string b = twosLE(z, minTwosLen(z) + c.draw(3)); D.assign(b.data(), b.size(), true); }
            else { bool ok = false; D.fromString(z.get_str(), 10, &ok); c.check(ok, what + ": rejected"); }
            V = z;
            break;
        }
        case 4: {
            begin("read a word of " + nm(d));
            size_t i = c.draw(4);
            Z t; mpz_fdiv_q_2exp(t.get_mpz_t(), V.get_mpz_t(), 32 * i); mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 32);
            c.check(D.getU32(i) == (uint32_t)t.get_ui(), what + ": wrong word " + std::to_string(i) + " of " + zs(V));
            break;
        }
        case 5: {
            int o = (int)c.draw(7);
            static const char * nmo[] = {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="};
            if ((o == 3 || o == 4) && v[s] == 0) o -= 3;
            if (o == 2 && bitlen(V) + bitlen(v[s]) > LIMIT) o = 1;
            begin(nm(d) + " " + nmo[o] + " " + nm(s));
            Z sv = v[s];
            switch (o) {
            case 0: D.addAssign(x[s]); V += sv; break;
            case 1: D.subAssign(x[s]); V -= sv; break;
            case 2: D.mulAssign(x[s]); V *= sv; break;
            case 3: D.divAssign(x[s]); V /= sv; break;
            case 4: { BigIntegerImpl q; D.modAssignAndQuotient(x[s], q); observeImpl(c, q, V / sv, "quotient"); V %= sv; break; }
            case 5: D.andAssign(x[s]); V &= sv; break;
            case 6: D.orAssign(x[s]); V |= sv; break;
            default: D.xorAssign(x[s]); V ^= sv; break;
            }
            ++writes;
            break;
        }
        case 6: {
            int o = (int)c.draw(8);
            static const char * nmo[] = {"inc", "dec", "negate", "abs", "notSelf", "<<", ">>", "+= i64", "&= i64"};
            begin(std::string(nmo[o]) + " " + nm(d));
            unsigned long k = c.chance(1, 2) ? 32 * c.draw(3) : c.draw(70);
            int64_t i = genI64(c);
            if (o == 5 && bitlen(V) > LIMIT) o = 6;
            switch (o) {
            case 0: D.inc(); V += 1; break;
            case 1: D.dec(); V -= 1; break;
            case 2: D.negate(); V = -V; break;
            case 3: D.abs(); V = abs(V); break;
            case 4: D.notSelf(); V = ~V; break;
            case 5: D.shiftLeftAssign(k); V <<= k; break;
            case 6: D.shiftRightAssign(k); mpz_fdiv_q_2exp(V.get_mpz_t(), V.get_mpz_t(), k); break;
            case 7: D.addAssign(i); V += z64(i); break;
            default: D.andAssign(i); V &= z64(i); break;
            }
            ++writes;
            break;
        }
        case 7: {  // the static product and division, into values that are in use
            size_t a = slot(), r = slot();
            if (c.chance(1, 2)) {
                if (a == d || s == d || bitlen(v[a]) + bitlen(v[s]) > LIMIT) break;
                begin("mul(" + nm(d) + ", " + nm(a) + ", " + nm(s) + ")");
                BigIntegerImpl::mul(D, x[a], x[s]);
                V = v[a] * v[s];
            } else {
                if (d == r || d == a || d == s || r == a || r == s || v[s] == 0) break;
                begin("div(" + nm(d) + ", " + nm(r) + ", " + nm(a) + ", " + nm(s) + ")");
                BigIntegerImpl::div(D, x[r], x[a], x[s]);
                V = v[a] / v[s];
                v[r] = v[a] % v[s];
            }
            ++writes;
            break;
        }
        case 8: {
            begin("compare " + nm(d) + " with " + nm(s));
            int e = cmp(V, v[s]), g = D.cmp(x[s]);
            c.check(g == (e < 0 ? -1 : e > 0), what + ": gives " + std::to_string(g));
            break;
        }
        default: {
            begin("text of " + nm(d));
            int radix = (int)c.range(2, 36);
            std::string t = D.toString(radix);
            c.check(t == V.get_str(radix), what + " in radix " + std::to_string(radix) + " is " + t.substr(0, 80));
        }
        }
        observeImpl(c, D, V, what.c_str());
        if (bitlen(V) > LIMIT) { D.shiftRightAssign(bitlen(V) - LIMIT / 3); mpz_fdiv_q_2exp(V.get_mpz_t(), V.get_mpz_t(), bitlen(V) - LIMIT / 3); }
    }
    if (c.verbose) c.note("history:\n" + log);
    for (size_t i = 0; i < n; ++i) {
        observeImpl(c, x[i], v[i], "impl: final value");
        for (size_t w = 0; w < 4; ++w) {
            Z t; mpz_fdiv_q_2exp(t.get_mpz_t(), v[i].get_mpz_t(), 32 * w); mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 32);
            c.check(x[i].getU32(w) == (uint32_t)t.get_ui(), "impl: wrong word " + std::to_string(w) + " of final value " + zs(v[i]));
        }
    }
    c.label("history of implementation objects");
    if (writes >= 3) c.nontrivial();
}
}

PBT_PROPERTY("C12", prop_history,
    "A case is a history of 1 to ~70 (rarely 1500) operations over 3 to 6 (rarely 140) named values: copying, moving, self-assignment, swapping, copies passed through functions and vectors, in-place and "
    "value-returning arithmetic, bit operations and shifts (also with both operands the same object or copies of it), increments, sign changes, assignments from integers, text (valid and invalid) "
    "and bytes, and const queries that fill caches. A map from names to GMP integers is the reference; after every operation the touched values, and regularly all values, are compared with it. "
    "One case in five is such a history over objects of the implementation class (member and free swap, moves, static mul and div into used objects, cached words). "
    "Non-trivial: at least two in-place writes hit a value that shares its storage with another one.",
    500000, 10000000) {
    if (c.chance(1, 5)) return implHistory(c);
    Pool p(c, 3 + (c.chance(1, 80) ? c.draw(140) : c.draw(3)));
    auto slot = [&] { return (size_t)c.draw(p.x.size() - 1); };
    size_t steps = 1 + c.draw(c.chance(1, 300) ? 1500 : c.chance(1, 3) ? 70 : 20);
    if (steps > 100) c.heavy();
    std::string log;
    for (size_t st = 0; st < steps; ++st) {
        size_t d = slot();
        BigInteger & D = p.x[d];
        Z & V = p.v[d];
        int op = (int)c.weighted({6, 3, 2, 3, 6, 3, 10, 4, 5, 3, 3, 4, 3, 2, 3, 3, 2});
        std::string what;
        auto begin = [&](const std::string & s) { what = s; c.stage(s); if (c.verbose) log += "  " + s + "\n"; };
        switch (op) {
        case 0: {  // copy
            size_t s = slot();
            begin(nm(d) + " = " + nm(s));
            if (c.chance(1, 4)) { BigInteger t(p.x[s]); D = t; } else D = p.x[s];
            V = Z(p.v[s]);
            p.copied(d, s);
            break;
        }
        case 1: {  // move
            size_t s = slot();
            if (s == d) {
                begin("self-move of " + nm(d));
                BigInteger & alias = D;
                D = std::move(alias);
                break;
            }
            begin(nm(d) + " = move(" + nm(s) + "), then " + nm(s) + " gets a new value");
            if (c.chance(1, 2)) D = std::move(p.x[s]); else { BigInteger t(std::move(p.x[s])); D = std::move(t); }
            V = p.v[s];
            p.group[d] = p.group[s];
            // what was moved from may only be given a new value
            if (c.chance(1, 2)) { p.x[s] = D; p.v[s] = V; p.copied(s, d); }
            else { Z n = genZ(c, SMALL); p.x[s] = fromZ(n); p.v[s] = n; p.group[s] = p.nextGroup++; }
            break;
        }
        case 2: {
            size_t s = slot();
            begin("swap(" + nm(d) + ", " + nm(s) + ")");
            if (s != d) { using std::swap; swap(D, p.x[s]); std::swap(V, p.v[s]); std::swap(p.group[d], p.group[s]); }
            break;
        }
        case 3: {  // fresh value by one of the routes; the values it shares storage with stay alive only here
            Keep k;
            Z n = genZ(c, c.chance(1, 8) ? LARGE : SMALL);
            std::string route;
            begin(nm(d) + " = " + zs(n));
            if (c.chance(1, 2)) { D = build(c, n, k, &route); V = n; p.group[d] = p.nextGroup++; observeKeep(c, k); }
            else { D = fromZ(n); V = n; p.group[d] = p.nextGroup++; }
            break;
        }
        case 4: {  // in-place with another slot (which may be the same one)
            size_t s = slot();
            int o = (int)c.draw(7);
            static const char * n[] = {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="};
            if ((o == 3 || o == 4) && p.v[s] == 0) o -= 3;
            if (o == 2 && bitlen(V) + bitlen(p.v[s]) > HARD) o = 1;
            begin(nm(d) + " " + n[o] + " " + nm(s));
            BigInteger & S = p.x[s];
            Z sv = p.v[s];
            BigInteger * r;
            switch (o) {
            case 0: r = &(D += S); V += sv; break;
            case 1: r = &(D -= S); V -= sv; break;
            case 2: r = &(D *= S); V *= sv; break;
            case 3: r = &(D /= S); V /= sv; break;
            case 4: r = &(D %= S); V %= sv; break;
            case 5: r = &(D &= S); V &= sv; break;
            case 6: r = &(D |= S); V |= sv; break;
            default: r = &(D ^= S); V ^= sv; break;
            }
            c.check(r == &D, what + ": does not return the left operand");
            p.wrote(d);
            if (s != d) observe(c, S, sv, ("right operand of " + what).c_str(), false);
            break;
        }
        case 5: {  // in-place with an int64
            int64_t i = genI64(c);
            int o = (int)c.draw(7);
            static const char * n[] = {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^="};
            if (i == 0 && (o == 3 || o == 4)) i = 7;
            begin(nm(d) + " " + n[o] + " " + std::to_string(i));
            Z iv = z64(i);
            switch (o) {
            case 0: D += i; V += iv; break;
            case 1: D -= i; V -= iv; break;
            case 2: D *= i; V *= iv; break;
            case 3: D /= i; V /= iv; break;
            case 4: D %= i; V %= iv; break;
            case 5: D &= i; V &= iv; break;
            case 6: D |= i; V |= iv; break;
            default: D ^= i; V ^= iv; break;
            }
            p.wrote(d);
            break;
        }
        case 6: {  // one-operand writes
            int o = (int)c.draw(9);
            static const char * n[] = {"++", "--", "post++", "post--", "negate", "abs", "notSelf", "notBits", "<<=", ">>="};
            unsigned long s = 0;
            if (o >= 8) { s = c.chance(1, 3) ? 32 * c.draw(4) : c.draw(130); if (o == 8 && bitlen(V) > HARD) o = 9; }
            begin(std::string(n[o]) + " " + nm(d) + (o >= 8 ? " by " + std::to_string(s) : ""));
            switch (o) {
            case 0: ++D; V += 1; break;
            case 1: --D; V -= 1; break;
            case 2: { BigInteger r = D++; observe(c, r, V, "value of x++", false); V += 1; break; }
            case 3: { BigInteger r = D--; observe(c, r, V, "value of x--", false); V -= 1; break; }
            case 4: D.negate(); V = -V; break;
            case 5: D.abs(); V = abs(V); break;
            case 6: D.notSelf(); V = ~V; break;
            case 7: {  // complements the bits of the magnitude below its highest one
                D.notBits();
                Z m = abs(V);
                m = pow2(bitlen(m)) - 1 - m;
                if (V == 0) m = 0;
                V = V < 0 ? Z(-m) : m;
                break;
            }
            case 8: D <<= s; V <<= s; break;
            default: D >>= s; mpz_fdiv_q_2exp(V.get_mpz_t(), V.get_mpz_t(), s); break;
            }
            p.wrote(d);
            break;
        }
        case 7: {  // d = a op b with values from the pool
            size_t a = slot(), b = slot();
            int o = (int)c.draw(7);
            Z va = p.v[a], vb = p.v[b];
            if ((o == 3 || o == 4) && vb == 0) o -= 3;
            if (o == 2 && bitlen(va) + bitlen(vb) > HARD) o = 0;
            static const char * n[] = {" + ", " - ", " * ", " / ", " % ", " & ", " | ", " ^ "};
            begin(nm(d) + " = " + nm(a) + n[o] + nm(b));
            const BigInteger & A = p.x[a];
            const BigInteger & B = p.x[b];
            switch (o) {
            case 0: D = A + B; V = va + vb; break;
            case 1: D = A - B; V = va - vb; break;
            case 2: D = A * B; V = va * vb; break;
            case 3: D = A / B; V = va / vb; break;
            case 4: D = A % B; V = va % vb; break;
            case 5: D = A & B; V = va & vb; break;
            case 6: D = A | B; V = va | vb; break;
            default: D = A ^ B; V = va ^ vb; break;
            }
            p.group[d] = p.nextGroup++;
            if (a != d) observe(c, p.x[a], va, "left operand", false);
            if (b != d) observe(c, p.x[b], vb, "right operand", false);
            break;
        }
        case 8: {  // d = unary of a (results may share storage with the operand)
            size_t a = slot();
            Z va = p.v[a];
            int o = (int)c.draw(4);
            static const char * n[] = {"-", "+", "~", "negated ", "absoluted "};
            begin(nm(d) + " = " + n[o] + nm(a));
            switch (o) {
            case 0: D = -p.x[a]; V = -va; break;
            case 1: D = +p.x[a]; V = va; break;
            case 2: D = ~p.x[a]; V = ~va; break;
            case 3: D = p.x[a].negated(); V = -va; break;
            default: D = p.x[a].absoluted(); V = abs(va); break;
            }
            if (o == 2) p.group[d] = p.nextGroup++; else p.copied(d, a);
            if (a != d) observe(c, p.x[a], va, "operand", false);
            break;
        }
        case 9: {
            int64_t i = genI64(c);
            begin(nm(d) + ".assign(" + std::to_string(i) + ")");
            if (c.chance(1, 2)) D.assign(i); else D = i;
            V = z64(i);
            p.wrote(d);
            break;
        }
        case 10: {  // text
            int radix = c.chance(1, 2) ? 10 : (int)c.range(2, 36);
            Z n = genZ(c, SMALL);
            std::string t = n.get_str(radix);
            bool ok = true;
            bool bad = c.chance(1, 3);
            if (bad) t.insert(c.draw(t.size()), 1, " ._{"[c.draw(3)]);
            begin(nm(d) + ".assign(" + pbt::quote(t.substr(0, 80)) + ", " + std::to_string(radix) + ")");
            bool r = bad;
            D.assign(pgbn::StringArg(t), radix, &r);
            ok = r;
            c.check(ok == !bad, what + (bad ? ": accepted" : ": rejected"));
            if (!bad) { V = n; p.wrote(d); }
            break;
        }
        case 11: {  // bytes
            Z n = genZ(c, SMALL);
            std::string b = twosLE(n, minTwosLen(n) + c.draw(5));
            bool le = c.chance(1, 2);
            if (!le) std::string(b.rbegin(), b.rend()).swap(b);
            begin(nm(d) + ".fromBinary(" + zs(n) + (le ? ", little)" : ", big)"));
            D.fromBinary(b.data(), b.size(), le);
            V = n;
            p.wrote(d);
            break;
        }
        case 12: {  // const queries: they fill caches
            int o = (int)c.draw(3);
            begin("queries on " + nm(d));
            if (o == 0) { size_t i = c.draw(3); Z t; mpz_fdiv_q_2exp(t.get_mpz_t(), V.get_mpz_t(), 32 * i); mpz_fdiv_r_2exp(t.get_mpz_t(), t.get_mpz_t(), 32); c.check(D.get2sComplement(i) == (uint32_t)t.get_ui(), what + ": wrong two's complement word"); }
            else if (o == 1) observeText(c, D, V, "text", (int)c.range(2, 36));
            else if (o == 2) { size_t s = slot(); int e = cmp(V, p.v[s]); int g = D.cmp(p.x[s]); c.check((g < 0) == (e < 0) && (g > 0) == (e > 0), what + ": comparison with " + nm(s)); }
            else observe(c, D, V, "queries", true);
            break;
        }
        case 13: {  // containers: copies, growth, erasure in the middle
            begin("copies of all values through a vector");
            std::vector<BigInteger> w(p.x.begin(), p.x.end());
            size_t k = slot();
            w.erase(w.begin() + k);
            if (!w.empty()) { size_t q = c.draw(w.size() - 1); w[q] += 1; Z e = p.v[q < k ? q : q + 1] + 1; observe(c, w[q], e, "a copy that was incremented", false); }
            for (auto & t : w) t.negate();
            break;
        }
        case 14: {  // by value through a function that writes its parameter
            size_t s = slot();
            begin(nm(d) + " = f(" + nm(s) + "), f writes to its parameter");
            Z sv = p.v[s];
            int64_t add = c.range(-3, 3);
            auto f = [&](BigInteger q) { q += add; q.negate(); return q; };
            D = f(p.x[s]);
            V = -(sv + (long)add);
            p.group[d] = p.nextGroup++;
            if (s != d) observe(c, p.x[s], sv, "argument passed by value", false);
            break;
        }
        case 15: {  // drop the upper words, then grow again: nothing of the old words may come back
            unsigned long k = 32 * (1 + c.draw(4)) + (c.chance(1, 2) ? 0 : c.draw(31));
            size_t s = slot();
            begin(nm(d) + ": drop all but " + std::to_string(k) + " bits of " + nm(s) + ", then grow again");
            Z sv = abs(p.v[s]);
            BigInteger t = p.x[s];
            t.abs();
            Z low;
            mpz_fdiv_r_2exp(low.get_mpz_t(), sv.get_mpz_t(), k);
            BigInteger m = fromZ(pow2(k) - 1);
            bool copyBefore = c.chance(1, 2);
            BigInteger keep;
            if (copyBefore) keep = t;
            t &= m;
            observe(c, t, low, "low bits", false);
            unsigned long sh = 32 * (1 + c.draw(5)) - c.draw(3);
            switch (c.draw(2)) {
            case 0: t <<= sh; low <<= sh; break;
            case 1: t |= fromZ(pow2(sh + 40)); low |= pow2(sh + 40); break;
            default: t += fromZ(pow2(sh + 40)); low += pow2(sh + 40); break;
            }
            if (copyBefore) observe(c, keep, sv, "copy taken before the upper words were dropped", false);
            D = t;
            V = low;
            p.group[d] = p.nextGroup++;
            break;
        }
        default: {  // the same object on both sides
            int o = (int)c.draw(6);
            begin("self operation " + std::to_string(o) + " on " + nm(d));
            const Z v = V;
            if (o == 2 && 2 * bitlen(V) > HARD) o = 0;
            if ((o == 3 || o == 4) && V == 0) o = 0;
            switch (o) {
            case 0: D += D; V = v + v; break;
            case 1: D -= D; V = 0; break;
            case 2: D *= D; V = v * v; break;
            case 3: D /= D; V = 1; break;
            case 4: D %= D; V = 0; break;
            case 5: { BigInteger & alias = D; D = alias; break; }
            default: D ^= D; V = 0; break;
            }
            if (o != 5) p.wrote(d);
            break;
        }
        }
        observe(c, D, V, what.c_str(), c.chance(1, 6));
        if (bitlen(V) > LIMIT) {
            Z n;
            mpz_fdiv_q_2exp(n.get_mpz_t(), V.get_mpz_t(), bitlen(V) - LIMIT / 3);
            D >>= bitlen(V) - LIMIT / 3;
            V = n;
            p.wrote(d);
            observe(c, D, V, "value cut down", false);
        }
        if (st % 4 == 3) p.all(false, "a value not written by the last operations");
    }
    if (c.verbose) c.note("history:\n" + log);
    p.all(true, "final value");
    if (c.chance(1, 4)) for (size_t i = 0; i < p.x.size(); ++i) observeText(c, p.x[i], p.v[i], "final text");
    c.label(steps > 20 ? "long history" : "short history");
    if (p.shareMut >= 1) c.label("a shared value was written");
    if (p.shareMut >= 2) c.nontrivial();
}
