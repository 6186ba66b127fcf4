// An independent reader and evaluator of infix expressions (the reference), and a generator of valid ones.
#pragma once
#include <cctype>
#include <map>
#include <memory>
#include "num.h"

namespace em {
using num::Z;
using pbt::Case;

struct Node {
    // kind: 'n' number, 'c' constant, 'f' call, '?' conditional, 'u' unary, 'b' binary, 'p' postfix !
    char kind = 'n';
    std::string op;             // operator or name
    Z val;                      // of a literal
    std::string lit;            // literal as written (generator)
    std::vector<std::unique_ptr<Node>> ch;
    int level = 12;
};
using P = std::unique_ptr<Node>;

struct Fn {
    int arity = 0;  // -1: any
    std::function<Z(const std::vector<Z> &)> f;
};
struct Env {
    std::map<std::string, Fn> fns;
    std::map<std::string, Z> consts;
};

// ---- levels (loosest binding first)
inline int binLevel(const std::string & op) {
    static const std::map<std::string, int> t = {{"|", 1}, {"^", 2}, {"&", 3}, {"==", 4}, {"!=", 4}, {"<", 5}, {"<=", 5}, {">", 5}, {">=", 5},
                                                 {"<<", 6}, {">>", 6}, {"+", 7}, {"-", 7}, {"*", 8}, {"/", 8}, {"%", 8}, {"**", 9}};
    auto i = t.find(op);
    return i == t.end() ? -1 : i->second;
}

// ---- evaluation, lazy in the branches of a conditional
struct TooBig { const char * why; };
struct Limits {
    size_t bits = 6000;
    long fact = 70;
    long pow = 40;
    size_t calls = 100000;
};
inline Z eval(const Node & n, const Env & env, const Limits & lim, size_t * calls = nullptr) {
    auto guard = [&](Z v) { if (num::bitlen(v) > lim.bits) throw TooBig{"large"}; return v; };
    switch (n.kind) {
    case 'n': return n.val;
    case 'c': return env.consts.at(n.op);
    case 'f': {
        std::vector<Z> a;
        for (auto & c : n.ch) a.push_back(eval(*c, env, lim, calls));
        if (calls) ++*calls;
        return guard(env.fns.at(n.op).f(a));
    }
    case '?': return eval(*n.ch[0], env, lim, calls) != 0 ? eval(*n.ch[1], env, lim, calls) : eval(*n.ch[2], env, lim, calls);
    case 'u': {
        Z v = eval(*n.ch[0], env, lim, calls);
        return n.op == "-" ? Z(-v) : n.op == "~" ? Z(~v) : v;
    }
    case 'p': {
        Z v = eval(*n.ch[0], env, lim, calls);
        if (v < 0) return 0;
        if (v > lim.fact) throw TooBig{"factorial"};
        Z r;
        mpz_fac_ui(r.get_mpz_t(), v.get_ui());
        return r;
    }
    default: break;
    }
    Z a = eval(*n.ch[0], env, lim, calls), b = eval(*n.ch[1], env, lim, calls);
    const std::string & o = n.op;
    if (o == "|") return a | b;
    if (o == "^") return a ^ b;
    if (o == "&") return a & b;
    if (o == "==") return a == b ? 1 : 0;
    if (o == "!=") return a != b ? 1 : 0;
    if (o == "<") return a < b ? 1 : 0;
    if (o == "<=") return a <= b ? 1 : 0;
    if (o == ">") return a > b ? 1 : 0;
    if (o == ">=") return a >= b ? 1 : 0;
    if (o == "+") return guard(a + b);
    if (o == "-") return guard(a - b);
    if (o == "*") return guard(a * b);
    if (o == "/" || o == "%") {
        if (b == 0) throw TooBig{"division by zero"};
        return o == "/" ? Z(a / b) : Z(a % b);
    }
    if (o == "<<") {
        if (b < 0 || b > (long)lim.bits) throw TooBig{"shift"};
        return guard(a << b.get_ui());
    }
    if (o == ">>") {
        if (b < 0 || b > num::pow2(40)) throw TooBig{"shift"};
        Z r;
        mpz_fdiv_q_2exp(r.get_mpz_t(), a.get_mpz_t(), b.get_ui());
        return r;
    }
    if (o == "**") {
        if (b < 0) throw TooBig{"negative exponent"};
        if (b > lim.pow || num::bitlen(a) * b.get_ui() > lim.bits) throw TooBig{"power"};
        Z r;
        mpz_pow_ui(r.get_mpz_t(), a.get_mpz_t(), b.get_ui());
        return r;
    }
    throw TooBig{"unknown operator"};
}

// ---- reading
struct Tok { std::string t; Z val; };  // t: "#" number, "@name" symbol, else the operator
struct Bad { std::string why; };
struct Reader {
    const Env & env;
    size_t badAt = (size_t)-1;  // where the token starts that tokenize() refused
    bool alsoFraction = false, alsoDigits = false;  // a refused literal has this defect as well
    bool dubious = false;  // a spelling nothing says how to read
    std::vector<Tok> toks;
    size_t p = 0;
    int depth = 0;
    explicit Reader(const Env & e) : env(e) {}
    static bool an(char ch) { return std::isdigit((unsigned char)ch) || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'); }
    static Z number(const std::string & d, int radix) {
        if (d.empty()) throw Bad{"no digits"};
        Z v = 0;
        for (char ch : d) {
            int x = std::isdigit((unsigned char)ch) ? ch - '0' : std::tolower((unsigned char)ch) - 'a' + 10;
            if (x >= radix) throw Bad{"digit too large"};
            v = v * radix + x;
        }
        return v;
    }
    void tokenize(const std::string & s) {
        size_t i = 0;
        auto at = [&](size_t k) { return k < s.size() ? s[k] : '\0'; };
        while (i < s.size()) {
            badAt = i;
            char ch = s[i];
            if (ch == 0) { dubious = true; ++i; continue; }
            if (ch == ' ' || ch == '\n' || ch == '\r' || ch == '\t') { ++i; continue; }
            auto two = s.substr(i, 2);
            if (two == "**" || two == "!=" || two == ">>" || two == ">=" || two == "<<" || two == "<=" || two == "==") { toks.push_back({two, 0}); i += 2; continue; }
            if (ch != '\0' && std::strchr("+-*/%!&|^~><(),?:", ch)) { toks.push_back({std::string(1, ch), 0}); ++i; continue; }
            if (std::isdigit((unsigned char)ch)) {
                int radix = 10;
                size_t b = i;
                if (ch == '0') {
                    if (at(i + 1) == 'x') { radix = 16; b = i + 2; }
                    else if (std::isdigit((unsigned char)at(i + 1))) {
                        if (at(i + 2) == 'x') { radix = at(i + 1) - '0'; b = i + 3; }
                        else if (std::isdigit((unsigned char)at(i + 2)) && at(i + 3) == 'x') { radix = (at(i + 1) - '0') * 10 + at(i + 2) - '0'; b = i + 4; }
                        else { radix = 8; b = i + 1; }
                    } else { toks.push_back({"#", 0}); ++i; if (an(at(i))) dubious = at(i) == 'X'; continue; }
                }
                size_t e = b;
                while (an(at(e))) ++e;
                std::string d = s.substr(b, e - b);
                if (radix < 2 || radix > 36) { alsoFraction = at(e) == '.'; throw Bad{"radix"}; }
                if (at(e) == '.') {
                    if (ch == '0') { try { number(d, radix); } catch (Bad &) { alsoDigits = true; } throw Bad{"fraction"}; }
                    size_t f = e + 1;
                    while (an(at(f))) { if (!std::isdigit((unsigned char)at(f))) dubious = true; ++f; }
                    if (f == e + 1) dubious = true;
                    e = f;
                }
                toks.push_back({"#", number(d, radix)});
                i = e;
                continue;
            }
            if (std::isalpha((unsigned char)ch) || ch == '_') {
                size_t e = i + 1;
                while (an(at(e)) || at(e) == '_') ++e;
                std::string n = s.substr(i, e - i);
                if (!env.fns.count(n) && !env.consts.count(n)) throw Bad{"undefined symbol"};
                toks.push_back({"@" + n, 0});
                i = e;
                continue;
            }
            throw Bad{"character"};
        }
        badAt = (size_t)-1;
    }
    const std::string & cur() const { static const std::string end = "$"; return p < toks.size() ? toks[p].t : end; }
    bool eat(const char * t) { if (cur() == t) { ++p; return true; } return false; }
    struct Deep { int & d; explicit Deep(int & d) : d(d) { if (++d > 5000) throw TooBig{"nesting"}; } ~Deep() { --d; } };
    P expr() {
        Deep dd(depth);
        P c = bin(1);
        if (!eat("?")) return c;
        P n = std::make_unique<Node>();
        n->kind = '?';
        n->ch.push_back(std::move(c));
        n->ch.push_back(expr());
        if (!eat(":")) throw Bad{"no colon"};
        n->ch.push_back(expr());
        return n;
    }
    P bin(int level) {
        if (level == 10) return unary();
        P l = bin(level + 1);
        while (binLevel(cur()) == level) {
            P n = std::make_unique<Node>();
            n->kind = 'b';
            n->op = cur();
            ++p;
            n->ch.push_back(std::move(l));
            n->ch.push_back(bin(level + 1));
            l = std::move(n);
        }
        return l;
    }
    P unary() {
        Deep dd(depth);
        if (cur() == "+" || cur() == "-" || cur() == "~") {
            P n = std::make_unique<Node>();
            n->kind = 'u';
            n->op = cur();
            ++p;
            n->ch.push_back(unary());
            return n;
        }
        P n = prim();
        while (eat("!")) {
            P q = std::make_unique<Node>();
            q->kind = 'p';
            q->ch.push_back(std::move(n));
            n = std::move(q);
        }
        return n;
    }
    P prim() {
        P n = std::make_unique<Node>();
        if (eat("(")) { n = expr(); if (!eat(")")) throw Bad{"no closing bracket"}; return n; }
        if (cur() == "#") { n->val = toks[p++].val; return n; }
        if (cur()[0] == '@') {
            n->op = cur().substr(1);
            ++p;
            if (env.consts.count(n->op)) { n->kind = 'c'; return n; }
            n->kind = 'f';
            if (!eat("(")) throw Bad{"function without call"};
            while (!eat(")")) {
                if (!n->ch.empty() && !eat(",")) throw Bad{"no comma"};
                n->ch.push_back(expr());
            }
            int ar = env.fns.at(n->op).arity;
            if (ar != -1 && (size_t)ar != n->ch.size()) throw Bad{"arity"};
            return n;
        }
        throw Bad{"no operand"};
    }
    P read(const std::string & s) {
        tokenize(s);
        P n = expr();
        if (p != toks.size()) throw Bad{"rest"};
        return n;
    }
};

// ---- writing
inline int levelOf(const Node & n) {
    switch (n.kind) {
    case '?': return 0;
    case 'b': return binLevel(n.op);
    case 'u': return 10;
    case 'p': return 11;
    default: return 12;
    }
}
inline void space(Case & c, std::string & out, int density) {
    if (density == 0 || !c.chance(1, 4)) return;
    size_t k = 1 + c.draw(2);
    if (k == 3 && c.chance(1, 150)) { out.append(30 + c.draw(c.chance(1, 4) ? 70000 : 1000), " \t\n\r"[c.draw(3)]); return; }
    while (k--) out.push_back(" \t\n\r"[c.draw(3)]);
}
inline void write(Case & c, const Node & n, std::string & out, int min, int density) {
    int lv = levelOf(n);
    bool par = lv < min || c.chance(1, 12);
    auto put = [&](const std::string & t) {
        if (!out.empty() && out.back() == '!' && t[0] == '=') out.push_back(' ');
        out += t;
        space(c, out, density);
    };
    if (par) put("(");
    switch (n.kind) {
    case 'n': put(n.lit); break;
    case 'c': put(n.op); break;
    case 'f':
        put(n.op);
        put("(");
        for (size_t i = 0; i < n.ch.size(); ++i) { if (i) put(","); write(c, *n.ch[i], out, 0, density); }
        put(")");
        break;
    case '?':
        write(c, *n.ch[0], out, 1, density);
        put("?");
        write(c, *n.ch[1], out, 0, density);
        put(":");
        write(c, *n.ch[2], out, 0, density);
        break;
    case 'u': put(n.op); write(c, *n.ch[0], out, 10, density); break;
    case 'p': write(c, *n.ch[0], out, 11, density); put("!"); break;
    default:
        write(c, *n.ch[0], out, lv, density);
        put(n.op);
        write(c, *n.ch[1], out, lv + 1, density);
        break;
    }
    if (par) put(")");
}
inline std::string text(Case & c, const Node & n) {
    std::string s;
    int density = (int)c.draw(1);
    space(c, s, density);
    write(c, n, s, 0, density);
    return s;
}

// an expression of a given number of small literals that is wide, not deep; without branches and calls
inline std::string wide(Case & c, size_t literals, Z & v) {
    c.massive();
    pbt::Rng r(c.bits(64));
    const size_t group = 60 + c.draw(200);  // the tree stays shallow: at most some 1300 levels
    const bool blank = c.chance(1, 4);
    std::string s;
    v = 0;
    bool outerMinus = false;
    Z g = 0;
    for (size_t i = 0; i < literals; ++i) {
        uint64_t x = r.next();
        const long k = (long)((x >> 8) % ((x & 7) == 0 ? 1000000007 : 10));
        if (i % group == 0) {
            if (i) { v = outerMinus ? Z(v - g) : Z(v + g); outerMinus = x >> 63; s += outerMinus ? ")-(" : ")+("; }
            else s += "(";
            g = k;
        } else if (x >> 62 & 1) { s += "-"; g -= k; }
        else { s += "+"; g += k; }
        if (blank && (x >> 61 & 1)) s += ' ';
        s += std::to_string(k);
    }
    if (literals) { v = outerMinus ? Z(v - g) : Z(v + g); s += ")"; }
    return s;
}
inline size_t wideCount(Case & c) {  // literals and operators: the number of tokens and of nodes passes 2^10, 2^12, 2^15, 2^16, 2^17
    static const std::vector<uint64_t> t = {130, 520, 1030, 2050, 2100, 4100, 8200, 16400, 32700, 32770, 33000, 65540};
    return c.pick(t) + c.draw(20);
}

// an expression nested deeply: brackets, prefix operators, calls of id, right operands, conditionals
inline std::string nested(Case & c, size_t depth, Z & v, bool calls) {
    c.heavy();
    if (depth > 300) c.massive();
    pbt::Rng r(c.bits(64));
    const uint64_t only = c.draw(8);  // one kind of nesting, or all of them
    std::string tail;
    std::vector<std::string> head;
    const long k0 = (long)(r.next() % 1000);
    v = k0;
    for (size_t i = 0; i < depth; ++i) {
        uint64_t x = r.next(), kind = only < 7 ? only : x >> 60;
        const long k = (long)(x % 100);
        const std::string ks = std::to_string(k);
        switch (kind) {
        case 0: head.push_back("-"); v = -v; break;
        case 1: head.push_back("~"); v = ~v; break;
        case 2: if (calls) { head.push_back("id("); tail += ")"; break; } [[fallthrough]];
        case 3: head.push_back("(" + ks + "-("); tail += "))"; v = k - v; break;
        case 4: head.push_back("(1?"); tail += ":" + ks + ")"; break;
        case 5: head.push_back("(" + ks + "<0?1:"); tail += ")"; break;
        case 6: head.push_back("+"); break;
        default: head.push_back("("); tail += ")"; break;
        }
    }
    std::string s;
    for (size_t i = head.size(); i--;) s += head[i];
    return s + std::to_string(k0) + tail;
}
inline size_t nestedDepth(Case & c) {
    static const std::vector<uint64_t> t = {60, 125, 250, 254, 510, 1000, 1020};
    return c.pick(t) + c.draw(20);
}

// ---- generation
inline P lit(Case & c, const Z & v, int style = -1) {  // v >= 0
    P n = std::make_unique<Node>();
    n->val = v;
    auto recase = [&](std::string s) { if (c.chance(1, 3)) for (auto & ch : s) if (c.chance(1, 2)) ch = (char)std::toupper((unsigned char)ch); return s; };
    size_t k = style >= 0 ? (size_t)style : c.weighted({8, 2, 4, 4, 1});
    auto many = [&](size_t few) { return c.chance(1, 100) ? 13 + c.draw(c.chance(1, 8) ? 9000 : 300) : c.draw(few); };
    switch (k) {
    case 1: n->lit = "0" + std::string(many(3), '0') + v.get_str(8); break;
    case 2: n->lit = "0x" + std::string(c.chance(1, 4) ? many(12) : 0, '0') + recase(v.get_str(16)); break;
    case 3: {
        int r = (int)c.range(2, 36);
        n->lit = (r < 10 && c.chance(1, 2) ? "0" : r < 10 ? "00" : "0") + std::to_string(r) + "x" + std::string(c.chance(1, 4) ? many(12) : 0, '0') + recase(v.get_str(r));
        break;
    }
    case 4:
        if (v != 0) { n->lit = v.get_str(10) + "."; size_t k = 1 + many(3); while (k--) n->lit += (char)('0' + c.draw(9)); break; }
        [[fallthrough]];
    default: n->lit = v.get_str(10); break;
    }
    return n;
}
struct Gen {
    Case & c;
    const Env & env;
    Limits lim;
    bool laxBranches = true;  // unselected branches may hold operations that must not be evaluated
    int budget;
    size_t ops = 0;
    std::vector<std::string> fnames, cnames;
    Gen(Case & c, const Env & env, int budget) : c(c), env(env), budget(budget) {
        const size_t most = c.chance(1, 100) ? 100000 : 100;
        for (auto & f : env.fns) if (f.first.size() < most) fnames.push_back(f.first);
        for (auto & k : env.consts) if (k.first.size() < most) cnames.push_back(k.first);
    }
    struct R { P n; Z v; };
    P node(char k, const std::string & op) { P n = std::make_unique<Node>(); n->kind = k; n->op = op; return n; }
    R leaf() {
        if (!cnames.empty() && c.chance(1, 8)) { P n = node('c', c.pick(cnames)); Z v = env.consts.at(n->op); return {std::move(n), v}; }
        Z v;
        switch (c.weighted({6, 4, 3, 2})) {
        case 0: v = (unsigned long)c.draw(12); break;
        case 1: v = num::zu64(num::boundary64(c)); break;
        case 2: v = num::genMagWords(c, c.chance(1, 60) ? 5 + c.draw(c.chance(1, 4) ? (c.chance(1, 30) ? 1000 : 300) : 40) : c.draw(4)); break;
        default: v = abs(num::genZ(c, num::SMALL)); break;
        }
        return {lit(c, v), v};
    }
    R bin(const std::string & op, R l, R r, const Z & v) {
        ++ops;
        P n = node('b', op);
        n->ch.push_back(std::move(l.n));
        n->ch.push_back(std::move(r.n));
        return {std::move(n), v};
    }
    R small(R r, long mask) {  // a value in 0..mask from any value
        Z v = r.v & mask;
        return bin("&", std::move(r), {lit(c, mask, 0), mask}, v);
    }
    R gen(int depth) {
        if (depth <= 0 || budget <= 0) return leaf();
        --budget;
        switch (c.weighted({4, 14, 4, 2, 2, fnames.empty() ? 0 : 2})) {
        case 0: return leaf();
        case 1: {
            static const std::vector<std::string> os = {"+", "-", "*", "/", "%", "**", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "^", "|"};
            std::string o = c.pick(os);
            R l = gen(depth - 1), r = gen(depth - 1);
            const size_t lb = num::bitlen(l.v);
            if (o == "*" && lb + num::bitlen(r.v) > lim.bits) o = "-";
            if ((o == "/" || o == "%") && r.v == 0) r = bin("+", std::move(r), {lit(c, 1, 0), 1}, 1);
            if (o == "<<") {
                if (r.v < 0 || r.v > 130) r = small(std::move(r), 127);
                if (lb + 130 > lim.bits) o = ">>";
            }
            if (o == ">>" && (r.v < 0 || r.v > 1000000)) r = small(std::move(r), 255);
            if (o == "**") {
                if (r.v < 0 || r.v > lim.pow || lb * r.v.get_ui() > lim.bits) r = small(std::move(r), lb > 600 ? 1 : 7);
                if (lb * r.v.get_ui() > lim.bits) o = "|";
            }
            if ((o == "+" || o == "-") && lb + 1 > lim.bits) o = "^";
            Node t;
            t.kind = 'b';
            t.op = o;
            Z v = calc(o, l.v, r.v);
            return bin(o, std::move(l), std::move(r), v);
        }
        case 2: {
            static const char * const us[] = {"-", "+", "~"};
            std::string o = us[c.draw(2)];
            R a = gen(depth - 1);
            ++ops;
            P n = node('u', o);
            n->ch.push_back(std::move(a.n));
            Z v = o == "-" ? Z(-a.v) : o == "~" ? Z(~a.v) : a.v;
            return {std::move(n), v};
        }
        case 3: {
            R a = gen(depth - 1);
            if (a.v > lim.fact) a = small(std::move(a), 31);
            ++ops;
            P n = node('p', "!");
            n->ch.push_back(std::move(a.n));
            Z v = 0;
            if (a.v >= 0) mpz_fac_ui(v.get_mpz_t(), a.v.get_ui());
            return {std::move(n), v};
        }
        case 4: {
            R q = gen(depth - 1), t = gen(depth - 1), e = gen(depth - 1);
            ++ops;
            bool yes = q.v != 0;
            if (laxBranches && c.chance(1, 3)) {  // what is not selected must not be evaluated: there it would not end, or abort
                R & other = yes ? e : t;
                if (c.chance(1, 2)) other = bin("/", std::move(other), bin("-", {lit(c, 7, 0), 7}, {lit(c, 7, 0), 7}, 0), 0);
                else other = bin("**", {lit(c, 3, 0), 3}, {lit(c, num::pow2(60), 0), 0}, 0);
            }
            P n = node('?', "?");
            n->ch.push_back(std::move(q.n));
            n->ch.push_back(std::move(t.n));
            n->ch.push_back(std::move(e.n));
            Z v = yes ? t.v : e.v;
            return {std::move(n), v};
        }
        default: {
            std::string f = c.pick(fnames);
            const Fn & fn = env.fns.at(f);
            size_t k = fn.arity >= 0 ? fn.arity : c.chance(1, 40) ? 5 + c.draw(80) : c.draw(4);
            P n = node('f', f);
            std::vector<Z> a;
            for (size_t i = 0; i < k; ++i) { R r = gen(i < 6 ? depth - 1 : 0); a.push_back(r.v); n->ch.push_back(std::move(r.n)); }
            ++ops;
            Z v = fn.f(a);
            return {std::move(n), v};
        }
        }
    }
    static Z calc(const std::string & o, const Z & a, const Z & b) {
        Node n, *x = new Node, *y = new Node;
        n.kind = 'b';
        n.op = o;
        x->val = a;
        y->val = b;
        n.ch.emplace_back(x);
        n.ch.emplace_back(y);
        Limits l;
        l.bits = 1u << 20;
        l.pow = 1000;
        return eval(n, Env{}, l);
    }
};
}  // namespace em
