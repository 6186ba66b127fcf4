// Infix expressions: values, malformed texts, registered names; division by zero.
#include <algorithm>
#include <mutex>
#include <thread>
#include "exprenv.h"
#include "view.h"
#include "PGBigNumber/expr.h"
#include "PGBigNumber/pgbn.h"
#include "PGBigNumber/infixExpr/SymbolTable.h"
#include "infixExpr/ExprParser.h"
#include "infixExpr/ExprTree.h"
#include "infixExpr/fwd.h"
#include "streams/StringReadStream.h"
#include <any>
#include <tuple>
using namespace num;
using pgbn::Status;
using pgbn::infixExpr::Func;
using pgbn::infixExpr::SymbolTable;
using pgbn::infixExpr::Value;
namespace ErrCode = pgbn::ErrCode;

namespace {

bool isBuiltinError(const std::string & info) {
    for (pgbn::Enum e = 1; e <= 16; ++e) if (Status::getInfo(e) == info) return true;
    return false;
}
// an operation with a right operand far beyond what fits the generated trees
std::string largeOperand(Case & c, Z & v) {
    c.massive();
    auto near = [&](std::initializer_list<uint64_t> t) { std::vector<uint64_t> w(t); return c.chance(1, 3) ? c.draw(w.back()) : c.pick(w) + c.draw(4) - 2; };
    auto num = [](uint64_t x) { return std::to_string(x); };
    switch (c.weighted({3, 3, 3, 3, 3})) {
    case 0: {  // powers of 0, 1, -1
        const long b = (long)c.range(-1, 1);
        const uint64_t e = near({256, 512, 1024, 4096, 32768, 65536, 65537, 131072});
        v = e == 0 ? 1 : b >= 0 ? b : e % 2 ? -1 : 1;
        return (b < 0 ? "(0-1)**" : num((uint64_t)b) + "**") + num(e);
    }
    case 1: {
        const long b = (long)c.range(2, 12) * (c.chance(1, 3) ? -1 : 1);
        const uint64_t e = near({32, 64, 128, 256, 512, 1024, 2048});
        Z a;
        mpz_ui_pow_ui(a.get_mpz_t(), (unsigned long)std::labs(b), e);
        v = b < 0 && e % 2 ? Z(-a) : a;
        return (b < 0 ? "(-" + num((uint64_t)-b) + ")**" : num((uint64_t)b) + "**") + num(e);
    }
    case 2: {
        const uint64_t n = near({32, 64, 128, 256, 512, 700});
        mpz_fac_ui(v.get_mpz_t(), n);
        return num(n) + "!";
    }
    case 3: {
        Z a = genZ(c, SMALL);
        const uint64_t n = near({128, 255, 256, 512, 1024, 4096, 32768, 65536, 131072, 262144});
        mpz_mul_2exp(v.get_mpz_t(), a.get_mpz_t(), n);
        return "(" + a.get_str() + ")<<" + num(n);
    }
    default: {
        Z a = genZ(c, MEDIUM);
        const uint64_t n = c.chance(1, 2) ? near({256, 65536, 1ull << 20, 1ull << 31, 1ull << 32, 1ull << 33, 1ull << 48, 1ull << 62}) : c.chance(1, 2) ? ~0ull - c.draw(300) : (1 + c.draw(5)) * (1ull << (32 + c.draw(28))) + c.draw(70);
        v = a;
        if (n > 1000000) v = a < 0 ? -1 : 0;
        else mpz_fdiv_q_2exp(v.get_mpz_t(), a.get_mpz_t(), n);
        return "(" + a.get_str() + ")>>" + num(n);
    }
    }
}
// mostly a text that is no expression
std::string damagedText(Case & c) {
    std::string t;
    size_t src = c.weighted({6, 2, 1});
    static const std::vector<std::string> toks = {"+", "-", "*", "/", "%", "!", "**", "&", "|", "^", "~", ">>", "<<", "(", ")", ",", "==", "!=", "<", "<=", ">", ">=", "?", ":", "=",
        "0", "1", "12", "007", "08", "0x", "0xfg", "0xF", "036xZ", "037x1", "01x1", "00x", "02x2", "1a", "1.5", "0.5", "1.", "0x1.1", "12.5.5", "id", "id(1)", "sub(1,2)", "sub(1)", "sub(1,2,3)", "zero()", "zero(1)", "_h(", "K", "nope",
        "K(1)", "id(", "sub(1,", "_h(,1)", "_h(1,)", " ", "\t", "\n", "@", "#", "$", "\\", "'", "\"", ";", ".", "[", "]", "{", "}", "\x80", "\xff", "\x7f", "\x01", "\v", "\f"};
    if (src == 0) {
        em::Gen g(c, env(), (int)c.draw(12));
        g.laxBranches = false;
        t = em::text(c, *g.gen(1 + (int)c.draw(4)).n);
        size_t k = 1 + c.draw(3);
        for (size_t i = 0; i < k && !t.empty(); ++i) {
            size_t p = c.draw(t.size() - 1);
            switch (c.weighted({4, 2, 4, 4, 2, 1, 1})) {
            case 0: t.erase(p, 1); break;
            case 1: t.insert(p, 1, t[p]); break;
            case 2: t.insert(p, c.pick(toks)); break;
            case 3: t.replace(p, 1, c.pick(toks)); break;
            case 4: t.resize(p); break;
            case 5: t.insert(p, 1, (char)(1 + c.draw(254))); break;
            default: { size_t q = c.draw(t.size() - 1); std::swap(t[p], t[q]); break; }
            }
        }
    } else if (src == 1) {
        size_t k = c.draw(9);
        while (k--) t += c.pick(toks);
    } else {
        size_t k = c.draw(12);
        while (k--) t += (char)(1 + c.draw(254));
    }
    if (c.chance(1, 40)) { size_t k = c.draw(120); t = std::string(k, "(-~!"[c.draw(3)]) + t + (c.chance(1, 2) ? std::string(c.draw(120), ')') : ""); }
    return t;
}
std::string brief(const std::string & s) { return pbt::quote(s.size() > 600 ? s.substr(0, 300) + " ... " + s.substr(s.size() - 300) : s); }
}  // namespace

// ------------------------------------------------------------------ C13
PBT_PROPERTY("C13", prop_eval,
    "A case builds a random syntax tree (1 to ~200 nodes, now and then some thousand, over all 17 binary operators, 3 prefix operators, factorial, conditionals, calls and constants; literals in decimal, octal, hexadecimal and radix 2..36 spelling with "
    "both letter cases), writes it with only the brackets its operator levels need plus some redundant ones and drawn white space, and compares the value of the text with a GMP evaluation of the tree; a branch that is not "
    "selected may hold a division by zero or a power that would never end. Non-trivial: the tree has at least 3 operators.",
    100000, 3000000) {
    setup();
    quiet();
    if (c.chance(1, 400)) {
        Z v;
        const int which = (int)c.weighted({2, 6, 2});
        const size_t n = which ? 0 : em::wideCount(c);
        std::string t = which == 0 ? em::wide(c, n, v) : which == 1 ? largeOperand(c, v) : em::nested(c, em::nestedDepth(c), v, true);
        if (which) {
            c.label(which == 1 ? "a large right operand" : "nested deeply");
            if (which == 1 && c.chance(1, 2)) { const long k = (long)c.draw(9); t = c.chance(1, 2) ? "(" + t + ")-" + std::to_string(k) : std::to_string(k) + "-(" + t + ")"; v = t[0] == '(' && t.back() != ')' ? Z(v - k) : Z(k - v); }
        } else if (c.chance(1, 3)) {  // as arguments of one call
            std::vector<Z> a;
            pbt::Rng r(c.bits(64));
            t = "_h(";
            for (size_t i = 0; i < n; ++i) { a.push_back(Z((unsigned long)(r.next() % 50))); t += (i ? "," : "") + a.back().get_str(); }
            t += ")";
            v = env().fns.at("_h").f(a);
            c.label("a call with hundreds to thousands of arguments");
        } else c.label("hundreds to thousands of operators");
        if (c.verbose) c.note("expression " + brief(t) + "\nexpected " + zs(v));
        c.nontrivial();
        c.stage("eval of a large text");
        Status own;
        BigInteger got = pgbn::expr::eval(t, &own);
        observe(c, got, v, ("value of " + brief(t)).c_str());
        c.checkf(!isBuiltinError(own.getInfo()), [&] { return "evaluating " + brief(t) + " left an error in the given status: " + own.getInfo(); });
        return;
    }
    int budget = c.chance(1, 10) ? 40 + (int)c.draw(c.chance(1, 25) ? 2500 : 160) : (int)c.draw(25);
    em::Gen g(c, env(), budget);
    em::Gen::R r = g.gen(1 + (int)c.draw(7));
    if (budget > 25) {  // a long chain on top, so that trees get large
        while (g.budget > 0) {
            auto q = g.gen(4);
            --g.budget;
            static const std::vector<std::string> os = {"+", "-", "^", "&", "|"};
            std::string o = c.pick(os);
            if (bitlen(r.v) > 4000) o = "&";
            Z v = em::Gen::calc(o, r.v, q.v);
            r = (budget > 200 ? !c.chance(1, 40) : c.chance(1, 2)) ? g.bin(o, std::move(r), std::move(q), v) : o == "-" ? g.bin(o, std::move(q), std::move(r), -v) : g.bin(o, std::move(q), std::move(r), v);
        }
    }
    std::string t = em::text(c, *r.n);
    if (c.verbose) c.note("expression " + brief(t) + "\nexpected " + zs(r.v));
    {   // the reference reader must agree with the writer
        em::Reader rd(env());
        em::Limits lim;
        lim.bits = 1 << 20;
        lim.pow = 1000;
        lim.fact = 1000;
        Z v;
        try { v = em::eval(*rd.read(t), env(), lim); } catch (em::Bad & b) { c.fail("HARNESS: reference reader rejects " + brief(t) + ": " + b.why); } catch (em::TooBig & b) { c.fail(std::string("HARNESS: too big: ") + b.why); }
        if (v != r.v) c.fail("HARNESS: reference reader disagrees with the writer on " + brief(t));
    }
    c.key(t);
    if (t.size() > 6000) c.heavy();
    if (g.ops >= 3) c.nontrivial();
    c.label(g.ops >= 32 ? "more than 32 operators" : g.ops >= 3 ? "3 to 32 operators" : "fewer than 3 operators");
    View vw;
    pgbn::StringArg arg = vw.get(c, t);
    c.stage("eval " + t);
    int how = (int)c.draw(2);
    Status own;
    own = ErrCode::SUCCESS;
    *Status::getInstance() = ErrCode::SUCCESS;
    BigInteger got = how == 0 ? pgbn::expr::eval(arg) : how == 1 ? pgbn::expr::eval(arg, &own) : pgbn::expr::eval(arg, Status::getInstance());
    observe(c, got, r.v, ("value of " + brief(t)).c_str());
    c.checkf(!isBuiltinError(own.getInfo()), [&] { return "evaluating " + brief(t) + " left an error in the given status: " + own.getInfo(); });
    c.checkf(!isBuiltinError(statusInfo()), [&] { return "evaluating " + brief(t) + " left an error in the thread's status: " + statusInfo(); });
}

// ------------------------------------------------------------------ C14, on real threads
PBT_PROPERTY("C14wide", prop_peval_wide,
    "A case evaluates a large text in parallel on real threads (1 to 40, or -1) and compares value, calls and status with the reference: a wide or deeply nested text, a call with up to 65560 arguments, an operation with a large right "
    "operand, or a generated tree of up to some hundred nodes over numbers of thousands of bits. Non-trivial: more than 100 operators or arguments.",
    2500, 60000) {
    setup();
    quiet();
    std::string t;
    Z v;
    switch (c.weighted({1, 2, 2, 2, 20})) {
    case 0: t = em::wide(c, em::wideCount(c), v); c.label("a wide text"); c.nontrivial(); break;
    case 1: t = em::nested(c, em::nestedDepth(c), v, true); c.label("nested deeply"); c.nontrivial(); break;
    case 2: {
        static const std::vector<uint64_t> k = {60, 125, 250, 254, 1020, 4090, 16380, 32760, 65532};
        const size_t n = c.pick(k) + c.draw(20);
        c.massive();
        std::vector<Z> a;
        pbt::Rng r(c.bits(64));
        t = "_h(";
        for (size_t i = 0; i < n; ++i) { a.push_back(Z((unsigned long)(r.next() % 50))); t += (i ? "," : "") + a.back().get_str(); }
        t += ")";
        v = env().fns.at("_h").f(a);
        c.label("a call with very many arguments");
        c.nontrivial();
        break;
    }
    case 3: t = largeOperand(c, v); c.label("a large right operand"); break;
    default: {
        em::Gen g(c, env(), 20 + (int)c.draw(c.chance(1, 6) ? 400 : 80));
        em::Gen::R r = g.gen(4 + (int)c.draw(8));
        while (g.budget > 0) {
            auto q = g.gen(5);
            --g.budget;
            static const std::vector<std::string> os = {"+", "-", "^", "&", "|"};
            std::string o = c.pick(os);
            if (bitlen(r.v) > 4000) o = "&";
            Z w = em::Gen::calc(o, r.v, q.v);
            r = g.bin(o, std::move(r), std::move(q), w);
        }
        t = em::text(c, *r.n);
        v = r.v;
        if (g.ops > 100) c.nontrivial();
        c.label("a generated tree");
    }
    }
    const int threads = c.chance(1, 8) ? -1 : c.chance(1, 6) ? 9 + (int)c.draw(31) : 1 + (int)c.draw(8);
    if (c.verbose) c.note("peval " + brief(t) + " with " + std::to_string(threads) + " threads\nexpected " + zs(v));
    c.stage("peval of a large text");
    Status own;
    own = ErrCode::SUCCESS;
    const bool given = c.chance(1, 2);
    *Status::getInstance() = ErrCode::SUCCESS;
    BigInteger got = given ? pgbn::expr::peval(t, threads, &own) : pgbn::expr::peval(t, threads);
    const std::string info = given ? own.getInfo() : statusInfo();
    observe(c, got, v, ("value of " + brief(t)).c_str());
    c.checkf(!isBuiltinError(info), [&] { return "evaluating " + brief(t) + " left an error in the status: " + info; });
}

// ------------------------------------------------------------------ C15
PBT_PROPERTY("C15", prop_malformed,
    "A case writes a valid expression and damages it 1 to 4 times (tokens or characters deleted, doubled, swapped, replaced by others including undefined names, wrong literals, brackets, lone '=' and arbitrary bytes, or the text "
    "cut off), or draws a text from the tokens or from bytes, and hands it as a view ending at unreadable memory to eval or peval. An independent reader says whether the text is an expression: if so the value must be "
    "right; if not, the result must be 0, the given status (or the thread's) must hold one of the library's error codes, and the library must stay usable. Non-trivial: the text is not an expression.",
    300000, 6000000) {
    setup();
    quiet();
    std::string t;
    if (c.chance(1, 3000)) {  // a defect far from the beginning
        Z v;
        const bool deep = c.chance(1, 2);
        t = deep ? em::nested(c, em::nestedDepth(c), v, true) : em::wide(c, em::wideCount(c), v);
        if (deep && c.chance(1, 3)) t.resize(c.draw(t.size() - 1));
        static const std::vector<std::string> bad = {")", " 1", "+", "=", "+nope", "+(1", "@", "-0x", "*id(", ",2", "?1", "+id()", "-sub(1)", "+08"};
        const std::string b = c.pick(bad);
        const size_t at = deep ? (c.chance(1, 4) ? t.size() : c.draw(t.size())) : c.draw(2) < 2 ? t.size() : 1;
        t.insert(at, b);
        em::Reader rd(env());
        std::string why;
        try { rd.read(t); } catch (em::Bad & x) { why = x.why; } catch (em::TooBig &) {}
        if (why.empty() || rd.dubious) return;
        if (c.verbose) c.note("text " + brief(t) + " is not an expression: " + why);
        c.nontrivial();
        c.label("a defect in a long text");
        c.stage("eval of a wide text");
        Status own;
        own = ErrCode::SUCCESS;
        BigInteger got = pgbn::expr::eval(t, &own);
        observe(c, got, 0, "value of a malformed long text", false);
        c.checkf(isBuiltinError(own.getInfo()), [&] { return "after evaluating the malformed text " + brief(t) + " (" + why + ") the status is " + pbt::quote(own.getInfo()); });
        return;
    }
    t = damagedText(c);
    bool valid = false;
    std::string why;
    Z v = 0;
    em::Reader rd(env());
    try {
        em::P n = rd.read(t);
        valid = true;
        v = em::eval(*n, env(), em::Limits{});
    } catch (em::Bad & b) { why = b.why; } catch (em::TooBig & b) {
        c.label("valid, left out: too expensive or not defined");
        return;
    }
    if (rd.dubious) { c.label("a spelling nothing prescribes"); if (valid || !c.chance(1, 4)) return; }
    c.key(t);
    if (!valid) c.nontrivial();
    c.label(valid ? "still valid" : why == "arity" ? "invalid: arity" : why == "undefined symbol" ? "invalid: name" : why == "character" ? "invalid: character" : why == "rest" ? "invalid: rest" : why == "no operand" ? "invalid: no operand"
            : why == "digit too large" || why == "no digits" || why == "radix" || why == "fraction" ? "invalid: literal" : "invalid: structure");
    if (c.verbose) c.note("text " + brief(t) + (valid ? " is an expression, value " + zs(v) : " is not an expression: " + why));
    View vw;
    pgbn::StringArg arg = vw.get(c, t);
    c.stage("eval " + t);
    int how = (int)c.draw(2);
    Status own;
    if (c.chance(1, 2)) own = ErrCode::SUCCESS;
    *Status::getInstance() = ErrCode::SUCCESS;
    Status * st = how == 0 ? nullptr : how == 1 ? &own : Status::getInstance();
    bool par = c.chance(1, 30);
    BigInteger got(77);
    if (par) got = pgbn::expr::peval(arg, (int)c.draw(3), st);
    else got = pgbn::expr::eval(arg, st);
    if (par) c.label("peval");
    observe(c, got, v, ("value of " + brief(t) + (valid ? "" : " (malformed: 0)")).c_str(), false);
    std::string info = how == 1 ? own.getInfo() : statusInfo();
    if (!valid) c.checkf(isBuiltinError(info), [&] { return "after evaluating the malformed text " + brief(t) + " (" + why + ") the status is " + pbt::quote(info); });
    else c.checkf(!isBuiltinError(info), [&] { return "after evaluating " + brief(t) + ", an expression, the status is " + pbt::quote(info); });
    if (!valid && why == "arity") c.label("arity");
    BigInteger again = pgbn::expr::eval("6*7");
    observe(c, again, 42, "6*7 evaluated afterwards", false);
}

// ------------------------------------------------------------------ C38
namespace {
using pgbn::infixExpr::TokenType;
// the codes with which a text may be refused because of this defect, and for a token that does not fit the one expected there
std::vector<pgbn::Enum> codesFor(const std::string & why, bool equals, const em::Reader & rd) {
    std::vector<pgbn::Enum> r;
    if (why == "radix") r = {ErrCode::PARSE_INFIXEXPR_RADIX_INVALID};
    if (why == "fraction" || rd.alsoFraction) r.push_back(ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL);
    if (rd.alsoDigits) r.push_back(ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR);
    if (!r.empty()) return r;
    if (why == "no digits" || why == "digit too large") return {ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR};
    if (why == "undefined symbol") return {ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED};
    if (why == "character") return {equals ? ErrCode::PARSE_INFIXEXPR_EQU_INVALID : ErrCode::PARSE_INFIXEXPR_CHAR_INVALID};
    if (why == "arity") return {ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH};
    return {ErrCode::PARSE_INFIXEXPR_BAD_TOKEN};
}
const std::map<std::string, TokenType> & expectedTokens() {
    static const std::map<std::string, TokenType> t = {{"no closing bracket", TokenType::RIGHTBRACKET}, {"no colon", TokenType::COLON}, {"no comma", TokenType::COMMA}, {"function without call", TokenType::LEFTBRACKET},
        {"no operand", TokenType::LITERAL}, {"rest", TokenType::INVALID}};
    return t;
}
}  // namespace
PBT_PROPERTY("C38", prop_diagnosis,
    "A case makes one to three texts as for C15, evaluates each (eval or peval with the status of the thread, a given one or none, or the parser itself), and, if the independent reader refuses the text, compares the code that is reported with the "
    "kind of its first defect in reading order (characters and literals before structure); for a token that does not fit, the context of the thread's status must name the token expected there, also after a valid text and until the next "
    "such report. The handlers of the built-in codes count: that of the reported code runs once, or, when another status was given, for each of the two, and no other runs. Non-trivial: a text is refused after its first token.",
    300000, 5000000) {
    setup();
    static std::map<pgbn::Enum, int> ran;
    for (pgbn::Enum e = 1; e <= 16; ++e) {
        const std::string info = Status::getInfo(e);
        Status::registe(e, info, [](pgbn::Enum e) { ++ran[e]; }, e);
    }
    size_t n = 1 + c.draw(2);
    std::string lastWhy;
    while (n--) {
        std::string t = c.chance(1, 6) ? std::string("1+") + std::to_string(c.draw(9)) : damagedText(c), why;
        em::Reader rd(env());
        try { em::P p = rd.read(t); (void)em::eval(*p, env(), em::Limits{}); } catch (em::Bad & b) { why = b.why; } catch (em::TooBig &) { return; }
        if (rd.dubious) return;
        const int how = (int)c.draw(4);
        if (c.verbose) c.note("text " + brief(t) + (why.empty() ? " is an expression" : " is not an expression: " + why) + ", route " + std::to_string(how));
        c.key(t);
        c.stage("eval " + t);
        Status own;
        own = ErrCode::SUCCESS;
        *Status::getInstance() = ErrCode::SUCCESS;
        ran.clear();
        std::vector<pgbn::Enum> ok = why.empty() ? std::vector<pgbn::Enum>{} : codesFor(why, rd.badAt < t.size() && t[rd.badAt] == '=', rd);
        auto named = [&](const std::string & info) { for (auto e : ok) if (info == infoOf(e)) return true; return false; };
        if (how == 4) {
            pgbn::infixExpr::NodePool pool;
            pg::base::StringReadStream st(t);
            pgbn::infixExpr::ExprParser parser(st, *pgbn::infixExpr::Hooks::getInstance(), &pool);
            auto * root = parser.parse();
            const pgbn::Enum e = parser.errCode();
            if (why.empty()) c.checkf(root && e == ErrCode::SUCCESS, [&] { return "the parser refuses " + brief(t) + " with code " + std::to_string(e); });
            else c.checkf(!root && std::count(ok.begin(), ok.end(), e) == 1, [&] { return "the parser reports code " + std::to_string(e) + " for " + brief(t) + " (" + why + "), expected " + std::to_string(ok[0]); });
        } else {
            if (how == 0) (void)pgbn::expr::eval(t);
            else if (how == 1) (void)pgbn::expr::eval(t, &own);
            else if (how == 2) (void)pgbn::expr::eval(t, Status::getInstance());
            else (void)pgbn::expr::peval(t, 1 + (int)c.draw(1), &own);
            const std::string info = how == 1 || how == 3 ? own.getInfo() : statusInfo();
            if (!why.empty()) c.checkf(named(info), [&] { return "after " + brief(t) + " (" + why + ") the status is " + pbt::quote(info) + ", expected " + pbt::quote(infoOf(ok[0])); });
        }
        const bool two = how == 1 || how == 3;
        int inAll = 0, named_ = 0;
        for (auto & r : ran) { if (why.empty() || r.first >= ErrCode::PARSE_INFIXEXPR_SHIFTOP_INVALID) inAll += r.second; if (std::count(ok.begin(), ok.end(), r.first)) named_ += r.second; }
        c.checkf(why.empty() ? inAll == 0 : inAll == named_ && named_ >= 1 && named_ <= (two ? 2 : 1), [&] {
            return "handlers of error codes ran " + std::to_string(inAll) + " times, those of the expected code " + std::to_string(named_) + " times, for " + brief(t) + (why.empty() ? ", an expression" : " (" + why + ")"); });
        if (!why.empty()) {
            const std::string mine = Status::getInstance()->getInfo();
            c.checkf(named(mine), [&] { return "after " + brief(t) + " (" + why + ") the status of the thread is " + pbt::quote(mine) + ", expected " + pbt::quote(infoOf(ok[0])); });
            if (rd.p > 0 || (rd.badAt != (size_t)-1 && rd.badAt > 0)) c.nontrivial();
            c.label(("refused: " + why).c_str());
        }
        if (expectedTokens().count(why)) lastWhy = why;
        if (!lastWhy.empty()) {
            auto it = expectedTokens().find(lastWhy);
            using Context = std::tuple<TokenType, std::string>;
            TokenType got = TokenType::ADD;
            try { got = std::get<0>(Status::getInstance()->context<Context>()); } catch (const std::bad_any_cast &) { c.fail("after " + brief(t) + " the thread's status has no context that names a token"); }
            c.checkf(got == it->second, [&] { return "after " + brief(t) + " (last misfit: " + lastWhy + ") the context of the thread's status names token type " + std::to_string((int)got) + ", expected " + std::to_string((int)it->second); });
        }
    }
}

// ------------------------------------------------------------------ C16
namespace {
struct Rec { int calls = 0; std::vector<std::vector<Z>> args; };
}
PBT_PROPERTY("C16", prop_builtin,
    "A case registers, replaces and mixes functions (0 to 5, rarely 70, arguments, or any number) and constants under drawn names, calls them nested in each other with drawn argument expressions through eval (sometimes peval), and "
    "compares the value and the recorded argument lists with the reference: each call runs once, with its arguments in order, the latest registration counts, a name may change between function and constant, functions may "
    "write to their arguments; a call with a wrong number of arguments or an undefined name runs nothing and leaves an error in the status. Non-trivial: at least two calls ran, or a call had the wrong number of arguments.",
    80000, 1500000) {
    quiet();
    em::Env e;
    std::map<std::string, std::shared_ptr<Rec>> recs;
    std::string log;
    std::vector<std::string> names = {"f", "F", "f1", "f_", "_f", "ff", "abs", "a", "verylongname_with_digits_0123456789", "e", "x", "b16", "Z9"};
    if (c.chance(1, 50)) {  // long names that differ only at their end
        const size_t k = c.chance(1, 2) ? 254 + c.draw(3) : c.chance(1, 4) ? 65534 + c.draw(3) : 1 + c.draw(5000);
        c.label("long names");
        c.heavy();
        for (const char * e : {"p", "pp", "pq", "ppp"}) names.push_back(std::string(k, 'n') + e);
    }
    size_t nreg = 1 + c.draw(6);
    // names of an earlier case must not be visible to the reference, so every case gives all names a known meaning
    auto regFn = [&](const std::string & n, int arity, int kind, long salt) {
        auto rec = std::make_shared<Rec>();
        recs[n] = rec;
        auto f = [kind, salt](const std::vector<Z> & a) {
            Z r = salt;
            switch (kind) {
            case 0: for (auto & x : a) r = r * 1009 + cut(x); break;
            case 1: for (size_t i = a.size(); i--;) r = r * 31 - cut(a[i]); break;
            case 2: return a.empty() ? r : a[salt >= 0 ? salt % a.size() : 0];
            default: r = (long)a.size(); break;
            }
            return cut(r);
        };
        e.consts.erase(n);
        e.fns[n] = em::Fn{arity, f};
        auto native = [f, rec](std::vector<Value> & a) {
            std::vector<Z> z;
            for (auto & v : a) z.push_back(zOfValue(v));
            Z r = f(z);
            __atomic_add_fetch(&rec->calls, 1, __ATOMIC_SEQ_CST);
            static std::mutex m;
            { std::lock_guard<std::mutex> _(m); rec->args.push_back(z); }
            for (auto & v : a) v = Value(-5);  // what a function does with its arguments is nobody else's business
            a.clear();
            return valueOf(r);
        };
        SymbolTable::getInstance()->registe(n, SymbolTable::Symbol{Func{native, arity}});
        log += n + "/" + std::to_string(arity) + " ";
    };
    for (size_t i = 0; i < names.size(); ++i) define(e, names[i], Z((long)i * 1000 + 7));
    for (size_t i = 0; i < nreg; ++i) {
        std::string n = c.pick(names);
        if (c.chance(1, 4)) { Z v = genZ(c, SMALL); define(e, n, v); recs.erase(n); log += n + "=" + zs(v) + " "; }
        else regFn(n, c.chance(1, 4) ? -1 : c.chance(1, 40) ? (int)c.draw(70) : (int)c.draw(5), (int)c.draw(3), (long)c.draw(9));
    }
    if (c.chance(1, 3000)) {  // very many names at a time
        static const std::vector<uint64_t> sizes = {250, 1000, 4090, 65530};
        const size_t k = c.pick(sizes) + c.draw(20);
        const long salt = (long)c.draw(1000);
        c.massive();
        for (size_t i = 0; i < k; ++i) SymbolTable::getInstance()->registe("mn_" + std::to_string(i), SymbolTable::Symbol{Value((std::int64_t)i * 3 + salt)});
        std::string t = "0";
        Z v = 0;
        pbt::Rng r(c.bits(64));
        for (int i = 0; i < 40; ++i) { const size_t j = i < 5 ? (size_t)i : i < 10 ? k - 1 - (size_t)(i - 5) : r.next() % k; t += (i % 2 ? "+mn_" : "-mn_") + std::to_string(j); if (i % 2) v += (long)j * 3 + salt; else v -= (long)j * 3 + salt; }
        if (c.verbose) c.note(std::to_string(k) + " constants, then " + t);
        c.label("very many names");
        c.nontrivial();
        c.stage("eval " + t);
        BigInteger got = pgbn::expr::eval(t);
        observe(c, got, v, ("with " + std::to_string(k) + " registered constants the value of " + t).c_str(), false);
        return;
    }
    em::Gen g(c, e, 4 + (int)c.draw(20));
    if (e.fns.empty()) regFn("f", 2, 0, 1);
    em::Gen g2(c, e, 4 + (int)c.draw(20));
    // mostly calls
    std::function<em::P(int)> call = [&](int depth) -> em::P {
        if (depth <= 0 || c.chance(1, 4)) { g2.budget = 3; return g2.leaf().n; }
        auto it = e.fns.begin();
        std::advance(it, c.draw(e.fns.size() - 1));
        em::P n = std::make_unique<em::Node>();
        n->kind = 'f';
        n->op = it->first;
        size_t k = it->second.arity >= 0 ? it->second.arity : c.chance(1, 40) ? (c.chance(1, 20) ? (c.chance(1, 8) ? 65530 : 250) + c.draw(12) : c.draw(120)) : c.draw(5);
        if (k > 200) { c.massive(); pbt::Rng r(c.bits(64)); for (size_t i = 0; i < k; ++i) n->ch.push_back(em::lit(c, Z((unsigned long)(r.next() % 90)), 0)); return n; }
        for (size_t i = 0; i < k; ++i) n->ch.push_back(c.chance(1, 4) ? [&] { g2.budget = 3; return g2.gen(2).n; }() : call(k > 8 ? (c.chance(1, 30) ? 1 : 0) : depth - 1));
        return n;
    };
    em::P root = call(1 + (int)c.draw(3));
    if (c.chance(1, 3)) { em::P b = std::make_unique<em::Node>(); b->kind = 'b'; b->op = c.chance(1, 2) ? "-" : "*"; b->ch.push_back(std::move(root)); b->ch.push_back(call(2)); root = std::move(b); }
    // a wrong number of arguments, or an unknown name, somewhere
    int damage = (int)c.weighted({5, 2, 1});
    std::string undefinedName;
    if (damage) {
        std::vector<em::Node *> calls;
        std::function<void(em::Node *)> walk = [&](em::Node * n) { if (n->kind == 'f') calls.push_back(n); for (auto & ch : n->ch) walk(ch.get()); };
        walk(root.get());
        if (calls.empty()) damage = 0;
        else {
            em::Node * n = c.pick(calls);
            if (damage == 2) { n->op = c.chance(1, 2) ? "nosuch" : n->op + "_nosuch"; }
            else if (!n->ch.empty() && c.chance(1, 2)) n->ch.pop_back();
            else { size_t k = c.chance(1, 40) ? (c.chance(1, 8) ? 65536 : 256) * (1 + c.draw(1)) : 1 + c.draw(2); if (k > 3) { c.massive(); c.label("far too many arguments"); } while (k--) n->ch.push_back(em::lit(c, 3, 0)); }
        }
    }
    std::string t = em::text(c, *root);
    bool valid = false;
    std::string why;
    std::map<std::string, std::vector<std::vector<Z>>> expectArgs;
    Z v = 0;
    try {
        em::Env tr;  // the reference evaluation records the calls
        tr.consts = e.consts;
        for (auto & f : e.fns) {
            std::string n = f.first;
            auto inner = f.second.f;
            tr.fns[n] = em::Fn{f.second.arity, [&expectArgs, n, inner](const std::vector<Z> & a) { expectArgs[n].push_back(a); return inner(a); }};
        }
        em::Reader rd(tr);
        em::P n = rd.read(t);
        valid = true;
        v = em::eval(*n, tr, em::Limits{});
    } catch (em::Bad & b) { why = b.why; } catch (em::TooBig & b) { c.label("left out: too expensive"); return; }
    size_t total = 0;
    for (auto & x : expectArgs) total += x.second.size();
    if (c.verbose) c.note("registered " + log + "\nexpression " + brief(t) + (valid ? "\nexpected " + zs(v) + " after " + std::to_string(total) + " calls" : "\nnot an expression: " + why));
    c.label(valid ? "valid" : why == "arity" ? "wrong number of arguments" : "undefined name");
    if (valid ? total >= 2 : why == "arity") c.nontrivial();
    Status own;
    *Status::getInstance() = ErrCode::SUCCESS;
    bool par = c.chance(1, 25);
    c.stage("eval " + t);
    BigInteger got = par ? pgbn::expr::peval(t, 1 + (int)c.draw(2), &own) : pgbn::expr::eval(t, &own);
    if (par) c.label("peval");
    for (auto & r : recs) {
        auto want = valid ? expectArgs[r.first] : std::vector<std::vector<Z>>{};
        auto have = r.second->args;
        if (par) { std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end()); }
        c.checkf(have.size() == want.size(), [&] { return r.first + " ran " + std::to_string(have.size()) + " times instead of " + std::to_string(want.size()) + " in " + brief(t); });
        c.checkf(have == want, [&] { return r.first + " got other arguments than written in " + brief(t); });
    }
    observe(c, got, v, ("value of " + brief(t)).c_str());
    if (!valid) {
        std::string info = own.getInfo();
        c.checkf(isBuiltinError(info), [&] { return "after the malformed call " + brief(t) + " the status is " + pbt::quote(info); });
        if (why == "arity") c.checkf(info == infoOf(ErrCode::PARSE_INFIXEXPR_BUILTINFUNC_CALL_NOT_MATCH), [&] { return "a wrong number of arguments in " + brief(t) + " is reported as " + pbt::quote(info); });
        if (why == "undefined symbol") c.checkf(info == infoOf(ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED), [&] { return "an undefined name in " + brief(t) + " is reported as " + pbt::quote(info); });
    }
    // the table answers with what was registered last
    for (auto & n : names) {
        auto * s = SymbolTable::getInstance()->get(n);
        c.check(s != nullptr, "symbol " + n + " is not found");
        bool fn = e.fns.count(n);
        c.check(s->is<Func>() == fn && s->is<Value>() == !fn, "symbol " + n + " is not what was registered last");
        if (fn) c.check(s->as<Func>().argCount == e.fns[n].arity, "symbol " + n + ": wrong number of arguments");
        else c.check(zOfValue(s->as<Value>()) == e.consts[n], "symbol " + n + ": wrong value");
    }
    c.check(SymbolTable::getInstance()->get("nosuch") == nullptr, "an unregistered name is found");
}

// ------------------------------------------------------------------ C40
// Registered functions, literal hooks and status handlers that use the library themselves.
namespace {
namespace re {
Z zOf(const BigInteger & x) { return Z(x.toString(16), 16); }
struct Skip {};    // the reference cannot tell
struct Thrown {};  // a function of the reference throws
struct Body { std::string text; int route, threads, join; };
struct World {
    em::Env e;
    std::mutex m;
    std::string wrong;
    std::vector<std::pair<Value, Z>> kept;
    std::atomic<int> pevals{0}, nested{0}, refused{0}, handled{0}, hooked{0}, deepest{0};
    size_t refCalls = 0;
    void bad(const std::string & s) { std::lock_guard<std::mutex> _(m); if (wrong.empty()) wrong = s; }
};
inline thread_local int depth = 0, inHandler = 0, inHook = 0, inside = 0;
struct Deeper { int & d; explicit Deeper(int & d) : d(d) { ++d; } ~Deeper() { --d; } };

// what the text stands for; a text that is no expression: 0
Z value(World & w, const std::string & t, bool * refused = nullptr) {
    if (++w.refCalls > 600) throw Skip{};
    em::Reader rd(w.e);
    em::P p;
    try { p = rd.read(t); } catch (em::Bad &) { if (rd.dubious) throw Skip{}; if (refused) *refused = true; return 0; } catch (em::TooBig &) { throw Skip{}; }
    if (rd.dubious) throw Skip{};
    if (refused) *refused = false;
    try { return em::eval(*p, w.e, em::Limits{}); } catch (em::TooBig &) { throw Skip{}; }
}
bool refusedBy(World & w, const std::string & t) {
    em::Reader rd(w.e);
    try { rd.read(t); return false; } catch (em::Bad &) { return true; }
}
Z byLibrary(World & w, const std::string & t, const Body & b, bool own) {
    Deeper _(depth);
    if (depth > w.deepest) w.deepest = depth;
    ++w.nested;
    const bool refused = refusedBy(w, t);
    if (refused) ++w.refused;
    Status st;
    Z v;
    int route = b.route;
    if (route == 2 && ++w.pevals > 2) { --w.pevals; route = 1; }
    if (route == 2) {
        struct Less { World & w; ~Less() { --w.pevals; } } less{w};
        v = zOf(pgbn::expr::peval(t, b.threads, &st));
    } else if (route == 3) {
        pgbn::infixExpr::NodePool pool;
        pg::base::StringReadStream s(t);
        pgbn::infixExpr::ExprParser parser(s, *pgbn::infixExpr::Hooks::getInstance(), &pool);
        auto * root = parser.parse();
        if ((root == nullptr) != refused || (parser.errCode() == ErrCode::SUCCESS) == refused) w.bad("a parser of its own inside a callback " + std::string(refused ? "accepts " : "refuses ") + brief(t));
        if (root) v = zOfValue(root->evalCallback(root, false));
    } else if (route == 0 && own) v = zOf(pgbn::expr::eval(t));
    else v = zOf(pgbn::expr::eval(t, &st));
    if (route != 3 && !(route == 0 && own) && isBuiltinError(st.getInfo()) != refused) w.bad("the status given to the evaluation of " + brief(t) + " inside a callback says " + pbt::quote(st.getInfo()));
    return v;
}
Z joined(const Body & b, const Z & inner, const std::vector<Z> & a) {
    Z x = a.empty() ? Z(3) : cut(a[0]), y = a.size() < 2 ? Z(1) : cut(a[1]);
    switch (b.join) {
    case 0: return cut(inner) + x * 3 - y;
    case 1: return cut(inner) - x;
    case 2: return inner;
    default: return (cut(inner) ^ x) + y;
    }
}
std::string spelled(const Z & v) { return "(" + v.get_str() + ")"; }
// the text that the call evaluates
std::string textOf(const Body & b, const std::vector<Z> & a) {
    std::string t = b.text;
    for (size_t i = 0; i < 2; ++i) {
        const std::string name = i ? "par_B" : "par_A", v = spelled(i < a.size() ? cut(a[i]) : Z(5));
        for (size_t p; (p = t.find(name)) != std::string::npos;) t.replace(p, name.size(), v);
    }
    return t;
}
}  // namespace re
}  // namespace
PBT_PROPERTY("C40", prop_reentrant,
    "A case registers 1 to 4 functions which evaluate further expressions while they run (sequentially, in parallel, with a parser of their own, with the thread's status or their own; texts built from their arguments, some of them malformed, some calling "
    "the functions registered before, some calling a function that throws, which the caller catches), one that calls itself through its text (up to some 70 deep), and one that hands out one shared value; now and then also a hook for literals and handlers of "
    "the status codes (success included) that evaluate expressions and calculate. The value of an expression over all of these, evaluated by each route, must be that of the reference, every argument and result kept by a function must keep its value, "
    "and a status given to an inner or outer evaluation must tell about that evaluation only. Also the handler of a division by zero calculates. Non-trivial: at least 2 inner evaluations.",
    30000, 800000) {
    setup();
    quiet();
    auto w = std::make_shared<re::World>();
    auto & e = w->e;
    e = env();
    // all names have a plain meaning before the case gives them another, and get it back at its end
    static const std::vector<std::pair<std::string, int>> plain = {{"rf0", 1}, {"rf1", 1}, {"rf2", 1}, {"rf3", 1}, {"rrec", 1}, {"rthrow", 1}, {"rshared", 1}};
    struct Back { void now(em::Env & e) { for (auto & n : plain) define(e, n.first, n.second, [](const std::vector<Z> & a) { return a[0]; }); } ~Back() { em::Env none; now(none); } } back;
    back.now(e);
    std::string log;
    const bool throwing = c.chance(1, 6), handlers = c.chance(1, 4), hook = c.chance(1, 4), fresh = c.chance(1, 6);
    auto reg = [&](const std::string & n, int arity, std::function<Z(const std::vector<Z> &)> ref, std::function<Value(std::vector<Value> &)> native) {
        e.fns[n] = em::Fn{arity, ref};
        SymbolTable::getInstance()->registe(n, SymbolTable::Symbol{Func{native, arity}});
    };
    // hands out one value, which must stay what it is
    const Z sharedZ = genZ(c, SMALL);
    const Value sharedV = valueOf(sharedZ);
    reg("rshared", -1, [sharedZ](const std::vector<Z> &) { return sharedZ; }, [sharedV](std::vector<Value> &) { return sharedV; });
    if (throwing) reg("rthrow", 1, [](const std::vector<Z> &) -> Z { throw re::Thrown{}; }, [](std::vector<Value> &) -> Value { throw re::Thrown{}; });
    std::vector<std::string> names;
    auto callOf = [&](const std::string & n) {
        em::Gen g(c, env(), 1);
        std::string t = n + "(";
        const int ar = e.fns.at(n).arity;
        const size_t k = ar < 0 ? c.draw(3) : (size_t)ar;
        for (size_t i = 0; i < k; ++i) { g.budget = 1; t += (i ? "," : "") + (c.chance(1, 8) && !names.empty() ? "rshared()" : em::text(c, *g.gen(1).n)); }
        return t + ")";
    };
    auto someText = [&](bool params) {
        em::Gen g(c, env(), 1 + (int)c.draw(5));
        std::string t = "(" + em::text(c, *g.gen(2).n) + ")";
        static const std::vector<std::string> ops = {"+", "-", "*", "&", "|", "^", "<", "==", ">="};
        size_t k = c.draw(3);
        while (k--) {
            std::string x;
            switch (c.weighted({2, 3, 1, 1, 1})) {
            case 0: x = params ? c.chance(1, 3) ? "par_B" : "par_A" : std::to_string(c.draw(99)); break;
            case 1: x = names.empty() ? "K" : callOf(c.pick(names)); break;
            case 2: x = names.empty() ? "rshared(1)" : "((1<0)?" + callOf(c.pick(names)) + ":rshared(1))"; break;
            case 3: x = "rshared()"; break;
            default: x = throwing && params ? "rthrow(" + std::to_string(c.draw(9)) + ")" : "id(7)"; break;
            }
            const std::string o = c.pick(ops);
            t = c.chance(1, 2) ? t + o + x : x + o + t;
            if (c.chance(1, 2)) t = "(" + t + ")";
        }
        return t;
    };
    const size_t nf = 1 + c.draw(3);
    for (size_t i = 0; i < nf; ++i) {
        const std::string n = "rf" + std::to_string(i);
        const int arity = c.chance(1, 5) ? -1 : (int)c.draw(3);
        std::vector<re::Body> bodies;
        size_t k = 1 + c.draw(1);
        while (k--) {
            re::Body b;
            b.text = someText(true);
            if (c.chance(1, 6)) { std::string d = damagedText(c); b.text = c.chance(1, 2) ? d : b.text + c.pick(std::vector<std::string>{")", "+", " 1", "(", "@", "1a", "?", "+nosuch", "!!=", "+id()", "+09"}); }
            b.route = (int)c.weighted({3, 4, 2, 2});
            if (fresh && b.route == 2) b.route = 1;  // names are registered while nothing runs in parallel
            b.threads = 1 + (int)c.draw(2);
            b.join = (int)c.draw(3);
            bodies.push_back(b);
            log += n + "/" + std::to_string(arity) + " evaluates " + brief(b.text) + " by route " + std::to_string(b.route) + "\n";
        }
        const bool keepArgs = c.chance(1, 3), addName = fresh && c.chance(1, 2);
        const std::string newName = "rn" + std::to_string(i);
        auto which = [bodies](const std::vector<Z> & a) { Z s = 0; for (auto & x : a) s += x; Z r; mpz_fdiv_r_ui(r.get_mpz_t(), s.get_mpz_t(), bodies.size()); return bodies[r.get_ui()]; };
        re::World * p = w.get();
        reg(n, arity, [which, p](const std::vector<Z> & a) {
            const re::Body b = which(a);
            Z v;
            try { v = re::value(*p, re::textOf(b, a)); } catch (re::Thrown &) { v = 555; }
            return re::joined(b, v, a);
        }, [which, p, keepArgs, addName, newName](std::vector<Value> & args) {
            std::vector<Z> a;
            for (auto & v : args) a.push_back(zOfValue(v));
            const re::Body b = which(a);
            if (keepArgs) { std::lock_guard<std::mutex> _(p->m); for (size_t i = 0; i < args.size() && p->kept.size() < 60; ++i) p->kept.push_back({args[i], a[i]}); }
            if (addName) {  // a name nobody else uses, then used
                SymbolTable::getInstance()->registe(newName, SymbolTable::Symbol{Value((std::int64_t)77)});
                if (re::zOf(pgbn::expr::eval(newName + "*2", nullptr)) != 154) p->bad("a constant registered inside a call is not read back");
            }
            Z v;
            const std::string t = re::textOf(b, a);
            try { v = re::byLibrary(*p, t, b, true); } catch (re::Thrown &) { v = 555; }
            for (size_t i = 0; i < args.size(); ++i) if (zOfValue(args[i]) != a[i]) p->bad("an argument changed while its call evaluated " + brief(t));
            Value r = valueOf(re::joined(b, v, a));
            if (keepArgs) { std::lock_guard<std::mutex> _(p->m); if (p->kept.size() < 60) p->kept.push_back({r, re::joined(b, v, a)}); }
            return r;
        });
        names.push_back(n);
    }
    // calls itself
    {
        re::Body b;
        b.route = (int)c.weighted({2, 4, fresh ? 0 : 1, 2});
        b.threads = 1 + (int)c.draw(1);
        static const std::vector<std::string> spell = {"par_A<1?par_B:rrec(par_A-1,(par_B^par_A)*3)", "par_A>0?7-rrec(par_A-1,par_B+par_A):par_B", "(par_A<=0)*par_B+(par_A<=0?0:rrec(par_A-1,par_B-1)*2)", "(par_A<2?par_A:rrec(par_A-1,par_B+1)-par_A)^par_B"};
        b.text = c.pick(spell);
        re::World * p = w.get();
        reg("rrec", 2, [b, p](const std::vector<Z> & a) { return cut(re::value(*p, re::textOf(b, {Z(a[0] % 80), a[1]}))); }, [b, p](std::vector<Value> & args) {
            std::vector<Z> a;
            for (auto & v : args) a.push_back(zOfValue(v));
            return valueOf(cut(re::byLibrary(*p, re::textOf(b, {Z(a[0] % 80), a[1]}), b, true)));
        });
        log += "rrec/2 evaluates " + b.text + " by route " + std::to_string(b.route) + "\n";
    }
    const std::string extra = someText(false);
    std::string t = someText(false);
    const size_t calls = c.draw(2);
    for (size_t i = 0; i < calls; ++i) t = (c.chance(1, 2) ? t + c.pick(std::vector<std::string>{"+", "-", "^", "*"}) + callOf(c.pick(names)) : callOf(c.pick(names)) + "-(" + t + ")");
    if (c.chance(1, 3)) { const long k = c.chance(1, 6) ? 20 + (long)c.draw(50) : (long)c.draw(9); t = "rrec(" + std::to_string(k) + "," + std::to_string(c.draw(99)) + ")" + c.pick(std::vector<std::string>{"+", "-", "^"}) + t; if (k > 15) c.heavy(); }
    if (c.chance(1, 20)) t += c.pick(std::vector<std::string>{")", "+", " 1", "(", "@", "+nosuch"});

    // reference
    Z want, extraWant;
    bool refused = false;
    try { extraWant = re::value(*w, extra); want = re::value(*w, t, &refused); } catch (re::Skip &) { c.label("left out: too expensive"); return; } catch (re::Thrown &) { c.label("left out: throws"); return; }

    const int route = (int)c.weighted({4, 2, 3, 2});
    const int threads = 1 + (int)c.draw(3);
    if (c.verbose) c.note(log + (handlers ? "status handlers that calculate\n" : "") + (hook ? "a hook for literals that evaluates\n" : "") + "expression " + brief(t) + " by route " + std::to_string(route) + "\nexpected " + (refused ? "a refusal" : zs(want)));
    c.key(t + log);

    // status handlers and the hook
    static const std::string info0 = Status::getInfo(0);
    static const pgbn::Callback cb0 = Status::getCallback(0);
    struct Restore {
        decltype(pgbn::infixExpr::Hooks::literal2Value) savedHook = pgbn::infixExpr::Hooks::getInstance()->literal2Value;
        ~Restore() { pgbn::infixExpr::Hooks::getInstance()->literal2Value = savedHook; Status::registe(0, info0, cb0); quiet(); }
    } restore;
    const Z hz = genZ(c, MEDIUM), hz2 = Z(abs(genZ(c, SMALL)) + 1);
    re::World * p = w.get();
    auto work = [p, hz, hz2, handlers](const char * where) {
        re::Deeper _(re::inHandler);
        const Z q = hz / hz2, r = hz % hz2;
        BigInteger A = fromZ(hz), B = fromZ(hz2);
        if (re::zOf(A / B) != q || re::zOf(A % B) != r || re::zOf(A * B) != hz * hz2 || re::zOf(A + B) != hz + hz2) p->bad(std::string("arithmetic is wrong inside ") + where);
        Status st;
        const std::string t = "(" + hz.get_str() + ")*(" + hz2.get_str() + ")-5";
        if (re::zOf(pgbn::expr::eval(t, &st)) != hz * hz2 - 5) p->bad(std::string("the value of an expression is wrong inside ") + where);
        if (isBuiltinError(st.getInfo())) p->bad(std::string("an expression is refused inside ") + where + ": " + brief(t));
        Status bad;
        const int before = re::inside;
        if (re::zOf(pgbn::expr::eval("1+", &bad)) != 0 || !isBuiltinError(bad.getInfo())) p->bad(std::string("1+ is not refused inside ") + where);
        if (handlers && re::inside == before) p->bad(std::string("no handler of an error runs inside ") + where);
    };
    if (handlers)
        for (pgbn::Enum code = 0; code <= 16; ++code)
            Status::registe(code, Status::getInfo(code), [p, work, code] {
                if (re::inHandler && code != 0) ++re::inside;
                if (re::inHandler || re::inHook || p->handled >= 40) return;
                ++p->handled;
                try { work(code == 0 ? "the handler of success" : "the handler of an error"); } catch (...) { p->bad("something is thrown inside a handler"); }
            });
    if (hook) {
        auto saved = restore.savedHook;
        pgbn::infixExpr::Hooks::getInstance()->literal2Value = [p, saved, extra](Value & v, int radix, const std::string & before, const std::string & after) {
            if (!re::inHook && !re::inHandler && p->hooked < 40) {
                re::Deeper _(re::inHook);
                ++p->hooked;
                Status st;
                const Z a = re::zOf(pgbn::expr::eval("12*(3-0x1F)+" + std::to_string(radix) + "*2", &st));
                if (a != 12 * (3 - 31) + radix * 2 || isBuiltinError(st.getInfo())) p->bad("the value of an expression is wrong inside the hook for literals");
                const Z b = re::zOf(pgbn::expr::eval("(1", &st));
                if (b != 0 || !isBuiltinError(st.getInfo())) p->bad("(1 is not refused inside the hook for literals");
            }
            return saved(v, radix, before, after);
        };
    }
    c.stage("eval " + t);
    if (c.chance(1, 6)) {  // a division by zero whose handler calculates
        Z a = genZ(c, MEDIUM);
        BigInteger A = fromZ(a), share = A, B = fromZ(0);
        int ran = 0;
        {
            struct Back { std::string info = Status::getInfo(ErrCode::DIVBY0); ~Back() { Status::registe(ErrCode::DIVBY0, info); } } back;
            Status::registe(ErrCode::DIVBY0, back.info, [&] { ++ran; if (re::inHandler) return; try { work("the handler of a division by zero"); } catch (...) { p->bad("something is thrown inside a handler"); } });
            switch (c.draw(3)) {
            case 0: { BigInteger r = A / B; break; }
            case 1: { BigInteger r = A % B; break; }
            case 2: A /= B; break;
            default: (void)pgbn::expr::eval("(" + a.get_str() + ")/0"); break;
            }
        }
        c.label("division by zero, handler calculates");
        c.check(ran == 1, "the handler of a division by zero ran " + std::to_string(ran) + " times");
        c.check(w->wrong.empty(), w->wrong);
        observe(c, B, 0, "the zero divisor");
        observe(c, share, a, "a copy of the dividend");
    }
    if (throwing && c.chance(1, 12)) {  // again and again
        const size_t k = 1 + c.draw(c.chance(1, 4) ? 600 : 60);
        c.heavy();
        c.label("many calls that throw");
        const bool par = !fresh && c.chance(1, 10);
        for (size_t i = 0; i < (par ? k / 20 + 1 : k); ++i) {
            bool threw = false;
            try { if (par) (void)pgbn::expr::peval("id(rthrow(1))+id(3)", 1); else (void)pgbn::expr::eval("1-id(2+rthrow(1))"); } catch (re::Thrown &) { threw = true; }
            c.check(threw, "what a function throws does not reach the caller of the evaluation");
        }
    }
    Status own;
    Z got;
    const int before = w->nested;
    if (route == 0) got = re::zOf(pgbn::expr::eval(t, &own));
    else if (route == 1) {
        BigInteger r = pgbn::expr::eval(t);
        const std::string info = statusInfo();
        got = re::zOf(r);
        if (refused && !handlers && !hook) c.checkf(isBuiltinError(info), [&] { return "after " + brief(t) + " the thread's status is " + pbt::quote(info); });
    }
    else if (route == 2) got = re::zOf(pgbn::expr::peval(t, fresh ? 0 : threads, &own));
    else {
        re::Body b{t, 3, 1, 0};
        got = re::byLibrary(*w, t, b, false);
    }
    const int inner = w->nested - before;
    c.check(w->wrong.empty(), w->wrong);
    c.checkf(got == want, [&] { return "the value of " + brief(t) + " is " + zs(got) + ", expected " + zs(want); });
    if (route == 0 || route == 2) c.checkf(isBuiltinError(own.getInfo()) == refused, [&] { return "the status given to the evaluation of " + brief(t) + " says " + pbt::quote(own.getInfo()) + ", and it is " + (refused ? "no" : "an") + " expression"; });
    for (auto & k : w->kept) c.checkf(zOfValue(k.first) == k.second, [&] { return "a value kept by a function was " + zs(k.second) + " and is now " + zs(zOfValue(k.first)); });
    c.check(zOfValue(sharedV) == sharedZ, "the value that a function hands out has changed");
    // and afterwards
    Z again;
    Status then;
    try { again = re::zOf(pgbn::expr::eval(extra, &then)); } catch (re::Thrown &) { c.fail("something is thrown"); }
    c.check(w->wrong.empty(), w->wrong);
    c.checkf(again == extraWant, [&] { return "afterwards the value of " + brief(extra) + " is " + zs(again) + ", expected " + zs(extraWant); });
    c.checkf(!isBuiltinError(then.getInfo()), [&] { return "afterwards the status given to " + brief(extra) + " says " + pbt::quote(then.getInfo()); });
    if (w->refused) c.label("an inner text is refused");
    if (w->deepest > 10) c.label("more than 10 deep");
    if (w->handled) c.label("status handlers calculate");
    if (w->hooked) c.label("the hook evaluates");
    if (throwing) c.label("a function that throws");
    if (!w->kept.empty()) c.label("arguments and results kept");
    if (inner >= 2) c.nontrivial();
}

// ------------------------------------------------------------------ C20
PBT_PROPERTY("C20", prop_div0,
    "A case divides a generated value by zero (built through any route) with / or % in every operand form, by int64 zero, in an expression, or through text that evaluates to zero, either with the built-in handler (in a child "
    "process: it must print the registered message to stderr and exit with status 1) or with a registered handler (it must run exactly once, the thread's status must then show the division by zero, and the divisor, "
    "sharing values and later operations must be intact). Non-trivial: the dividend is not zero and has at least two words, or the operation is part of a longer expression.",
    250000, 3000000) {
    static const pgbn::Callback builtin = Status::getCallback(ErrCode::DIVBY0);  // before any case replaces it
    setup();
    Keep keep;
    Z a = genZ(c, MEDIUM);
    std::string ra, rb;
    BigInteger A = build(c, a, keep, &ra), B = build(c, 0, keep, &rb);
    BigInteger share = A;
    int op = (int)c.draw(15);
    static const char * n[] = {"a / b", "a % b", "a /= b", "a %= b", "a / 0", "a % 0", "int64 / b", "int64 % b", "eval /", "eval %", "divideAssignAndReminder", "modAssignAndQuotient", "pgbn_BigInteger_DivAssign", "pgbn_BigInteger_ModAssign", "pgbn_BigInteger_DivAssignWithI64", "pgbn_BigInteger_ModAssignWithI64"};
    int64_t i = genI64(c);
    std::string t;
    if (op == 8 || op == 9) {
        std::string o = op == 8 ? "/" : "%";
        static const std::vector<std::string> zero = {"0", "(5-5)", "0x0", "(1<0)", "_", "(3&4)", "00", "zero()", "(7%7)", "(-3)!"};
        t = "(" + a.get_str(10) + ")" + o + c.pick(zero);
        if (c.chance(1, 2)) t = c.chance(1, 2) ? "1+" + t + "*2" : "1?" + t + ":3";
    }
    if (c.verbose) c.note(std::string(n[op]) + ", a = " + zs(a) + " (" + ra + "), zero (" + rb + ")" + (t.empty() ? "" : ", " + t));
    auto run = [&] {
        switch (op) {
        case 0: { BigInteger r = A / B; break; }
        case 1: { BigInteger r = A % B; break; }
        case 2: A /= B; break;
        case 3: A %= B; break;
        case 4: if (c.chance(1, 2)) A /= (int64_t)0; else BigInteger r = A / (int64_t)0; break;
        case 5: if (c.chance(1, 2)) A %= (int64_t)0; else BigInteger r = A % (int64_t)0; break;
        case 6: { BigInteger r = i / B; break; }
        case 7: { BigInteger r = i % B; break; }
        case 8: case 9: { BigInteger r = pgbn::expr::eval(t); break; }
        case 10: case 11: {
            pgbn::BigIntegerImpl x = usedImpl(c, a), z = implOf(0), r = usedImpl(c, genZ(c, SMALL));
            const bool viaInt = c.chance(1, 2);
            if (op == 10) { if (viaInt) x.divideAssignAndReminder((int64_t)0, r); else x.divideAssignAndReminder(z, r); }
            else if (viaInt) x.modAssignAndQuotient((int64_t)0, r);
            else x.modAssignAndQuotient(z, r);
            observeImpl(c, z, 0, "the zero divisor");
            break;
        }
        default: {
            auto * x = pgbn_BigInteger_CreateWithStr(a.get_str(16).c_str(), 16);
            auto * z = pgbn_BigInteger_CreateWithI64(0);
            if (op == 12) pgbn_BigInteger_DivAssign(x, z);
            else if (op == 13) pgbn_BigInteger_ModAssign(x, z);
            else if (op == 14) pgbn_BigInteger_DivAssignWithI64(x, 0);
            else pgbn_BigInteger_ModAssignWithI64(x, 0);
            pgbn_BigInteger_Destroy(x);
            pgbn_BigInteger_Destroy(z);
            break;
        }
        }
    };
    if (words(a) >= 2 || op == 8 || op == 9) c.nontrivial();
    if (c.chance(1, 12)) {  // built-in handler
        c.label("built-in handler");
        std::string info = infoOf(ErrCode::DIVBY0);
        Status::registe(ErrCode::DIVBY0, info, builtin);
        auto res = pbt::inChild([&] { run(); });
        c.checkf(res.exited && res.code == 1, [&] { return std::string(n[op]) + ": the process did not exit with status 1: " + (res.exited ? "exit " + std::to_string(res.code) : res.blocked ? "it hangs" : "signal " + std::to_string(res.sig)); });
        c.checkf(res.err.find(info) != std::string::npos && !info.empty() && info != "<ERROR_INFO>", [&] { return std::string(n[op]) + ": the registered message is missing in the output " + pbt::quote(res.err); });
        return;
    }
    c.label("registered handler");
    static int calls;
    static bool here;
    static std::thread::id who;
    calls = 0;
    quiet();
    Status::registe(ErrCode::DIVBY0, Status::getInfo(ErrCode::DIVBY0), [] { ++calls; here = std::this_thread::get_id() == who; });
    who = std::this_thread::get_id();
    *Status::getInstance() = ErrCode::SUCCESS;
    c.stage(n[op]);
    run();
    c.checkf(calls == 1, [&] { return std::string(n[op]) + ": the handler of the division by zero ran " + std::to_string(calls) + " times"; });
    c.check(here, "the handler ran in another thread");
    // a later successful step of the same expression may report success again; a plain operation must leave the error visible
    if (op < 8 || op >= 10) c.checkf(statusInfo() == infoOf(ErrCode::DIVBY0), [&] { return std::string(n[op]) + ": the thread's status is " + pbt::quote(statusInfo()) + " after a division by zero"; });
    observe(c, B, 0, "the zero divisor afterwards");
    observe(c, share, a, "a copy of the dividend taken before");
    observeKeep(c, keep);
    BigInteger q = fromZ(a * 7) / fromZ(7);
    observe(c, q, a, "a division afterwards");
    if (op == 2 || op == 3) { A = 5; observe(c, A, 5, "the dividend given a new value"); }
}
