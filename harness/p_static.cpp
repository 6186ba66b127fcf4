// Use of the library while static objects are constructed and destroyed: the harness runs itself again with a script in its
// environment, and an object that is constructed before every other static object of the program carries the script out.
#include <algorithm>
#include <cstdlib>
#include <sstream>
#include <unistd.h>
#include "num.h"
#include "view.h"
#include "PGBigNumber/expr.h"
#include "PGBigNumber/Fraction.h"
#include "PGBigNumber/pgbn.h"
#include "algorithm.h"
#include "PGBigNumber/infixExpr/SymbolTable.h"
using namespace num;
namespace ErrCode = pgbn::ErrCode;

namespace pbt { extern int (*insteadOfMain)(); }

namespace {
// one line -> one answer; nothing but the library is used
std::string doLine(const std::string & line) {
    std::istringstream in(line);
    std::string op, a, b;
    in >> op;
    auto num = [&] { std::string s; in >> s; bool ok = false; BigInteger x(s, 16, &ok); if (!ok) std::abort(); return x; };
    auto rest = [&] { std::string s; std::getline(in, s); return s.empty() ? s : s.substr(1); };
    if (op == "calc") {
        std::string o;
        in >> o;
        BigInteger x = num(), y = num();
        BigInteger r = o == "+" ? x + y : o == "-" ? x - y : o == "*" ? x * y : o == "/" ? x / y : o == "%" ? x % y : o == "&" ? (x & y) : o == "|" ? (x | y) : (x ^ y);
        return r.toString(16);
    }
    if (op == "text") { int r; in >> r; return num().toString(r); }
    if (op == "parse") { int r; in >> r >> a; bool ok = false; BigInteger x(a, r, &ok); return ok ? x.toString(16) : "refused: " + statusInfo(); }
    if (op == "shl") { unsigned n; in >> n; return (num() << n).toString(16); }
    if (op == "shr") { unsigned n; in >> n; return (num() >> n).toString(16); }
    if (op == "cmp") { BigInteger x = num(), y = num(); return x < y ? "<" : x == y ? "=" : ">"; }
    if (op == "gcd") { BigInteger x = num(), y = num(); return pgbn::algo::gcd(x, y).toString(16); }
    if (op == "frac") { BigInteger x = num(), y = num(), z = num(), w = num(); return (pgbn::experimental::Fraction(x, y) + pgbn::experimental::Fraction(z, w)).toString(); }
    if (op == "eval") return pgbn::expr::eval(rest()).toString(16);
    if (op == "peval") return pgbn::expr::peval(rest(), 2).toString(16);
    if (op == "sym") {
        in >> a;
        BigInteger v = num();
        bool ok = false;
        pgbn::infixExpr::SymbolTable::getInstance()->registe(a, pgbn::infixExpr::SymbolTable::Symbol{pgbn::infixExpr::Value(v.toString(10), 10, &ok)});
        return pgbn::expr::eval(a + " - 1").toString(16);
    }
    if (op == "info") { unsigned k; in >> k; return infoOf(k); }
    if (op == "set") { unsigned k; in >> k; *pgbn::Status::getInstance() = k; return statusInfo(); }
    if (op == "own") {
        unsigned k;
        in >> k;
        std::string t = rest();
        bool called = false;
        pgbn::Status::registe(k, t);
        *pgbn::Status::getInstance() = k;
        std::string r = statusInfo();
        pgbn::Status::registe(k, t, [&called] { called = true; });
        *pgbn::Status::getInstance() = k;
        pgbn::Status::registe(k, t);
        return r + (called ? " called" : " not called");
    }
    if (op == "u64") { bool ok = true; uint64_t v = num().getUInt64(&ok); return ok ? std::to_string(v) : "refused"; }
    if (op == "fmt") { BigInteger x = num(); pgbn::BigIntegerImpl y(x.toString(10), 10, nullptr); return pgfmt::format("<{0}|{1:16}>", y, y); }
    if (op == "c") {
        in >> a;
        pgbn_BigInteger_t * x = pgbn_BigInteger_CreateWithStr(a.c_str(), 16);
        pgbn_String_t * t = pgbn_BigInteger_ToString(x, 10);
        std::string r(pgbn_String_CStr(t));
        pgbn_String_Destroy(t);
        pgbn_BigInteger_Destroy(x);
        return r;
    }
    return "?";
}
void doAll(const char * script) {
    if (!script) return;
    std::istringstream in(script);
    std::string l;
    while (std::getline(in, l)) std::fprintf(stdout, "%s\n", doLine(l).c_str());
    std::fflush(stdout);
}
struct Early {
    Early() { if (std::getenv("VP_STATIC")) { dup2(2, 1); doAll(std::getenv("VP_STATIC")); } }
    ~Early() { if (std::getenv("VP_STATIC")) doAll(std::getenv("VP_STATIC_END")); }
};
struct ThenExit {
    ThenExit() {
        if (!std::getenv("VP_STATIC")) return;
        if (std::getenv("VP_STATIC_MAIN")) pbt::insteadOfMain = [] { doAll(std::getenv("VP_STATIC_MAIN")); return 0; };
        else std::exit(0);
    }
};
__attribute__((init_priority(101))) Early g_early;
__attribute__((init_priority(102))) ThenExit g_exit;

struct Line { std::string kind, text, want; };
}  // namespace

PBT_PROPERTY("C35", prop_static,
    "A case draws 1 to 12 operations (arithmetic, shifts, text in all radixes, valid and malformed parses, comparison, conversion to machine words, gcd, fractions, evaluation, symbols, status codes, formatting), which a fresh process "
    "carries out in the constructor of an object that is constructed before any other static object of the program, optionally others in main, and optionally some of the first ones again in the destructor of that object, after main; the answers are compared with GMP. "
    "Non-trivial: operations of at least 2 kinds.",
    3000, 60000) {
    auto hex = [](const Z & v) { return v.get_str(16); };
    auto line = [&] {
        static const std::vector<std::string> all = {"calc", "text", "parse", "shl", "shr", "cmp", "gcd", "frac", "eval", "sym", "info", "set", "own", "u64", "fmt", "c", "peval"};
        std::string k = c.pick(all);
        if (k == "peval" && !c.chance(1, 6)) k = "eval";
        Z x = genZ(c, SMALL), y = genZ(c, SMALL);
        Line l{k, k, ""};
        if (k == "calc") {
            static const std::vector<std::string> os = {"+", "-", "*", "/", "%", "&", "|", "^"};
            std::string o = c.pick(os);
            if (y == 0) y = 1;
            l.text += " " + o + " " + hex(x) + " " + hex(y);
            l.want = hex(o == "+" ? Z(x + y) : o == "-" ? Z(x - y) : o == "*" ? Z(x * y) : o == "/" ? Z(x / y) : o == "%" ? Z(x % y) : o == "&" ? Z(x & y) : o == "|" ? Z(x | y) : Z(x ^ y));
        } else if (k == "text") {
            int r = (int)c.range(2, 36);
            l.text += " " + std::to_string(r) + " " + hex(x);
            l.want = x.get_str(r);
        } else if (k == "parse") {
            int r = (int)c.range(2, 36);
            std::string t = x.get_str(r);
            bool bad = c.chance(1, 3);
            if (bad) t.insert(1 + c.draw(t.size() - 1), "!");
            l.text += " " + std::to_string(r) + " " + t;
            l.want = bad ? "refused: " + infoOf(ErrCode::NUMBER_STRING_PARSE2NUM_ERROR) : hex(x);
        } else if (k == "shl" || k == "shr") {
            unsigned n = (unsigned)c.draw(200);
            l.text += " " + std::to_string(n) + " " + hex(x);
            Z r;
            if (k == "shl") r = x << n; else mpz_fdiv_q_2exp(r.get_mpz_t(), x.get_mpz_t(), n);
            l.want = hex(r);
        } else if (k == "cmp") {
            if (c.chance(1, 3)) y = x;
            l.text += " " + hex(x) + " " + hex(y);
            l.want = x < y ? "<" : x == y ? "=" : ">";
        } else if (k == "gcd") {
            x = abs(x), y = abs(y);
            l.text += " " + hex(x) + " " + hex(y);
            Z g;
            mpz_gcd(g.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t());
            l.want = hex(g);
        } else if (k == "frac") {
            long p = (long)c.range(-20, 20), q = (long)c.range(1, 20), r = (long)c.range(-20, 20), s = (long)c.range(1, 20);
            mpq_class a(p, q), b(r, s);
            a.canonicalize(); b.canonicalize();
            mpq_class t = a + b;
            l.text += " " + hex(p) + " " + hex(q) + " " + hex(r) + " " + hex(s);
            l.want = t.get_num().get_str() + "/" + t.get_den().get_str();
        } else if (k == "eval" || k == "peval") {
            x = abs(x); y = abs(y) + 1;
            l.text += " (" + x.get_str() + " - 0x" + hex(y) + ") * 3 ** 4 / " + y.get_str();
            l.want = hex((x - y) * 81 / y);
        } else if (k == "sym") {
            l.text += " name" + std::to_string(c.draw(5)) + " " + hex(x);
            l.want = hex(x - 1);
        } else if (k == "info" || k == "set") {
            unsigned n = (unsigned)(k == "info" ? c.draw(16) : 2 + c.draw(14));
            l.text += " " + std::to_string(n);
            l.want = infoOf(n);
        } else if (k == "own") {
            std::string t = "message " + std::to_string(c.draw(99));
            l.text += " " + std::to_string(100 + c.draw(50)) + " " + t;
            l.want = t + " called";
        } else if (k == "u64") {
            x = abs(x);
            l.text += " " + hex(x);
            l.want = x > pow2(64) - 1 ? "refused" : x.get_str();
        } else if (k == "c") {
            l.text += " " + hex(x);
            l.want = x.get_str();
        } else {
            l.text += " " + hex(x);
            l.want = "<" + x.get_str() + "|" + hex(x) + ">";
        }
        return l;
    };
    std::vector<Line> first, mid, last;
    std::vector<std::string> kinds;
    size_t n = 1 + c.draw(5);
    while (n--) { first.push_back(line()); if (std::find(kinds.begin(), kinds.end(), first.back().kind) == kinds.end()) kinds.push_back(first.back().kind); }
    const bool viaMain = c.chance(1, 2);
    if (viaMain) { n = c.draw(2); while (n--) mid.push_back(line()); }
    if (c.chance(2, 3)) { n = 1 + c.draw(3); while (n--) last.push_back(c.pick(first)); }
    auto join = [](const std::vector<Line> & v) { std::string s; for (auto & l : v) s += l.text + "\n"; return s; };
    std::string want;
    for (auto * v : {&first, &mid, &last}) for (auto & l : *v) want += l.want + "\n";
    if (c.verbose) c.note("at construction:\n" + join(first) + "in main:\n" + join(mid) + "at destruction:\n" + join(last));
    if (kinds.size() >= 2) c.nontrivial();
    c.label(viaMain ? "main runs" : "exits before main");
    if (!last.empty()) c.label("used in a destructor after main");
    c.stage("a process of its own");
    auto r = pbt::inChild([&] {
        setenv("VP_STATIC", join(first).c_str(), 1);
        if (viaMain) setenv("VP_STATIC_MAIN", join(mid).c_str(), 1);
        setenv("VP_STATIC_END", join(last).c_str(), 1);
        execl("/proc/self/exe", "static", (char *)nullptr);
        _exit(98);
    });
    // what the built-in callbacks print goes the same way: only the answers count, in their order
    std::vector<std::string> got;
    std::istringstream in(r.err), wanted(want);
    std::string l, w;
    while (std::getline(in, l)) got.push_back(l);
    c.checkf(r.exited && r.code == 0, [&] { return "the process " + (r.exited ? "ended with " + std::to_string(r.code) : "died of signal " + std::to_string(r.sig)) + ", having answered\n" + r.err + "to\n" + join(first) + "main:\n" + join(mid) + "end:\n" + join(last); });
    size_t i = 0;
    while (std::getline(wanted, w)) {
        while (i < got.size() && got[i] != w && got[i].compare(0, 7, "[Error]") == 0) ++i;
        c.checkf(i < got.size() && got[i] == w, [&] { return "answers\n" + r.err + "instead of\n" + want + "to\n" + join(first) + "main:\n" + join(mid) + "end:\n" + join(last); });
        ++i;
    }
}
