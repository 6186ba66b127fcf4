// The registered functions and constants that expressions of the checks use, in the library and in the reference.
#pragma once
#include "exprmodel.h"
#include "PGBigNumber/infixExpr/SymbolTable.h"

namespace num {
using pgbn::Status;
using pgbn::infixExpr::Func;
using pgbn::infixExpr::SymbolTable;
using pgbn::infixExpr::Value;

// Values that reach a registered function, and those it returns, go through text: nothing of the representation is assumed.
inline Z zOfValue(const Value & v) { return Z(v.toString(16), 16); }
inline Value valueOf(const Z & z) {
    bool ok = false;
    Value v(z.get_str(10), 10, &ok);
    if (!ok) throw pbt::Failure{"harness: number rejected: " + z.get_str(10)};
    return v;
}

inline Z cut(Z v) { if (bitlen(v) > 300) { Z r; mpz_fdiv_r_2exp(r.get_mpz_t(), v.get_mpz_t(), 300); return r; } return v; }

inline em::Env & env() {
    static em::Env e;
    return e;
}
inline void define(em::Env & e, const std::string & name, int arity, std::function<Z(const std::vector<Z> &)> f) {
    e.fns[name] = em::Fn{arity, f};
    e.consts.erase(name);
    SymbolTable::getInstance()->registe(name, SymbolTable::Symbol{Func{[f](std::vector<Value> & a) {
        std::vector<Z> z;
        for (auto & v : a) z.push_back(zOfValue(v));
        return valueOf(f(z));
    }, arity}});
}
inline void define(em::Env & e, const std::string & name, const Z & v) {
    e.consts[name] = v;
    e.fns.erase(name);
    SymbolTable::getInstance()->registe(name, SymbolTable::Symbol{valueOf(v)});
}
inline void setup() {
    static bool done = false;
    if (done) return;
    done = true;
    auto & e = env();
    define(e, "zero", 0, [](const std::vector<Z> &) { return Z(0); });
    define(e, "id", 1, [](const std::vector<Z> & a) { return a[0]; });
    define(e, "sub", 2, [](const std::vector<Z> & a) { return Z(cut(a[0]) - cut(a[1])); });
    define(e, "Sub", 2, [](const std::vector<Z> & a) { return Z(cut(a[1]) - cut(a[0])); });
    define(e, "mix3_", 3, [](const std::vector<Z> & a) { return Z(cut(a[0]) * 10007 + cut(a[1]) * 101 - cut(a[2])); });
    define(e, "_h", -1, [](const std::vector<Z> & a) { Z r = (long)a.size(); for (auto & x : a) r = r * 31 + cut(x); return cut(r); });
    define(e, "K", Z(1000));
    define(e, "NEG_1", Z(-1));
    define(e, "big", -pow2(200) + 12345);
    define(e, "x16", pow2(64));
    define(e, "_", Z(0));
    // names that differ only far from their beginning
    define(e, std::string(254, 'q') + "a", Z(901));
    define(e, std::string(254, 'q') + "ab", 1, [](const std::vector<Z> & a) { return Z(a[0] + 902); });
    define(e, std::string(300, 'q'), Z(903));
    define(e, std::string(299, 'q') + "r", 2, [](const std::vector<Z> & a) { return Z(cut(a[0]) * 7 - cut(a[1])); });
}

// the callbacks of the error codes print; here they must neither print nor exit
inline void quiet() {
    for (pgbn::Enum e = 1; e <= 16; ++e) Status::registe(e, Status::getInfo(e));
}
}  // namespace num
