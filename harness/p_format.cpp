// Message formatting with numbered placeholders.
#include <cstdio>
#include <list>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include "num.h"
#include "BigIntegerImpl.h"
using namespace num;
using pgbn::BigIntegerImpl;

namespace {
// ---- the text an argument must get
template <typename T> std::string viaPrintf(const std::string & lim, const char * conv, T v) {
    std::string f = "%" + lim + conv, out(12000, '\0');
    int n = std::snprintf(&out[0], out.size(), f.c_str(), v);
    if (n < 0 || (size_t)n >= out.size()) return "?";
    out.resize((size_t)n);
    return out;
}
std::string text(bool v, const std::string &) { return v ? "true" : "false"; }
std::string text(char v, const std::string &) { return std::string(1, v); }
std::string text(int16_t v, const std::string & l) { return viaPrintf(l, "d", (int)v); }
std::string text(uint16_t v, const std::string & l) { return viaPrintf(l, "u", (unsigned)v); }
std::string text(uint8_t v, const std::string &) { return std::to_string((unsigned)v); }
std::string text(int32_t v, const std::string & l) { return viaPrintf(l, "d", v); }
std::string text(uint32_t v, const std::string & l) { return viaPrintf(l, "u", v); }
std::string text(int64_t v, const std::string & l) { return viaPrintf(l, "lld", (long long)v); }
std::string text(uint64_t v, const std::string & l) { return viaPrintf(l, "llu", (unsigned long long)v); }
std::string text(float v, const std::string & l) { return viaPrintf(l, "f", (double)v); }
std::string text(double v, const std::string & l) { return viaPrintf(l, "f", v); }
std::string text(long double v, const std::string & l) { return viaPrintf(l, "Lf", v); }
std::string text(const std::string & v, const std::string & l);
std::string text(const char * v, const std::string & l) { return text(std::string(v), l); }
std::string text(const BigIntegerImpl & v, const std::string & l) {
    int r = l.empty() ? 10 : std::atoi(l.c_str());
    if (r < 2 || r > 36) r = 10;
    Z z = toZ(BigInteger(std::make_unique<BigIntegerImpl>(v)));
    return z.get_str(r);
}
// texts: [-]width[.precision]
std::string text(const std::string & v, const std::string & l) {
    size_t i = 0;
    bool left = false;
    while (i < l.size() && l[i] == '-') { left = true; ++i; }
    size_t w = 0;
    while (i < l.size() && isdigit(l[i])) w = w * 10 + (size_t)(l[i++] - '0');
    std::string s = v;
    if (i < l.size() && l[i] == '.') { size_t p = 0; ++i; while (i < l.size() && isdigit(l[i])) p = p * 10 + (size_t)(l[i++] - '0'); s = s.substr(0, p); }
    if (s.size() < w) { if (left) s += std::string(w - s.size(), ' '); else s = std::string(w - s.size(), ' ') + s; }
    return s;
}
template <typename A, typename B> std::string text(const std::pair<A, B> & v, const std::string & l);
template <typename T> std::string text(const std::vector<T> & v, const std::string & l);
template <typename T> std::string text(const std::list<T> & v, const std::string & l);
template <typename S> std::string seq(const S & v) {
    std::string r = "[";
    bool first = true;
    for (const auto & x : v) { if (!first) r += ", "; first = false; r += text(x, ""); }
    return r + "]";
}
template <typename T> std::string text(const std::vector<T> & v, const std::string &) { return seq(v); }
template <typename T> std::string text(const std::list<T> & v, const std::string &) { return seq(v); }
template <typename T> std::string text(const std::set<T> & v, const std::string &) { return seq(v); }
template <typename A, typename B> std::string text(const std::map<A, B> & v, const std::string &) { return seq(v); }
template <typename A, typename B> std::string text(const std::pair<A, B> & v, const std::string &) { return text(v.first, "") + " : " + text(v.second, ""); }

// ---- generation
template <typename T> struct Kind { static constexpr int k = 0; };  // 0 none, 1 integer, 2 floating, 3 text, 4 radix
template <> struct Kind<int16_t> { static constexpr int k = 1; };
template <> struct Kind<uint16_t> { static constexpr int k = 1; };
template <> struct Kind<int32_t> { static constexpr int k = 1; };
template <> struct Kind<uint32_t> { static constexpr int k = 1; };
template <> struct Kind<int64_t> { static constexpr int k = 1; };
template <> struct Kind<uint64_t> { static constexpr int k = 1; };
template <> struct Kind<float> { static constexpr int k = 2; };
template <> struct Kind<double> { static constexpr int k = 2; };
template <> struct Kind<long double> { static constexpr int k = 2; };
template <> struct Kind<std::string> { static constexpr int k = 3; };
template <> struct Kind<const char *> { static constexpr int k = 3; };
template <> struct Kind<BigIntegerImpl> { static constexpr int k = 4; };

std::string genLimit(Case & c, int kind) {
    std::string s;
    if (kind == 0 || c.chance(1, 3)) return s;
    auto width = [&] { return std::to_string(1 + (c.chance(1, 8) ? c.draw(600) : c.draw(20))); };
    switch (kind) {
    case 1: { static const std::vector<std::string> f = {"", "0", "-", "+", " ", "+0", "-+"}; s = c.pick(f); if (c.chance(2, 3)) s += width(); if (c.chance(1, 6)) s += "." + std::to_string(c.draw(30)); if (s == "0") s = "01"; return s; }
    case 2: { static const std::vector<std::string> f = {"", "0", "-", "+", " "}; s = c.pick(f); if (c.chance(1, 2)) s += width(); if (c.chance(1, 2)) s += "." + std::to_string(c.draw(c.chance(1, 6) ? 200 : 12)); if (s == "0") s = "01"; return s; }
    case 3: if (c.chance(1, 3)) s = "-"; if (c.chance(2, 3)) s += width(); if (c.chance(1, 3)) s += "." + std::to_string(c.draw(40)); if (s == "-") s = "-3"; return s;
    default: return std::to_string(c.chance(1, 6) ? c.draw(60) : 2 + c.draw(34));
    }
}
std::string genText(Case & c) {
    switch (c.weighted({4, 2, 2, 1, 1})) {
    case 0: { std::string s; size_t n = c.draw(20); for (size_t i = 0; i < n; ++i) s += (char)(32 + c.draw(94)); return s; }
    case 1: { static const std::vector<std::string> t = {"{0}", "{1}", "{2:5}", "{", "}", "{}", "%d%s%n", "a{0}b{1}c", "%", "{3}{2}{1}{0}"}; return c.pick(t); }
    case 2: return "";
    case 3: { static const std::vector<uint64_t> n = {31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 5000}; return std::string(c.pick(n), (char)('a' + c.draw(25))); }
    default: { std::string s; size_t n = c.draw(40); for (size_t i = 0; i < n; ++i) s += (char)(1 + c.draw(254)); return s; }
    }
}
template <typename T> struct Gen;
template <> struct Gen<bool> { static bool g(Case & c) { return c.chance(1, 2); } };
template <> struct Gen<char> { static char g(Case & c) { return c.chance(1, 4) ? "{}%:"[c.draw(3)] : (char)(1 + c.draw(126)); } };
template <> struct Gen<std::string> { static std::string g(Case & c) { return genText(c); } };
std::list<std::string> pool;  // of one case
struct Pool { Pool() { pool.clear(); } ~Pool() { pool.clear(); } };
template <> struct Gen<const char *> { static const char * g(Case & c) { pool.push_back(genText(c)); return pool.back().c_str(); } };
template <> struct Gen<double> {
    static double g(Case & c) {
        switch (c.weighted({3, 2, 2, 2})) {
        case 0: return (double)c.range(-1000000, 1000000) / 64;
        case 1: return (double)genI64(c);
        case 2: { static const std::vector<double> t = {0.0, -0.0, 0.5, 1.5, 2.5, 1e300, -1e300, 1.7976931348623157e308, 5e-324, 1e15, 123456789.987654321, 0.1, 1e100}; return c.pick(t); }
        default: { double r = 1.0 + (double)c.bits(52) / 4503599627370496.0; int e = (int)c.range(-320, 300); while (e > 0) { r *= 10; --e; } while (e < 0) { r /= 10; ++e; } return c.chance(1, 2) ? -r : r; }
        }
    }
};
template <> struct Gen<float> { static float g(Case & c) { double d = Gen<double>::g(c); return d > 3e38 || d < -3e38 ? 3e38f : (float)d; } };
template <> struct Gen<long double> { static long double g(Case & c) { return c.chance(1, 6) ? (long double)1e300 * (long double)1e300 * (long double)c.range(1, 1000) : (long double)Gen<double>::g(c) / 3; } };
template <> struct Gen<BigIntegerImpl> { static BigIntegerImpl g(Case & c) { Z v = genZ(c, SMALL); std::string b = twosLE(v, minTwosLen(v)); return BigIntegerImpl(b.data(), (pgbn::SizeType)b.size(), true); } };
template <typename A, typename B> struct Gen<std::pair<A, B>> { static std::pair<A, B> g(Case & c) { A a = Gen<A>::g(c); return {a, Gen<B>::g(c)}; } };
template <typename T> struct Gen<std::vector<T>> { static std::vector<T> g(Case & c) { std::vector<T> v; size_t n = c.chance(1, 4) ? 0 : c.chance(1, 20) ? c.draw(c.chance(1, 20) ? 4000 : 300) : 1 + c.draw(4); while (n--) v.push_back(Gen<T>::g(c)); return v; } };
template <typename T> struct Gen<std::list<T>> { static std::list<T> g(Case & c) { auto v = Gen<std::vector<T>>::g(c); return std::list<T>(v.begin(), v.end()); } };
template <typename T> struct Gen<std::set<T>> { static std::set<T> g(Case & c) { auto v = Gen<std::vector<T>>::g(c); return std::set<T>(v.begin(), v.end()); } };
template <typename A, typename B> struct Gen<std::map<A, B>> { static std::map<A, B> g(Case & c) { std::map<A, B> m; size_t n = c.draw(4); while (n--) { A a = Gen<A>::g(c); m[a] = Gen<B>::g(c); } return m; } };
template <typename T> struct Gen { static T g(Case & c) { static_assert(std::is_integral_v<T>); return (T)genI64(c); } };

std::string literal(Case & c, bool braces) {
    std::string s;
    size_t n = c.weighted({2, 3, 2}) == 0 ? 0 : c.chance(1, 30) ? c.draw(c.chance(1, 10) ? 40000 : 2000) : c.draw(12);
    for (size_t i = 0; i < n; ++i) {
        char ch = (char)(1 + c.draw(254));
        if (c.chance(2, 3)) ch = (char)(32 + c.draw(94));
        if (c.chance(1, 12)) ch = "%:\\0"[c.draw(3)];
        if (ch == '{') ch = braces ? ch : '(';
        s += ch;
    }
    return s;
}

struct Piece { int arg; std::string lit; };
template <typename... T> void run(Case & c) {
    constexpr size_t N = sizeof...(T);
    Pool poolOfCase;
    std::tuple<T...> args{Gen<T>::g(c)...};
    constexpr int kinds[N + 1] = {Kind<T>::k..., 0};
    std::vector<std::string> lim(N), txt(N);
    for (size_t i = 0; i < N; ++i) lim[i] = genLimit(c, kinds[i]);
    {
        size_t i = 0;
        std::apply([&](const auto &... a) { ((txt[i] = text(a, lim[i]), ++i), ...); }, args);
    }
    // format text: literal pieces without '{' (a '}' may occur), placeholders, and perhaps a lone '{' at the end
    std::string fmt, want;
    size_t holes = N == 0 ? 0 : c.weighted({1, 9}) == 0 ? 0 : 1 + c.draw(2 * N);
    std::set<size_t> used;
    bool order = true;
    int last = -1;
    for (size_t h = 0; h < holes; ++h) {
        std::string l = literal(c, false);
        fmt += l;
        want += l;
        if (c.chance(1, 40)) {  // a placeholder that names no argument
            static const std::vector<uint64_t> far = {0, 1, 10, 99, 256, 65536, 1u << 24, 2147483647 - 40};
            const uint64_t k = c.pick(far);
            fmt += "{" + std::to_string(k < N ? N + k : k + c.draw(N)) + (c.chance(1, 4) ? ":5}" : "}");
            c.label("a placeholder without argument");
            continue;
        }
        size_t a = c.chance(1, 3) ? h % N : c.draw(N - 1);
        used.insert(a);
        order = order && (int)a == last + 1;
        last = (int)a;
        fmt += "{" + std::to_string(a) + (lim[a].empty() && c.chance(4, 5) ? "" : ":" + lim[a]) + "}";
        want += txt[a];
    }
    {
        std::string l = literal(c, false);
        if (c.chance(1, 8)) { for (auto & ch : l) if (ch == '}') ch = ')'; l += "{"; size_t n = c.draw(5); while (n--) l += (char)('0' + c.draw(9)); }
        fmt += l;
        want += l;
    }
    if (c.verbose) {
        std::string s = "format " + pbt::quote(fmt.substr(0, 400)) + "\n";
        for (size_t i = 0; i < N; ++i) s += "  argument " + std::to_string(i) + (lim[i].empty() ? "" : " (limit " + lim[i] + ")") + " = " + pbt::quote(txt[i].substr(0, 200)) + "\n";
        c.note(s);
    }
    if (used.size() >= 2 && !order) c.nontrivial();
    if (used.size() < N) c.label("an unused argument");
    if (holes > used.size()) c.label("a repeated argument");
    if (want.size() > 256) c.label("more than 256 bytes");
    auto diff = [&](const std::string & got, const char * what) {
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
        return std::string(what) + ": from byte " + std::to_string(i) + " got " + pbt::quote(got.substr(i, 80)) + " (of " + std::to_string(got.size()) + " bytes), expected " + pbt::quote(want.substr(i, 80)) + " (of " + std::to_string(want.size()) + ")";
    };
    c.stage("format");
    std::string got = std::apply([&](auto &... a) { return pgfmt::format(fmt, a...); }, args);
    c.checkf(got == want, [&] { return diff(got, "format"); });
    c.stage("formatAppend");
    std::string pre = c.chance(1, 3) ? "" : literal(c, true), app = pre;
    std::apply([&](const auto &... a) { pgfmt::formatAppend(app, fmt, a...); }, args);
    c.checkf(app.compare(0, pre.size(), pre) == 0, [&] { return "formatAppend changed the text it appends to: " + pbt::quote(app.substr(0, 80)) + ", it was " + pbt::quote(pre.substr(0, 80)); });
    c.checkf(app.substr(pre.size()) == want, [&] { return diff(app.substr(pre.size()), "formatAppend"); });
}
}  // namespace

PBT_PROPERTY("C28", prop_format,
    "A case generates 0 to 23 arguments of one of 18 signatures (all integer widths, floating point up to 1e600, booleans, characters, texts, vectors, lists, sets, maps, pairs, big integers), a printf limit or radix per argument, and a format text of "
    "literal bytes (with '}' and a trailing lone '{') and placeholders in any order, repeated or missing, and compares format and formatAppend with an independent formatter. Non-trivial: at least two arguments are used, not simply in order.",
    400000, 6000000) {
    switch (c.draw(17)) {
    case 0: run<>(c); break;
    case 1: run<int>(c); break;
    case 2: run<int, std::string, double>(c); break;
    case 3: run<const char *, uint64_t, std::vector<int>>(c); break;
    case 4: run<bool, char, int64_t, std::pair<int, std::string>>(c); break;
    case 5: run<BigIntegerImpl, std::string, uint32_t>(c); break;
    case 6: run<uint8_t, int16_t, std::vector<std::string>, long double>(c); break;
    case 7: run<uint16_t, float, std::pair<std::string, double>, bool, const char *>(c); break;
    case 8: run<std::vector<std::vector<int>>, std::list<int64_t>>(c); break;
    case 9: run<std::map<int, std::string>, std::set<std::string>, char>(c); break;
    case 10: run<std::string, std::string, std::string, std::string, std::string, std::string>(c); break;
    case 11: run<int32_t, uint32_t, int64_t, uint64_t, int16_t, uint16_t>(c); break;
    case 12: run<double, double>(c); break;
    case 13: run<BigIntegerImpl, BigIntegerImpl>(c); break;
    case 14: run<std::vector<std::pair<int, bool>>, std::pair<char, std::vector<uint64_t>>>(c); break;
    case 15: run<int, std::string, bool, uint64_t, char, double, std::string, int64_t, BigIntegerImpl, std::vector<int>, const char *, uint8_t, int>(c); break;
    case 16: run<int, int, int, int, int, int, int, int, int, int, std::string, int, int, int, int, int, int, int, int, int, bool, int, uint32_t>(c); break;
    default: run<std::string, int>(c); break;
    }
}
