// The parts below the big integers and the expressions: the shared sequence, streams and the tokenizer, parser and node pool,
// the literal hook, and the utilities.
#include <algorithm>
#include <cerrno>
#include <thread>
#include <unistd.h>
#include "exprenv.h"
#include "Slice.h"
#include "streams/StringReadStream.h"
#include "infixExpr/Token.h"
#include "infixExpr/ExprTree.h"
#include "infixExpr/ExprParser.h"
#include "PGBigNumber/expr.h"
using namespace num;
using namespace pgbn::infixExpr;
namespace ErrCode = pgbn::ErrCode;

namespace {
std::string brief(const std::string & s) { return pbt::quote(s.size() > 400 ? s.substr(0, 200) + " ... " + s.substr(s.size() - 200) : s); }
std::string str(const std::vector<uint32_t> & v) { std::string s; for (auto x : v) s += " " + std::to_string(x); return s; }
std::string str(const std::vector<int> & v) { std::string s; for (auto x : v) s += " " + std::to_string(x); return s; }
std::string str(const std::vector<std::string> & v) { std::string s; for (auto & x : v) s += " " + pbt::quote(x); return s; }
void elem(Case & c, uint32_t & x) { x = c.chance(1, 2) ? (uint32_t)c.draw(9) : (uint32_t)c.bits(32); }
void elem(Case & c, int & x) { x = (int)c.range(-9, 9); }
void elem(Case & c, std::string & x) { x = std::string(c.chance(1, 3) ? 20 + c.draw(20) : c.draw(3), (char)('a' + c.draw(25))); }

// ---- a history over slices; sharing is read only, and every write is preceded by cloneData(), as the class asks for
template <typename T>
void sliceHistory(Case & c) {
    using S = pgbn::Slice<T>;
    using V = std::vector<T>;
    struct E { S s; V v; };
    struct X { std::shared_ptr<V> p; V v; };  // a vector that its owner keeps
    std::vector<std::unique_ptr<E>> es;
    std::vector<X> xs;
    auto value = [&] { T x{}; elem(c, x); return x; };
    auto add = [&](S s, V v) { es.push_back(std::unique_ptr<E>(new E{std::move(s), std::move(v)})); };
    auto say = [&](const std::string & s) { c.stage(s); if (c.verbose) c.note(s); };
    auto look = [&](const char * when) {
        for (size_t k = 0; k < es.size(); ++k) {
            const S & s = es[k]->s;
            V got(s.begin(), s.end());
            auto bad = [&](const char * how) { c.fail(std::string("slice ") + std::to_string(k) + " " + how + " after " + when + ":" + str(got) + ", expected" + str(es[k]->v)); };
            if (s.count() != es[k]->v.size()) bad("has another number of elements");
            if (got != es[k]->v) bad("holds other elements");
            for (size_t i = 0; i < got.size(); ++i) if (s[i] != es[k]->v[i] || es[k]->s[i] != es[k]->v[i]) bad("indexes other elements");
            if ((pgbn::SizeType)(es[k]->s.end() - es[k]->s.begin()) != s.count()) bad("iterates over another range");
        }
        for (size_t k = 0; k < es.size(); ++k)
            for (size_t j = 0; j < es.size(); ++j)
                if (es[k]->s.weakEquals(es[j]->s)) c.check(es[k]->v == es[j]->v, std::string("slices with different elements are called equal after ") + when);
        for (auto & x : xs) c.check(!x.p || *x.p == x.v, std::string("the vector that its owner kept changed after ") + when);
    };
    add(S(), V());
    if constexpr (std::is_same<T, uint32_t>::value) if (c.chance(1, 400)) {  // sequences beyond what 16 bits count
        c.massive();
        c.label("more than 1000 elements");
        const size_t m = massiveCount(c);
        V v(m);
        pbt::Rng r(c.bits(64));
        for (auto & x : v) x = T(r.next());
        size_t lo = c.chance(1, 2) ? 0 : c.draw(m - 1);
        const size_t hi = lo + 1 + c.draw(m - lo - 1);
        S s(std::make_shared<V>(v), lo, hi);
        V w(v.begin() + lo, v.begin() + hi);
        S other(s);
        const V ow = w;
        auto same = [&](const S & q, const V & e, const char * when) {
            c.check(q.count() == e.size(), std::string("a long slice has another number of elements ") + when);
            bool ok = std::equal(q.begin(), q.end(), e.begin(), e.end());
            for (size_t i = 0; ok && i < e.size(); ++i) ok = q[i] == e[i];
            c.check(ok, std::string("a long slice holds other elements ") + when);
        };
        same(s, w, "at first");
        for (size_t k = 2 + c.draw(6); k > 0; --k) {
            size_t a = c.draw(w.size() / 2), b = w.size() - c.draw(std::min<size_t>(w.size() - a, 70000));
            const size_t op = c.draw(5);
            c.stage("an operation on a long slice");
            if (c.verbose) c.note("long slice of " + std::to_string(w.size()) + " elements, operation " + std::to_string(op) + " " + std::to_string(a) + " " + std::to_string(b));
            if (op != 0 && op != 5) s.cloneData();
            switch (op) {
            case 0: if (a <= b) { s.slice(a, b); w = V(w.begin() + a, w.begin() + b); } break;
            case 1: s.append(7); w.push_back(7); break;
            case 2: s.prepend(9); w.insert(w.begin(), 9); break;
            case 3: s.preExtend(a, 3); w.insert(w.begin(), a, 3); break;
            case 4: s.slice(0, w.size() + a); w.resize(w.size() + a); break;
            default: if (a <= b) { S p = s.sliced(a, b); same(p, V(w.begin() + a, w.begin() + b), "taken as a part"); } break;
            }
            same(s, w, "after an operation");
            same(other, ow, "that shared its elements");
            if (w.empty()) break;
        }
        c.nontrivial();
        return;
    }
    const bool lng = c.chance(1, 200);  // now and then a long history, with large sequences
    if (lng) c.heavy();
    const size_t n = 4 + c.draw(lng ? 400 : c.chance(1, 6) ? 60 : 24);
    auto size = [&](size_t few) { return lng && c.chance(1, 4) ? c.draw(c.chance(1, 4) ? 3000 : 150) : c.draw(few); };
    size_t writes = 0, shares = 0;
    for (size_t step = 0; step < n; ++step) {
        size_t k = c.draw(es.size() - 1), j = c.draw(es.size() - 1);
        E & e = *es[k];
        const std::string id = std::to_string(k), jd = std::to_string(j);
        const size_t cnt = e.v.size();
        size_t op = c.weighted({3, 2, 3, 2, 2, 2, 3, 3, 3, 5, 5, 4, 3, 4, 3, 1, 1, 1});
        if (es.size() > 7 && (op < 4 || op == 7)) op = 15;
        switch (op) {
        case 0: {
            V v;
            size_t m = size(12);
            while (m--) v.push_back(value());
            if (v.empty()) { say("new slice"); add(S(), V()); break; }
            auto p = std::make_shared<V>(v);
            size_t lo = c.chance(1, 2) ? 0 : c.draw(v.size() - 1), hi = c.chance(1, 2) ? v.size() : lo + 1 + c.draw(v.size() - lo - 1 + 3);
            say("new slice [" + std::to_string(lo) + ", " + std::to_string(hi) + ") of a vector of" + str(v));
            const bool whole = hi == v.size() && c.chance(1, 2);
            S s = whole ? (lo == 0 && c.chance(1, 2) ? S(p) : S(p, lo)) : S(p, lo, hi);
            if (hi > v.size()) v.resize(hi);
            add(std::move(s), V(v.begin() + lo, v.begin() + hi));
            if (c.chance(1, 3)) xs.push_back({p, v});
            break;
        }
        case 1: say("copy of " + id); add(S(e.s), e.v); ++shares; c.check(es.back()->s.weakEquals(es[k]->s), "a copy is not the same slice"); break;
        case 2: say("move out of " + id); add(S(std::move(e.s)), e.v); es[k]->v.clear(); break;
        case 3: {
            size_t hi = c.draw(cnt), lo = c.draw(hi);
            say("sliced(" + std::to_string(lo) + ", " + std::to_string(hi) + ") of " + id);
            const S & cs = e.s;
            V part(e.v.begin() + lo, e.v.begin() + hi);
            add(cs.sliced(lo, hi), part);
            ++shares;
            break;
        }
        case 4: say(id + " = " + jd); c.check(&(e.s = es[j]->s) == &e.s, "assignment does not return its left operand"); e.v = V(es[j]->v); ++shares; break;
        case 5:
            if (k == j) { say(id + " = temporary"); e.s = S(); e.v.clear(); break; }
            say(id + " = move of " + jd);
            e.s = std::move(es[j]->s);
            e.v = es[j]->v;
            es[j]->v.clear();
            break;
        case 6: {
            say("swap " + id + " and " + jd);
            size_t how = c.draw(2);
            if (how == 0) e.s.swap(es[j]->s);
            else if (how == 1) { using pgbn::swap; swap(e.s, es[j]->s); }
            else { if (k != j) std::swap(e.s, es[j]->s); }
            if (k != j) std::swap(e.v, es[j]->v);
            break;
        }
        case 7: {
            size_t hi = c.draw(cnt), lo = c.draw(hi);
            say("slice(" + std::to_string(lo) + ", " + std::to_string(hi) + ") on " + id);
            c.check(&e.s.slice(lo, hi) == &e.s, "slice does not return the object");
            e.v = V(e.v.begin() + lo, e.v.begin() + hi);
            break;
        }
        case 15: say("drop " + id); es.erase(es.begin() + k); if (es.empty()) add(S(), V()); break;
        case 16: if (!xs.empty()) { say("an owner drops its vector"); xs.erase(xs.begin() + c.draw(xs.size() - 1)); } break;
        default: {
            say("cloneData on " + id);
            c.check(&e.s.cloneData() == &e.s, "cloneData does not return the object");
            for (size_t q = 0; q < es.size(); ++q) if (q != k) c.check(!es[q]->s.hasSameBaseData(e.s), "after cloneData, slices " + id + " and " + std::to_string(q) + " still share storage");
            size_t m = 1 + (lng && c.chance(1, 20) ? c.draw(200) : c.draw(3));
            ++writes;
            for (; m; --m, ++writes) {
                const size_t cn = e.v.size();
                switch (op) {
                case 8: case 9: {
                    T x = value();
                    bool own = cn && c.chance(1, 6);  // the value may be an element of the slice itself
                    size_t i = own ? c.draw(cn - 1) : 0;
                    const T & r = own ? e.s[i] : x;
                    if (own) x = e.v[i];
                    bool front = op == 8;
                    say(std::string(front ? "prepend" : "append") + " on " + id);
                    S & t = front ? e.s.prepend(r) : e.s.append(r);
                    c.check(&t == &e.s, "append/prepend does not return the object");
                    e.v.insert(front ? e.v.begin() : e.v.end(), x);
                    break;
                }
                case 10: {
                    size_t d = size(6);
                    T x = value();
                    bool dflt = c.chance(1, 2);
                    say("preExtend(" + std::to_string(d) + ") on " + id);
                    c.check(&(dflt ? e.s.preExtend(d) : e.s.preExtend(d, x)) == &e.s, "preExtend does not return the object");
                    e.v.insert(e.v.begin(), d, dflt ? T{} : x);
                    break;
                }
                case 11: {
                    size_t hi = cn + size(6), lo = c.chance(1, 2) ? 0 : c.draw(hi);
                    say("slice(" + std::to_string(lo) + ", " + std::to_string(hi) + ") on " + id + " (widening)");
                    c.check(&e.s.slice(lo, hi) == &e.s, "slice does not return the object");
                    e.v.resize(std::max(cn, hi));
                    e.v = V(e.v.begin() + lo, e.v.begin() + hi);
                    c.label("a slice is widened");
                    break;
                }
                case 12: {
                    T x = value();
                    say("fill " + id);
                    std::fill(e.s.begin(), e.s.end(), x);
                    std::fill(e.v.begin(), e.v.end(), x);
                    break;
                }
                case 13: {
                    if (!cn) break;
                    size_t i = c.draw(cn - 1);
                    T x = value();
                    say("write element " + std::to_string(i) + " of " + id);
                    if (c.chance(1, 3)) *(e.s.begin() + i) = x; else e.s[i] = x;
                    e.v[i] = x;
                    break;
                }
                default:
                    say("reverse " + id);
                    std::reverse(e.s.begin(), e.s.end());
                    std::reverse(e.v.begin(), e.v.end());
                    break;
                }
            }
            break;
        }
        }
        look("the last step");
    }
    if (writes >= 3 && shares) c.nontrivial();
}
}  // namespace

PBT_PROPERTY("C30", prop_slice,
    "A case is a history of 4 to 64 (now and then some hundred) steps over up to 8 slices of 32-bit words, ints or strings, against one plain vector per slice: construction (empty, or from a vector that the caller may go on owning), copies, moves, assignments "
    "(also to itself), swaps, narrowing, parts, dropping, and writes (append, prepend, also of an element of the slice itself; extension at the front; widening; element and iterator writes), each run of writes preceded by cloneData(). "
    "After every step all slices and all kept vectors are compared. Non-trivial: at least 3 writes and one act of sharing.",
    60000, 2000000) {
    switch (c.weighted({3, 1, 2})) {
    case 0: sliceHistory<uint32_t>(c); break;
    case 1: sliceHistory<int>(c); break;
    default: sliceHistory<std::string>(c); break;
    }
}

// ------------------------------------------------------------------ C31
namespace {
struct MyStream {  // a stream of one's own: nothing but the three operations
    std::string s;
    size_t i = 0;
    bool eof() const { return i == s.size(); }
    char peek() const { return eof() ? 0 : s[i]; }
    char get() { return eof() ? 0 : s[i++]; }
};
const std::map<std::string, TokenType> & tokenTypes() {
    static const std::map<std::string, TokenType> t = {{"+", TokenType::ADD}, {"-", TokenType::SUB}, {"*", TokenType::MUL}, {"/", TokenType::DIV}, {"!", TokenType::FACT}, {"**", TokenType::POW}, {"&", TokenType::AND}, {"|", TokenType::OR},
        {"^", TokenType::XOR}, {"~", TokenType::NOT}, {">>", TokenType::SHIFTRIGHT}, {"<<", TokenType::SHIFTLEFT}, {"(", TokenType::LEFTBRACKET}, {")", TokenType::RIGHTBRACKET}, {",", TokenType::COMMA}, {"%", TokenType::MOD},
        {"==", TokenType::EQU}, {"!=", TokenType::NEQU}, {"<", TokenType::LT}, {"<=", TokenType::LE}, {">", TokenType::GT}, {">=", TokenType::GE}, {"?", TokenType::QMARK}, {":", TokenType::COLON}};
    return t;
}
// the codes with which a text may be refused; at the first defect only
std::vector<pgbn::Enum> codesOf(const std::string & why) {
    if (why == "radix") return {ErrCode::PARSE_INFIXEXPR_RADIX_INVALID, ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL, ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR};
    if (why == "fraction") return {ErrCode::PARSE_INFIXEXPR_NOTDEC_BUTREAL, ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR};
    if (why == "no digits" || why == "digit too large") return {ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR};
    if (why == "undefined symbol") return {ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED};
    if (why == "unusable symbol") return {ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID};
    if (why == "equals") return {ErrCode::PARSE_INFIXEXPR_EQU_INVALID};
    return {ErrCode::PARSE_INFIXEXPR_CHAR_INVALID};
}
std::string genText(Case & c, bool & planned) {
    static const std::vector<std::string> ops = {"+", "-", "*", "/", "!", "**", "&", "|", "^", "~", ">>", "<<", "(", ")", ",", "%", "==", "!=", "<", "<=", ">", ">=", "?", ":"};
    std::string s;
    const size_t n = c.chance(1, 8) ? c.draw(c.chance(1, 25) ? 3000 : 60) : c.draw(10);
    if (n > 60) c.heavy();
    for (size_t i = 0; i < n; ++i) {
        em::space(c, s, 1);
        switch (c.weighted({8, 8, 4, 2, 1})) {
        case 0: s += c.pick(ops); break;
        case 1: s += em::lit(c, c.chance(1, 2) ? Z((unsigned long)c.draw(20)) : c.chance(1, 300) ? genMagWords(c, c.draw(600)) : abs(genZ(c, SMALL)))->lit; break;
        case 2: {
            std::vector<std::string> names;
            const size_t most = c.chance(1, 100) ? 100000 : 100;
            for (auto & f : env().fns) if (f.first.size() < most) names.push_back(f.first);
            for (auto & f : env().consts) if (f.first.size() < most) names.push_back(f.first);
            s += c.pick(names);
            if (!c.chance(1, 4)) s += ' ';
            break;
        }
        case 3: {
            static const std::vector<std::string> frag = {"=", "0", "00", "0x", "01x", "1x", "37x1", "037x1", "099x1", "0x1.5", "012.5", "12.5", "3a", "08", "018x0", "02x2", "036xz", "0b", "a", "idd", "nothing", "id_", "#", "@", "$", "\\", "\"", "'", ";", "[", "{",
                                                         "\x80", "\xff", "&&", "||", "===", "=!", "<>", "><", ">>>", "***", "!==", "0x0x", "00x1", "1_000", "_1", "01x0", "001x0", "35x", "035xy", "035xz"};
            s += c.pick(frag);
            planned = false;
            break;
        }
        default: s += (char)c.range(1, 255); planned = false; break;
        }
        if (c.chance(1, 3)) s += ' ';
    }
    em::space(c, s, 1);
    return s;
}
std::string show(const std::vector<Token> & ts) {
    std::string s;
    for (auto & t : ts) s += " " + std::to_string((unsigned)t.type);
    return s;
}
}  // namespace

PBT_PROPERTY("C31", prop_tokens,
    "A case writes a text of 0 to 60, now and then 3000, tokens (all operators, literals in every spelling, registered names, with or without white space) with occasional defective fragments and arbitrary bytes, feeds it to the tokenizer through a "
    "StringReadStream (C string or std::string, wrapped or copied, moved, partly read before) or a stream type of its own, and compares types, values and symbols with an independent tokenizer. Non-trivial: at least 3 tokens.",
    100000, 3000000) {
    setup();
    quiet();
    static const bool hollow = (SymbolTable::getInstance()->registe("hollow", SymbolTable::Symbol{}), true);
    (void)hollow;
    bool planned = true;
    std::string text = genText(c, planned);
    if (c.chance(1, 16)) text += "hollow";
    if (c.verbose) c.note("text " + brief(text));
    em::Env e = env();
    // reference
    em::Reader rd(e);
    std::string why;
    try { rd.tokenize(text); } catch (em::Bad & b) { why = b.why; }
    std::string unread;
    if (why == "character" || why == "undefined symbol") {
        // which of these it is: a lone '=' and the symbol without a meaning have codes of their own
        // (the reference stops there; the rest of the text starts with the offender)
        unread = "?";
    }
    if (rd.dubious) { c.label("spelling left open"); }
    // streams
    using pg::base::StringReadStream;
    std::string pre = c.chance(1, 4) ? std::string(1 + c.draw(4), 'q') : "";
    std::string whole = pre + text;
    if (whole.find('\0') != std::string::npos) return;
    std::vector<Token> toks;
    pgbn::Enum err = ErrCode::SUCCESS;
    const bool withErr = c.chance(7, 8);
    std::string info;  // of the thread, right after the call
    Status::getInstance()->operator=(ErrCode::SUCCESS);
    auto run = [&](auto & st) {
        for (size_t i = 0; i < pre.size(); ++i) {
            c.check(!st.eof() && st.peek() == whole[i] && st.peek() == whole[i], "the stream shows another character");
            c.check(st.get() == whole[i], "the stream gives another character");
        }
        c.stage("tokenizer");
        toks = withErr ? tokenizer(st, *Hooks::getInstance(), &err) : tokenizer(st, *Hooks::getInstance());
        info = Status::getInstance()->getInfo();
        c.stage("after the tokenizer");
        if (why.empty()) {
            c.check(st.eof(), "the tokenizer succeeded without reading the whole stream");
            c.check(st.peek() == 0 && st.get() == 0 && st.eof(), "a stream at its end gives something");
        }
    };
    size_t kind = c.draw(6);
    if (kind == 0) { MyStream m{whole}; run(m); }
    else if (kind == 1) { StringReadStream s(whole.c_str()); run(s); }
    else if (kind == 2) { StringReadStream s(whole); run(s); }
    else if (kind == 3) { auto b = std::make_unique<std::string>(whole); StringReadStream s(*b, true); for (auto & ch : *b) ch = '('; b.reset(); run(s); }
    else if (kind == 4) { auto b = std::make_unique<std::string>(whole); StringReadStream s(b->c_str(), true); for (auto & ch : *b) ch = ')'; b.reset(); run(s); }
    else if (kind == 5) {  // moved
        StringReadStream s0(whole.c_str(), c.chance(1, 2)), s(std::move(s0));
        run(s);
    } else {
        StringReadStream s0(whole, c.chance(1, 2)), s("1 2 3", c.chance(1, 2));
        (void)s.get();
        s = std::move(s0);
        run(s);
    }
    {   // a plain read of the same text, or of arbitrary bytes (of a std::string also zero bytes)
        std::string raw = whole;
        if (c.chance(1, 4)) { raw.assign(c.draw(40), '\0'); for (auto & ch : raw) if (c.chance(2, 3)) ch = (char)c.draw(255); }
        auto src = std::make_unique<std::string>(raw);
        const bool copied = c.chance(1, 2);
        StringReadStream s(*src, copied);
        if (copied && c.chance(1, 2)) { for (auto & ch : *src) ch = '?'; src.reset(); }
        const size_t moveAt = c.chance(1, 3) ? c.draw(raw.size()) : (size_t)-1;  // to another stream object, which goes on
        std::unique_ptr<StringReadStream> into;
        StringReadStream * t = &s;
        std::string got;
        size_t at = 0;
        while (at <= raw.size()) {
            if (at == moveAt) {
                if (c.chance(1, 2)) into = std::make_unique<StringReadStream>(std::move(*t));
                else { into = std::make_unique<StringReadStream>("abc", c.chance(1, 2)); (void)into->get(); *into = std::move(*t); }
                t = into.get();
                c.check(s.eof() && s.peek() == 0 && s.get() == 0, "a stream moved from still gives something");
                c.label("moved while reading");
            }
            if (t->eof()) break;
            c.check(t->tell() == at, "tell() is not the number of characters read");
            char p = t->peek(); char g = t->get();
            c.check(p == g, "peek and get differ");
            got.push_back(g);
            ++at;
        }
        c.check(got == raw && t->tell() == raw.size(), "the stream does not give exactly its characters");
        c.check(t->get() == 0 && t->tell() == raw.size(), "reading at the end moves the stream");
    }
    if (rd.dubious) return;
    if (rd.toks.size() >= 3) c.nontrivial();
    c.label(why.empty() ? "accepted" : ("refused: " + why).c_str());
    c.check(!toks.empty() && toks.back().type == TokenType::INVALID, "the tokens do not end with the end mark");
    c.checkf(toks.size() == rd.toks.size() + 1, [&] { return "expected " + std::to_string(rd.toks.size()) + " tokens" + (why.empty() ? "" : " before the defect (" + why + ")") + ", got" + show(toks); });
    for (size_t i = 0; i < rd.toks.size(); ++i) {
        const auto & r = rd.toks[i];
        const auto & t = toks[i];
        auto bad = [&](const std::string & m) { c.fail("token " + std::to_string(i) + " (" + r.t + "): " + m + ", got" + show(toks)); };
        if (r.t == "#") {
            if (t.type != TokenType::LITERAL) bad("not a literal");
            if (zOfValue(t.val) != r.val) bad("value " + t.val.toString(10) + " instead of " + r.val.get_str());
        } else if (r.t[0] == '@') {
            std::string nm = r.t.substr(1);
            if (t.type != (e.fns.count(nm) ? TokenType::BUILTINFUNC : TokenType::BUILTINCONSTANT)) bad("another kind of name");
            if (t.pSymbol != SymbolTable::getInstance()->get(nm)) bad("not the symbol of that name");
        } else if (t.type != tokenTypes().at(r.t)) bad("another type");
    }
    if (why.empty()) {
        c.check(err == ErrCode::SUCCESS, "a text without defect is refused with code " + std::to_string(err));
        c.check(info == Status::getInfo(ErrCode::SUCCESS), "a text without defect leaves the status " + info);
        return;
    }
    // at the first defect: find the offending character for the two reasons with several codes
    std::vector<pgbn::Enum> ok = codesOf(why);
    if (!unread.empty()) ok = why == "character" ? std::vector<pgbn::Enum>{ErrCode::PARSE_INFIXEXPR_CHAR_INVALID, ErrCode::PARSE_INFIXEXPR_EQU_INVALID} : std::vector<pgbn::Enum>{ErrCode::PARSE_INFIXEXPR_SYMBOL_UNDEFINED, ErrCode::PARSE_INFIXEXPR_BUILTIN_SYMBOL_INVALID};
    if (rd.badAt < text.size()) {
        if (why == "character") ok = codesOf(text[rd.badAt] == '=' ? "equals" : why);
        if (why == "undefined symbol") ok = codesOf(text.compare(rd.badAt, 6, "hollow") == 0 && (rd.badAt + 6 == text.size() || !(em::Reader::an(text[rd.badAt + 6]) || text[rd.badAt + 6] == '_')) ? "unusable symbol" : why);
    }
    if (withErr) c.check(std::count(ok.begin(), ok.end(), err) == 1, "refused (" + why + ") with code " + std::to_string(err) + ", expected " + std::to_string(ok[0]));
    bool named = false;
    for (auto k : ok) if (Status::getInfo(k) == info) named = true;
    c.check(named, "refused (" + why + "), and the status of the thread says " + info);
}

// ------------------------------------------------------------------ C32
namespace {
std::string oneText(Case & c, Z & v, size_t & ops, int budget) {
    em::Gen g(c, env(), budget);
    g.laxBranches = false;
    em::Gen::R r = g.gen(1 + (int)c.draw(5));
    ops = g.ops;
    v = r.v;
    return em::text(c, *r.n);
}
}  // namespace
PBT_PROPERTY("C32", prop_parser,
    "A case is a history of 2 to 20 (now and then 120) steps over one parser, up to 3 node pools (one of them the default one) and a growing list of trees: parse a generated text (re-initialising the parser or with a fresh one), parse a text with a "
    "token removed, doubled or replaced, build a tree by hand from earlier trees with the pool's operations, evaluate any earlier tree again. Trees of one pool go beyond its first block of 32 nodes. "
    "Non-trivial: at least 2 trees and more than 32 nodes in one pool, or a valid text after a malformed one with the same parser.",
    30000, 800000) {
    setup();
    quiet();
    struct Tree { ExprNode * root; Z v; size_t pool; };
    std::vector<std::unique_ptr<NodePool>> own;
    std::vector<NodePool *> pools;
    const size_t np = 1 + c.draw(1);
    for (size_t i = 0; i < np; ++i) { own.push_back(std::make_unique<NodePool>()); pools.push_back(own.back().get()); }
    if (c.chance(1, 4)) pools.push_back(NodePool::getDefaultInstance());
    std::vector<std::vector<ExprNode *>> nodes(pools.size());  // where each node was when it was first seen
    std::vector<size_t> base;
    for (auto * p : pools) base.push_back(p->count());
    std::vector<Tree> trees;
    ExprParser parser;
    bool first = true, failed = false, recovered = false;
    auto audit = [&](const char * when) {
        for (size_t q = 0; q < pools.size(); ++q) {
            const size_t n = pools[q]->count() - base[q];
            c.check(n >= nodes[q].size(), std::string("the pool lost nodes: ") + when);
            for (size_t i = 0; i < n; ++i) {
                ExprNode * p = pools[q]->get((uint32_t)(base[q] + i));
                c.check(p != nullptr && p->indexInPool == base[q] + i, std::string("a node does not know its place in the pool: ") + when);
                if (i < nodes[q].size()) c.check(p == nodes[q][i], std::string("a node of the pool has moved: ") + when);
                else nodes[q].push_back(p);
            }
        }
    };
    auto evalTree = [&](const Tree & t, const char * when) {
        c.stage(std::string("evaluate a tree ") + when);
        Value v = t.root->evalCallback(t.root, false);
        c.checkf(zOfValue(v) == t.v, [&] { return std::string("a tree evaluates to ") + zs(zOfValue(v)) + " instead of " + zs(t.v) + ", " + when; });
    };
    auto small = [&](const Z & v) { return bitlen(v) < 2000; };
    const bool lng = c.chance(1, 150);  // now and then many trees, and trees of thousands of nodes
    if (lng) c.heavy();
    const size_t n = 2 + c.draw(lng ? 120 : 18);
    for (size_t step = 0; step < n; ++step) {
        size_t q = c.draw(pools.size() - 1);
        size_t op = c.weighted({6, 3, 3, 3});
        if (trees.empty() && op >= 2) op = 0;
        if (op <= 1) {
            Z v;
            size_t ops = 0;
            std::string t = oneText(c, v, ops, c.chance(1, 4) ? 30 : 8);
            if (lng && op == 0 && c.chance(1, 3)) {
                std::string l = "(" + t + ")";
                for (size_t k = c.chance(1, 4) ? c.draw(4000) : c.draw(200); k; --k) l += c.chance(1, 2) ? "+" + std::to_string(c.draw(99)) : "-7";
                t.swap(l);
            }
            if (op == 1) {  // spoil it
                static const std::vector<std::string> bad = {"(", ")", "=", ",", "?", ":", "#", "+", "undefd", " 1 ", "099x1", "1(", "id"};
                size_t at = c.draw(t.size());
                if (c.chance(1, 2) && at < t.size()) t.erase(at, 1 + c.draw(2)); else t.insert(at, c.pick(bad));
            }
            bool valid = true;
            Z want;
            em::Reader rd(env());
            em::Limits lim;
            try { auto p = rd.read(t); want = em::eval(*p, env(), lim); } catch (em::Bad &) { valid = false; } catch (em::TooBig &) { continue; }
            if (rd.dubious) continue;
            const bool fresh = !first && c.chance(1, 6);
            if (c.verbose) c.note(std::string(fresh ? "fresh parser, " : "parser, ") + "pool " + std::to_string(q) + ", text " + brief(t) + (valid ? "" : " (malformed)"));
            pg::base::StringReadStream st(t);
            ExprNode * root;
            pgbn::Enum code;
            c.stage("parse");
            if (fresh) { ExprParser p2(st, *Hooks::getInstance(), pools[q]); root = p2.parse(); code = p2.errCode(); }
            else { parser.init(st, *Hooks::getInstance(), pools[q]); root = parser.parse(); code = parser.errCode(); if (!valid) failed = true; else if (failed) recovered = true; }
            first = false;
            if (valid) {
                c.check(root != nullptr && code == ErrCode::SUCCESS, "a valid text is refused with code " + std::to_string(code) + ": " + brief(t));
                trees.push_back({root, want, q});
                audit("after a parse");
                c.check(root->indexInPool < pools[q]->count() && pools[q]->get(root->indexInPool) == root, "the root is not a node of the pool given");
                evalTree(trees.back(), "right after it was read");
            } else {
                c.check(root == nullptr && code != ErrCode::SUCCESS, "a malformed text is accepted: " + brief(t));
                audit("after a malformed text");
            }
        } else if (op == 2) {
            Tree a = trees[c.draw(trees.size() - 1)], b = trees[c.draw(trees.size() - 1)];
            if (a.pool != b.pool) b = a;
            NodePool * p = pools[a.pool];
            ExprNode * r = nullptr;
            Z v;
            switch (c.draw(5)) {
            case 0: {
                static const std::vector<std::pair<TokenType, std::string>> os = {{TokenType::ADD, "+"}, {TokenType::SUB, "-"}, {TokenType::AND, "&"}, {TokenType::OR, "|"}, {TokenType::XOR, "^"}, {TokenType::LT, "<"}, {TokenType::LE, "<="},
                    {TokenType::GT, ">"}, {TokenType::GE, ">="}, {TokenType::EQU, "=="}, {TokenType::NEQU, "!="}, {TokenType::MUL, "*"}};
                auto o = c.pick(os);
                if (o.second == "*" && !(small(a.v) && small(b.v))) o = os[0];
                if (bitlen(a.v) > 5000 || bitlen(b.v) > 5000) o = os[5];
                r = p->newBinOpNode(o.first, a.root, b.root);
                v = em::Gen::calc(o.second, a.v, b.v);
                break;
            }
            case 1: { auto k = c.draw(2); r = p->newUnaryOpNode(k == 0 ? TokenType::SUB : k == 1 ? TokenType::NOT : TokenType::ADD, a.root); v = k == 0 ? Z(-a.v) : k == 1 ? Z(~a.v) : a.v; break; }
            case 2: { Tree d = trees[c.draw(trees.size() - 1)]; if (d.pool != a.pool) d = b; r = p->newIfElseNode(a.root, b.root, d.root); v = a.v != 0 ? b.v : d.v; break; }
            case 3: v = genZ(c, SMALL); r = p->newLiteralNode(valueOf(v)); break;
            case 4: r = p->newBuiltinValNode(SymbolTable::getInstance()->get("K")); v = env().consts.at("K"); break;
            default: r = p->newFunctionCallNode(SymbolTable::getInstance()->get("sub"), {a.root, b.root}); v = env().fns.at("sub").f({a.v, b.v}); break;
            }
            if (c.verbose) c.note("a node built by hand");
            c.check(r != nullptr, "no node");
            trees.push_back({r, v, a.pool});
            audit("after a node built by hand");
            evalTree(trees.back(), "built by hand");
        } else {
            size_t k = c.draw(trees.size() - 1);
            if (c.verbose) c.note("evaluate tree " + std::to_string(k));
            evalTree(trees[k], "evaluated again");
        }
    }
    for (auto & t : trees) evalTree(t, "at the end");
    bool many = false;
    for (auto & v : nodes) if (v.size() > 32) many = true;
    if (many) c.label("more than one block of nodes");
    if (recovered) c.label("valid text after a malformed one");
    if ((many && trees.size() >= 2) || recovered) c.nontrivial();
}

// ------------------------------------------------------------------ C33
namespace {
struct HookGuard {
    decltype(Hooks::literal2Value) saved = Hooks::getInstance()->literal2Value;
    void back() { Hooks::getInstance()->literal2Value = saved; }
    ~HookGuard() { back(); }
};
std::string lower(std::string s) { for (auto & ch : s) ch = (char)std::tolower((unsigned char)ch); return s; }
}  // namespace
PBT_PROPERTY("C33", prop_hook,
    "A case writes an expression of 1 to 8 (now and then 600) literals (every radix spelling, with a fraction for decimals) joined by + and - and brackets, installs a hook that computes a drawn function of (radix, digits before, digits after), possibly refusing "
    "one of the literals (or no hook at all: every literal is refused), evaluates the text with eval or peval, and compares value and report with the sum computed from the pieces; before, during and after, another thread evaluates with its own hook. "
    "Non-trivial: at least 2 literals, one of them with a radix other than 10 or a fraction.",
    20000, 500000) {
    setup();
    quiet();
    struct Lit { int radix; std::string before, after; bool plus; };
    std::vector<Lit> ls;
    std::string text;
    bool special = false;
    const size_t n = 1 + (c.chance(1, 100) ? c.draw(600) : c.draw(7));
    if (n > 8) c.heavy();
    for (size_t i = 0; i < n; ++i) {
        Lit l;
        Z v = c.chance(1, 2) ? Z((unsigned long)c.draw(30)) : c.chance(1, 200) ? genMagWords(c, c.draw(c.chance(1, 8) ? 1000 : 100)) : abs(genZ(c, SMALL));
        l.plus = i == 0 || c.chance(1, 2);
        std::string spelled;
        size_t k = c.weighted({3, 2, 2, 2, 3});
        if (v == 0 && k == 4) k = 0;
        if (k == 1 && v == 0) k = 0;  // "00" is octal 0 and "0" decimal 0
        switch (k) {
        case 1: l.radix = 8; l.before = v.get_str(8); spelled = "0" + l.before; break;
        case 2: l.radix = 16; l.before = v.get_str(16); spelled = "0x" + l.before; break;
        case 3: l.radix = (int)c.range(2, 36); l.before = v.get_str(l.radix); spelled = (l.radix < 10 && c.chance(1, 2) ? "00" : "0") + std::to_string(l.radix) + "x" + l.before; break;
        default: l.radix = 10; l.before = v.get_str(10); spelled = l.before; if (k == 4) { size_t m = 1 + (c.chance(1, 60) ? c.draw(c.chance(1, 100) ? 70000 : 3000) : c.draw(6)); while (m--) l.after += (char)('0' + c.draw(9)); spelled += "." + l.after; } break;
        }
        if (k == 1) {  // "0" + octal digits: with digits that could be a radix prefix nothing else follows, so it stays octal
            l.before = spelled.substr(1);
        }
        if (c.chance(1, 3)) for (auto & ch : spelled) if (ch != 'x' && c.chance(1, 2)) ch = (char)std::toupper((unsigned char)ch);
        if (l.radix != 10 || !l.after.empty()) special = true;
        if (i) text += l.plus ? "+" : "-";
        bool br = c.chance(1, 6);
        text += (br ? "(" : "") + std::string(c.chance(1, 3) ? " " : "") + spelled + (br ? ")" : "") + (c.chance(1, 3) ? " " : "");
        ls.push_back(l);
    }
    const int mode = (int)c.draw(2);
    const size_t refuse = c.chance(1, 4) ? c.draw(n - 1) : n;
    // the drawn function: of everything the hook is told
    auto f = [mode](int radix, const std::string & b, const std::string & a) -> Z {
        if (mode == 0) return Z(radix) * 1000003 + (unsigned long)b.size() * 101 + (unsigned long)a.size();
        if (mode == 1) { Z r = radix; for (char ch : lower(b) + "." + lower(a)) r = r * 131 + ch; return r; }
        Z v(lower(b), radix);  // fixed point with 6 decimals
        std::string d = a.substr(0, 6);
        d.resize(6, '0');
        return v * 1000000 + Z(d, 10);
    };
    Z want = 0;
    for (auto & l : ls) { Z x = f(l.radix, l.before, l.after); want = l.plus ? Z(want + x) : Z(want - x); }
    const int threads = c.chance(1, 8) ? (int)c.range(1, 3) : 0;
    if (c.chance(1, 12)) {  // no hook: every literal is refused
        HookGuard none;
        Hooks::getInstance()->literal2Value = nullptr;
        if (c.verbose) c.note("text " + brief(text) + " without a hook");
        c.label("no hook");
        if (n >= 2 && special) c.nontrivial();
        *Status::getInstance() = ErrCode::SUCCESS;
        pgbn::Status st;
        c.stage("evaluation without a hook");
        auto r = threads ? pgbn::expr::peval(text, threads, &st) : pgbn::expr::eval(text, &st);
        std::string info = st.getInfo();
        c.check(info == Status::getInfo(ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR), "without a hook, a literal is reported as " + info);
        c.check(r.toString(10) == "0", "without a hook, the value is " + r.toString(10));
        none.back();
        c.check(pgbn::expr::eval("0x11+1").toString(10) == "18", "the former hook does not read literals as before");
        return;
    }
    if (c.verbose) c.note("text " + brief(text) + (refuse < n ? ", literal " + std::to_string(refuse) + " refused" : "") + ", hook " + std::to_string(mode) + (threads ? ", peval" : ""));
    if (n >= 2 && special) c.nontrivial();
    HookGuard guard;
    std::vector<Lit> seen;
    const bool claim = c.chance(1, 2);
    Hooks::getInstance()->literal2Value = [&](Value & v, int radix, const std::string & b, const std::string & a) {
        seen.push_back({radix, b, a, true});
        if (seen.size() - 1 == refuse) { if (claim) v = valueOf(77); return false; }
        v = valueOf(f(radix, b, a));
        return true;
    };
    const bool plainBefore = c.chance(1, 4), plainAfter = c.chance(1, 4);
    Z plain = 0;
    for (auto & l : ls) { Z x(lower(l.before), l.radix); plain = l.plus ? Z(plain + x) : Z(plain - x); }
    auto plainly = [&](const char * when) {  // the same text as the library's own hook reads it
        std::string got = pgbn::expr::eval(text).toString(10);
        c.checkf(got == plain.get_str(), [&] { return "with the library's own hook, " + std::string(when) + ", the value is " + got + " instead of " + plain.get_str(); });
    };
    if (plainBefore) { auto mineHook = Hooks::getInstance()->literal2Value; guard.back(); plainly("before"); Hooks::getInstance()->literal2Value = mineHook; }
    bool other = c.chance(1, 16);
    auto elsewhere = [&] {  // a thread of its own reads literals in its own way
        std::string got;
        std::thread([&] { got = pgbn::expr::eval("012 + 0x10 + 5").toString(10); }).join();
        c.check(got == "31", "another thread reads 012 + 0x10 + 5 as " + got);
    };
    if (other) elsewhere();
    *Status::getInstance() = ErrCode::SUCCESS;
    pgbn::Status mine;
    const bool useMine = c.chance(1, 4);
    c.stage("evaluation with a hook");
    auto r = threads ? pgbn::expr::peval(text, threads, useMine ? &mine : nullptr) : pgbn::expr::eval(text, useMine ? &mine : nullptr);
    c.stage("afterwards");
    const std::string info = useMine ? mine.getInfo() : Status::getInstance()->getInfo();
    if (other) elsewhere();
    if (c.chance(1, 4)) { guard.back(); c.check(pgbn::expr::eval("0x11+1").toString(10) == "18", "the former hook does not read literals as before"); }
    if (plainAfter) { guard.back(); plainly("after"); }
    const size_t expectSeen = refuse < n ? refuse + 1 : n;
    auto tell = [&] { std::string s; for (auto & l : seen) s += " (" + std::to_string(l.radix) + ", " + l.before + ", " + l.after + ")"; return s; };
    c.checkf(seen.size() >= expectSeen || (refuse < n), [&] { return "the hook was asked for " + std::to_string(seen.size()) + " literals of " + std::to_string(n) + ":" + tell(); });
    for (size_t i = 0; i < seen.size() && i < n; ++i)
        c.checkf(seen[i].radix == ls[i].radix && lower(seen[i].before) == lower(ls[i].before) && lower(seen[i].after) == lower(ls[i].after), [&] { return "the hook was told" + tell() + " for " + brief(text); });
    if (refuse < n) {
        c.check(info == Status::getInfo(ErrCode::PARSE_INFIXEXPR_LITERAL2NUM_ERROR), "a refused literal is reported as " + info);
        c.label("a literal is refused");
    } else {
        c.checkf(r.toString(10) == want.get_str(), [&] { return "value " + r.toString(10) + " instead of " + want.get_str() + ", hook told" + tell(); });
        if (!useMine) c.check(info == Status::getInfo(ErrCode::SUCCESS), "a success leaves the status " + info);
    }
}

// ------------------------------------------------------------------ C34
namespace {
using pg::util::TypeArray;
static_assert(TypeArray<int, char, double>::index<int>() == 0 && TypeArray<int, char, double>::index<char>() == 1 && TypeArray<int, char, double>::index<double>() == 2);
static_assert(TypeArray<int, char, double>::size() == 3 && TypeArray<>::size() == 0);

// ---- a named store
void objectHistory(Case & c) {
    pgbn::ObjectManager<std::string> m;
    std::map<std::string, std::string> ref;
    std::map<std::string, std::string *> where;
    auto name = [&] { return c.chance(1, 6) ? std::string(c.draw(40), 'n') : std::string(1, (char)('a' + c.draw(9))); };
    if (c.chance(1, 400)) {  // very many names
        static const std::vector<uint64_t> sizes = {250, 1000, 4090, 20000, 65530};
        const size_t k = c.pick(sizes) + c.draw(20), step = 1 + c.draw(9);
        c.massive();
        pgbn::ObjectManager<size_t> big;
        for (size_t i = 0; i < k; ++i) big.registe("m" + std::to_string(i * step), size_t(i * 3));
        size_t * first = big.get("m0");
        if (c.chance(1, 2)) for (size_t i = 0; i < k; i += 7) big.registe("m" + std::to_string(i * step), size_t(i * 3));
        for (size_t i = 0; i < k; ++i) { auto * p = big.get("m" + std::to_string(i * step)); c.checkf(p && *p == i * 3, [&] { return "of " + std::to_string(k) + " names the one registered as number " + std::to_string(i) + (p ? " gives another object" : " is not found"); }); }
        c.check(big.get("m0") == first && big.get("m" + std::to_string(k * step)) == nullptr && big.get("m") == nullptr, "a name that was not registered is found, or an object moved");
        c.nontrivial();
        c.label("named store with very many names");
        return;
    }
    const size_t n = 1 + c.draw(c.chance(1, 8) ? (c.chance(1, 40) ? 2000 : 200) : 25);
    if (n > 200) c.heavy();
    for (size_t i = 0; i < n; ++i) {
        std::string k = c.chance(1, 3) ? "k" + std::to_string(c.draw(300)) : name();
        switch (c.weighted({6, 6, 1})) {
        case 0: { std::string v(c.draw(30), (char)('A' + c.draw(25))); m.registe(k, v); ref[k] = v; break; }
        case 2: {
            pgbn::ObjectManager<std::string> o(std::move(m));
            for (auto & r : ref) { auto * p = o.get(r.first); c.check(p && *p == r.second, "a moved store lost " + r.first); }
            m = std::move(o);
            where.clear();
            break;
        }
        default: break;
        }
        auto * p = m.get(k);
        const auto & cm = m;
        c.check(cm.get(k) == p, "the constant and the other lookup differ");
        c.check((p != nullptr) == (ref.count(k) > 0), "lookup of " + pbt::quote(k) + " answers whether it is there wrongly");
        if (p) { c.check(*p == ref[k], "lookup of " + pbt::quote(k) + " gives another object"); if (!where.count(k)) where[k] = p; }
        for (auto & w : where) c.check(*w.second == ref[w.first] && m.get(w.first) == w.second, "an object that was looked up before is no longer the registered one: " + pbt::quote(w.first));
        if (c.chance(1, 4) && p) { *p += "!"; ref[k] += "!"; c.check(*m.get(k) == ref[k], "a change through the pointer is lost"); }
    }
    c.nontrivial();
    c.label("named store");
}

using Var = Variant<std::monostate, int, std::string, std::vector<int>>;
struct Mod { int k = 0; int i = 0; std::string s; std::vector<int> v; };
void agree(Case & c, const Var & v, const Mod & m, const char * when) {
    c.check(v.is<std::monostate>() == (m.k == 0) && v.is<int>() == (m.k == 1) && v.is<std::string>() == (m.k == 2) && v.is<std::vector<int>>() == (m.k == 3), std::string("a variant tells the wrong type after ") + when);
    if (m.k == 1) c.check(v.as<int>() == m.i, std::string("a variant holds another int after ") + when);
    if (m.k == 2) c.check(v.as<std::string>() == m.s, std::string("a variant holds another string after ") + when);
    if (m.k == 3) c.check(v.as<std::vector<int>>() == m.v, std::string("a variant holds another vector after ") + when);
}
void variantHistory(Case & c) {
    std::vector<Var> vs(3);
    std::vector<Mod> ms(3);
    const size_t n = 2 + c.draw(20);
    for (size_t i = 0; i < n; ++i) {
        size_t a = c.draw(2), b = c.draw(2);
        switch (c.draw(7)) {
        case 0: { int x = (int)c.range(-5, 5); vs[a] = int(x); ms[a] = {1, x, "", {}}; break; }
        case 1: { std::string s(c.draw(40), 's'); vs[a] = std::string(s); ms[a] = {2, 0, s, {}}; break; }
        case 2: { std::vector<int> v(c.draw(9), 4); vs[a] = std::vector<int>(v); ms[a] = {3, 0, "", v}; break; }
        case 3: { const Var & o = vs[b]; vs[a] = o; ms[a] = Mod(ms[b]); break; }
        case 4: if (a != b) { vs[a] = std::move(vs[b]); ms[a] = ms[b]; vs[b] = std::monostate{}; ms[b] = Mod{}; } break;
        case 5: { const Var & o = vs[a]; Var copy(o); agree(c, copy, ms[a], "copying"); Var moved(std::move(copy)); agree(c, moved, ms[a], "moving"); break; }
        case 6: { std::string s(c.draw(30), 'q'); Var x{std::string(s)}; agree(c, x, {2, 0, s, {}}, "construction"); break; }
        default:
            if (ms[a].k == 2) { vs[a].as<std::string>() += "+"; ms[a].s += "+"; }
            if (ms[a].k == 3) { vs[a].as<std::vector<int>>().push_back(1); ms[a].v.push_back(1); }
            break;
        }
        for (size_t k = 0; k < 3; ++k) agree(c, vs[k], ms[k], "a step");
    }
    c.nontrivial();
    c.label("variant");
}

void commandLine(Case & c) {
    using pg::util::ParseCmdConfig;
    // options: a, b take nothing; p, q take the next argument; e is registered without callback
    std::vector<std::string> log, want;
    size_t stopAt = c.chance(1, 8) ? 1 + c.draw(3) : 0;
    auto cb = [&](char name) { return [&log, name, &stopAt](const char * s) { log.push_back(std::string(1, name) + (s ? std::string("=") + s : "")); return !(stopAt && log.size() == stopAt); }; };
    std::unordered_map<char, ParseCmdConfig> cfg;
    for (char k : std::string("ab")) cfg[k] = {ParseCmdConfig::OPTION, cb(k)};
    for (char k : std::string("pq")) cfg[k] = {ParseCmdConfig::PARAM, cb(k)};
    cfg['e'] = {ParseCmdConfig::PARAM, nullptr};
    static const std::vector<std::string> words = {"-a", "-b", "-p", "-q", "-e", "-x", "-", "--", "a", "value", "", "-pq", "-abc", "-1", "p", "--all"};
    std::vector<std::string> args = {"program"};
    size_t n = c.draw(c.chance(1, 60) ? 300 : 9);
    while (n--) args.push_back(c.pick(words));
    bool stops = false;
    for (size_t i = 1; i < args.size() && !stops; ++i) {
        const std::string & s = args[i];
        if (s.size() < 2 || s[0] != '-') continue;
        if (s[1] == 'a' || s[1] == 'b') want.push_back(std::string(1, s[1]));
        else if (s[1] == 'p' || s[1] == 'q') { if (i + 1 < args.size()) { want.push_back(std::string(1, s[1]) + "=" + args[i + 1]); ++i; } else want.push_back(std::string(1, s[1])); }
        else continue;
        stops = stopAt && want.size() == stopAt;
    }
    std::string all;
    for (auto & a : args) all += " " + pbt::quote(a);
    if (c.verbose) c.note("arguments" + all);
    std::vector<char *> argv;
    for (auto & a : args) argv.push_back(a.data());
    argv.push_back(nullptr);
    if (want.size() >= 2) c.nontrivial();
    c.label("command line");
    auto line = [](const std::vector<std::string> & v) { std::string s; for (auto & x : v) s += x + ";"; return s; };
    if (!stops) {
        c.stage("parseCmdSimply");
        pg::util::parseCmdSimply((int)args.size(), argv.data(), cfg);
        c.check(log == want, "callbacks " + line(log) + " instead of " + line(want) + " for" + all);
    } else {
        auto r = pbt::inChild([&] {
            cfg['a'].callbcak = [f = cfg['a'].callbcak, &log](const char * s) { bool k = f(s); std::fprintf(stderr, "%s;", log.back().c_str()); return k; };
            for (char k : std::string("bpq")) cfg[k].callbcak = [f = cfg[k].callbcak, &log](const char * s) { bool q = f(s); std::fprintf(stderr, "%s;", log.back().c_str()); return q; };
            pg::util::parseCmdSimply((int)args.size(), argv.data(), cfg);
            _exit(99);
        });
        c.check(r.exited && r.code == 0, "a callback that asks to stop does not end the program with success for" + all);
        c.check(r.err == line(want), "callbacks " + r.err + " instead of " + line(want) + " for" + all);
    }
}
}  // namespace

PBT_PROPERTY("C34", prop_util,
    "A case draws one of: 1 to 40 machine words (bit counts, leading and trailing zeros, rounded-up division against bit-by-bit loops), digit strings in radix 2 to 36 around the limits of 32 and 64 bits with trailing text, "
    "a history over the named store with pointers kept from earlier lookups, a history over the variant, an argument list for the command line helper. Non-trivial: the history has a step that changes something, or the number has at least 2 digits.",
    60000, 1500000) {
    switch (c.weighted({3, 4, 2, 2, 2})) {
    case 0: {
        c.label("bit counts and division");
        const size_t n = 1 + c.draw(39);
        for (size_t i = 0; i < n; ++i) {
            uint32_t x = genWord(c);
            int ones = 0, lead = 0, trail = 0;
            for (int b = 0; b < 32; ++b) ones += (x >> b) & 1;
            while (lead < 32 && !((x >> (31 - lead)) & 1)) ++lead;
            while (trail < 32 && !((x >> trail) & 1)) ++trail;
            if (c.verbose) c.note("word " + std::to_string(x));
            c.check(pg::util::popcnt(x) == ones, "popcnt(" + std::to_string(x) + ") = " + std::to_string(pg::util::popcnt(x)));
            if (x) {
                c.check(pg::util::clz(x) == lead, "clz(" + std::to_string(x) + ") = " + std::to_string(pg::util::clz(x)));
                c.check(pg::util::ctz(x) == trail, "ctz(" + std::to_string(x) + ") = " + std::to_string(pg::util::ctz(x)));
                c.nontrivial();
            }
            uint64_t a = c.chance(1, 2) ? boundary64(c) : c.bits((int)c.range(1, 64)), b = 1 + (c.chance(1, 2) ? c.draw(64) : c.bits((int)c.range(1, 63)));
            Z q;
            mpz_cdiv_q(q.get_mpz_t(), zu64(a).get_mpz_t(), zu64(b).get_mpz_t());
            c.check(zu64(pg::util::ceilDivide(a, b)) == q, "ceilDivide(" + std::to_string(a) + ", " + std::to_string(b) + ") = " + std::to_string(pg::util::ceilDivide(a, b)));
            int p = (int)c.range(0, INT32_MAX), d = (int)c.range(1, c.chance(1, 2) ? 40 : INT32_MAX);
            c.check((int64_t)pg::util::ceilDivide(p, d) == ((int64_t)p + d - 1) / d, "ceilDivide of ints is wrong");
        }
        c.check(pgbn::checkLittleEndian() == pgbn::isLittleEndian(), "the two answers about the order of bytes differ");
        std::vector<std::pair<size_t, std::string>> got;
        struct Visitor { std::vector<std::pair<size_t, std::string>> * out; void operator()(pg::SizeType i, int x) { out->push_back({i, std::to_string(x)}); } void operator()(pg::SizeType i, const std::string & s) { out->push_back({i, s}); } };
        int i1 = (int)c.range(-9, 9), i2 = (int)c.range(-9, 9);
        std::string s1(c.draw(30), 'v'), keep = s1;
        pg::util::visitParamPackage(Visitor{&got}, i1, s1, i2, std::string("end"));
        c.check(got == std::vector<std::pair<size_t, std::string>>{{0, std::to_string(i1)}, {1, keep}, {2, std::to_string(i2)}, {3, "end"}}, "visitParamPackage does not visit each argument once in order");
        c.check(s1 == keep, "visitParamPackage changes an argument");
        break;
    }
    case 1: {
        c.label("digits to machine words");
        int radix = (int)c.range(2, 36);
        Z v;
        switch (c.draw(3)) {
        case 0: v = zu64(boundary64(c)); break;
        case 1: v = pow2(32) + (long)c.range(-3, 3); break;
        case 2: v = pow2(64) + (long)c.range(-3, 3); break;
        default: v = abs(genZ(c, SMALL)); break;
        }
        std::string d = v.get_str(radix);
        for (auto & ch : d) if (c.chance(1, 4)) ch = (char)std::toupper((unsigned char)ch);
        if (c.chance(1, 4)) d = std::string(c.draw(c.chance(1, 20) ? 3000 : 5), '0') + d;
        static const std::vector<std::string> tails = {"", " ", "!", "-1", ".5", "_", "\xff"};
        std::string s = d + c.pick(tails);
        if (d.size() >= 2) c.nontrivial();
        if (c.verbose) c.note("radix " + std::to_string(radix) + " text " + pbt::quote(s));
        const Z max32 = pow2(32) - 1, max64 = pow2(64) - 1;
        char * end = (char *)"x";
        errno = c.chance(1, 2) ? 0 : EINVAL;  // left over from something else
        const bool wantEnd = c.chance(3, 4);
        c.stage("cStrToU32");
        uint32_t r = pg::util::cStrToU32(s.c_str(), wantEnd ? &end : nullptr, radix);
        if (v <= max32) {
            c.check(zu64(r) == v, "cStrToU32(" + pbt::quote(s) + ", " + std::to_string(radix) + ") = " + std::to_string(r));
            if (wantEnd) c.check(end == s.c_str() + d.size(), "cStrToU32 does not say where the number ends: " + pbt::quote(s));
            c.check(errno == 0, "cStrToU32 succeeds and leaves errno set");
        } else {
            c.check(errno == ERANGE, "cStrToU32 does not report that " + pbt::quote(s) + " is too large");
            c.check(r == UINT32_MAX, "cStrToU32 of a number that is too large gives " + std::to_string(r));
            if (wantEnd) c.check(end == nullptr, "cStrToU32 of a number that is too large claims that it ends somewhere");
            c.label("too large for 32 bits");
        }
        errno = 0;
        uint64_t q = pg::util::cStrToU64(s.c_str(), wantEnd ? &end : nullptr, radix);
        if (v <= max64) { c.check(zu64(q) == v && errno == 0, "cStrToU64(" + pbt::quote(s) + ", " + std::to_string(radix) + ") = " + std::to_string(q)); if (wantEnd) c.check(end == s.c_str() + d.size(), "cStrToU64 does not say where the number ends"); }
        else c.check(errno == ERANGE && q == UINT64_MAX, "cStrToU64 does not report that " + pbt::quote(s) + " is too large");
        break;
    }
    case 2: objectHistory(c); break;
    case 3: variantHistory(c); break;
    default: commandLine(c); break;
    }
}
