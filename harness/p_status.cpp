// Status codes: texts, handlers, contexts.
#include <any>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <thread>
#include <tuple>
#include "view.h"
using namespace num;
using pgbn::Callback;
using pgbn::Enum;
using pgbn::Status;
namespace ErrCode = pgbn::ErrCode;

namespace {
// looked at before main and before the library's own static objects exist
struct Early {
    std::string info[17];
    bool found[17], cb[17];
    std::string afterSet;
    Early() {
        for (Enum e = 0; e < 17; ++e) { found[e] = Status::find(e); info[e] = Status::getInfo(e); cb[e] = !!Status::getCallback(e); }
        Status s;
        s = ErrCode::SUCCESS;
        afterSet = s.getInfo();
    }
};
__attribute__((init_priority(101))) Early early;

const char * const WORD[17] = {"Success", "Divide By Zero", "Radix Invalid", "Number String Empty", "Sig Invalid", "Parse String To Number", "Overflow", "Shift", "Char Invalid", "Not-Decimal", "Undefined", "",
                               "Radix Invalid", "Literal", "==", "Token", "Arguments"};

struct Original { std::string info; Callback cb; };
std::vector<Original> & originals() {
    static std::vector<Original> o = [] {
        std::vector<Original> r;
        for (Enum e = 0; e < 17; ++e) r.push_back({Status::getInfo(e), Status::getCallback(e)});
        return r;
    }();
    return o;
}
enum class Wide : uint32_t {};
enum Plain : int {};
enum class Small : uint8_t {};
struct Entry { std::string info; int handler = 0; int tag = 0; };  // handler 0: none
struct Event { int handler, tag; std::string text, seen; bool operator==(const Event & o) const { return handler == o.handler && tag == o.tag && text == o.text && seen == o.seen; } };
struct World;
World * W = nullptr;
void freeHandler(int tag, const std::string & text);
struct Obj { int id; void member(int tag, const std::string & text); };
struct World {
    std::vector<Event> got;
    Status * target = nullptr;  // the status being set, if it can be looked at
    Status * nested = nullptr;  // set to nestedCode by the handler
    Enum nestedCode = 0;
    int depth = 0;
    void run(int handler, int tag, const std::string & text) {
        got.push_back({handler, tag, text, target ? target->getInfo() : std::string("-")});
        if (nested && depth == 0) {
            ++depth;
            Status * n = nested, * t = target;
            target = n;
            *n = nestedCode;
            target = t;
            --depth;
        }
    }
};
void freeHandler(int tag, const std::string & text) { W->run(2, tag, text); }
void Obj::member(int tag, const std::string & text) { W->run(3, tag, text + "#" + std::to_string(id)); }

std::string genInfo(Case & c) {
    switch (c.weighted({4, 1, 2, 1, 1})) {
    case 0: { std::string s; size_t n = c.draw(30); for (size_t i = 0; i < n; ++i) s += (char)(32 + c.draw(94)); return s; }
    case 1: return "";
    case 2: { std::string s; size_t n = 1 + c.draw(12); for (size_t i = 0; i < n; ++i) s += (char)c.draw(255); return s; }
    case 3:
        if (c.chance(1, 400)) { c.massive(); return std::string(4000 + c.draw(70000), (char)('a' + c.draw(25))) + "."; }
        return std::string(c.draw(5000), (char)('a' + c.draw(25)));
    default: return std::string("{0}%s%d\0tail", 12);
    }
}
uint32_t freshCode = 1u << 20;  // process-wide; only "never seen before" matters
}  // namespace

PBT_PROPERTY("C21", prop_status,
    "A case is a history of 1 to ~60 (rarely 1200) steps: registering codes (new ones, up to hundreds at once, existing ones again, built-in ones, codes of several enumeration types) with generated texts (any bytes, empty, long, views without terminator) "
    "and handlers (none, function with bound arguments, closure, member function, move-only capture shared), setting statuses by construction and assignment (also from inside a handler), moving statuses, contexts of several types (also asked "
    "for as the wrong type), reading by code and by status, and the same from a new thread. A map from codes to texts and handlers is the reference. Non-trivial: a handler ran for a code whose registration had been replaced.",
    400000, 6000000) {
    auto & orig = originals();
    World w;
    W = &w;
    std::map<Enum, Entry> reg;
    for (Enum e = 0; e < 17; ++e) {
        c.checkf(early.found[e] && early.cb[e] && early.info[e] != "<ERROR_INFO>" && early.info[e].find(WORD[e]) != std::string::npos,
                 [&] { return "the built-in code " + std::to_string(e) + " is not there before main: " + early.info[e]; });
        Status::registe(e, orig[e].info, [&w, e] { w.run(1, (int)e, "built-in"); });
        reg[e] = {orig[e].info, 1, (int)e};
        reg[e].info = early.info[e];
    }
    c.check(early.afterSet == early.info[0], "a status set before main does not report its text");
    std::vector<Enum> codes;
    for (Enum e = 0; e < 17; ++e) codes.push_back(e);
    std::vector<std::unique_ptr<Status>> st;
    struct M { Enum code = Status::INVALID; int kind = 0; int64_t ctx = 0; };
    std::vector<M> m;
    size_t n = 1 + c.draw(3);
    for (size_t i = 0; i < n; ++i) { st.push_back(std::make_unique<Status>()); m.push_back({}); }
    static Obj objs[3] = {{1}, {2}, {3}};
    std::string log;
    std::map<Enum, int> replaced;
    bool useGlobal = c.chance(1, 3);
    if (useGlobal) { *Status::getInstance() = ErrCode::SUCCESS; w.got.clear(); }
    auto infoOfModel = [&](Enum e) { auto it = reg.find(e); return it == reg.end() ? std::string("<ERROR_INFO>") : it->second.info; };
    auto expectEvent = [&](Enum e, const std::string & seen, std::vector<Event> & ev) {
        auto & en = reg[e];
        if (!en.handler) return false;
        std::string text = en.handler == 1 ? "built-in" : en.handler == 3 ? "t" + std::to_string(en.tag) + "#" + std::to_string(1 + en.tag % 3) : "t" + std::to_string(en.tag);
        ev.push_back({en.handler, en.tag, text, seen});
        if (replaced.count(e)) c.nontrivial();
        return true;
    };
    auto compareEvents = [&](const std::vector<Event> & ev, const char * what) {
        c.checkf(w.got == ev, [&] {
            std::string s = std::string(what) + ": handlers run:";
            for (auto & g : w.got) s += " (" + std::to_string(g.handler) + "," + std::to_string(g.tag) + "," + g.text.substr(0, 30) + ", status text then: " + pbt::quote(g.seen.substr(0, 60)) + ")";
            s += "; expected:";
            for (auto & g : ev) s += " (" + std::to_string(g.handler) + "," + std::to_string(g.tag) + "," + g.text + ", status text then: " + pbt::quote(g.seen.substr(0, 60)) + ")";
            return s;
        });
        w.got.clear();
    };
    auto lookStatus = [&](Status & s, const M & mm, const char * what) {
        c.checkf(s.getInfo() == infoOfModel(mm.code), [&] { return std::string(what) + ": the text is " + pbt::quote(s.getInfo().substr(0, 100)) + ", expected " + pbt::quote(infoOfModel(mm.code).substr(0, 100)); });
        bool has = reg.count(mm.code) && reg[mm.code].handler;
        c.checkf(!!s.getCallback() == has, [&] { return std::string(what) + ": getCallback is " + (has ? "empty" : "not empty"); });
    };
    auto lookCtx = [&](Status & s, const M & mm, const char * what) {
        auto bad = [&] { return std::string(what) + ": wrong context"; };
        auto throws = [&](auto tag) { using T = decltype(tag); try { (void)s.context<T>(); return false; } catch (const std::bad_any_cast &) { return true; } };
        switch (mm.kind) {
        case 0: c.checkf(throws(int64_t(0)) && throws(std::string()), bad); break;
        case 1: c.checkf(s.context<int64_t>() == mm.ctx && throws(std::string()) && throws(int(0)), bad); break;
        case 2: c.checkf(s.context<std::string>() == std::to_string(mm.ctx) && throws(int64_t(0)), bad); break;
        default: c.checkf(*s.context<std::shared_ptr<int64_t>>() == mm.ctx && throws(int64_t(0)), bad); break;
        }
    };
    auto registe = [&](Enum e) {
        std::string info = genInfo(c);
        View v;
        auto arg = v.get(c, info);
        Entry en;
        en.info = info;
        en.tag = (int)c.draw(1000);
        std::string text = "t" + std::to_string(en.tag);
        int how = (int)c.weighted({3, 4, 2, 2, 1});
        if (c.verbose) log += "register " + std::to_string(e < 200 ? e : 200) + (e < 200 ? "" : "+") + " text " + pbt::quote(info.substr(0, 60)) + " handler " + std::to_string(how) + "\n";
        if (reg.count(e)) replaced[e]++;
        switch (how) {
        case 0:
            if (c.chance(1, 2)) Status::registe(e, arg); else Status::registe((Wide)e, arg);
            break;
        case 1: en.handler = 2; if (c.chance(1, 2)) Status::registe(e, arg, freeHandler, en.tag, text); else Status::registe((Plain)(int)e, arg, &freeHandler, (long)en.tag, text); break;
        case 2: en.handler = 3; Status::registe(e, arg, &Obj::member, &objs[en.tag % 3], en.tag, text); break;
        case 3: { en.handler = 4; auto sp = std::make_shared<std::string>(text); int tag = en.tag; Status::registe((Wide)e, arg, [sp, tag](int add) { W->run(4, tag + add - 7, *sp); }, 7); break; }
        default:
            en.handler = 5;
            if (e < 256) Status::registe((Small)e, arg, [tag = en.tag, text]() mutable { W->run(5, tag, text); });
            else Status::registe(e, arg, std::function<void()>([tag = en.tag, text] { W->run(5, tag, text); }));
        }
        if (!reg.count(e)) codes.push_back(e);
        reg[e] = en;
        compareEvents({}, "registering");
    };
    auto anyCode = [&]() -> Enum { return codes[c.chance(1, 2) ? codes.size() - 1 - c.draw(std::min<size_t>(codes.size() - 1, 7)) : c.draw(codes.size() - 1)]; };
    size_t steps = 1 + c.draw(c.chance(1, 250) ? 1200 : c.chance(1, 4) ? 60 : 15);
    if (steps > 100) c.heavy();
    for (size_t k = 0; k < steps; ++k) {
        size_t i = c.draw(st.size() - 1);
        Status * s = useGlobal && i == 0 ? Status::getInstance() : st[i].get();
        if (useGlobal && i == 0 && m[0].code == Status::INVALID) m[0].code = ErrCode::SUCCESS;
        bool glob = useGlobal && i == 0;
        switch (c.weighted({6, 7, 3, 2, 2, 3, 1, 2})) {
        case 0: {
            c.stage("registering a code");
            size_t cnt = c.chance(1, 60) ? 50 + c.draw(300) : 1;
            for (size_t q = 0; q < cnt; ++q) {
                Enum e;
                switch (c.weighted({4, 4, 2, 1})) {
                case 0: e = 17 + (Enum)c.draw(200); break;
                case 1: e = anyCode(); break;
                case 2: e = (Enum)c.draw(16); break;
                default: e = cnt > 1 || c.chance(1, 8) ? freshCode++ : 0xfffffff0u + (Enum)c.draw(14); break;
                }
                registe(e);
            }
            break;
        }
        case 1: {
            c.stage("assigning a code");
            Enum e = anyCode();
            if (c.verbose) log += "status " + std::to_string(i) + " = code " + std::to_string(e < 200 ? e : 200) + "\n";
            std::vector<Event> ev;
            w.target = s;
            size_t nj = st.size();
            if (c.chance(1, 4)) {  // the handler sets a status in turn, perhaps the same one
                nj = c.draw(st.size() - 1);
                w.nested = useGlobal && nj == 0 ? Status::getInstance() : st[nj].get();
                w.nestedCode = anyCode();
                if (c.verbose) log += "  its handler sets status " + std::to_string(nj) + "\n";
            }
            m[i].code = e;
            bool has = expectEvent(e, infoOfModel(e), ev);
            if (has && nj < st.size()) { m[nj].code = w.nestedCode; expectEvent(w.nestedCode, infoOfModel(w.nestedCode), ev); }
            Status & r = (*s = e);
            c.check(&r == s, "the assignment does not return the status");
            w.nested = nullptr;
            w.target = nullptr;
            compareEvents(ev, "assignment");
            break;
        }
        case 2: {
            c.stage("constructing a status with a code");
            Enum e = anyCode();
            if (c.verbose) log += "construct a status with code " + std::to_string(e < 200 ? e : 200) + "\n";
            std::vector<Event> ev;
            expectEvent(e, "-", ev);
            auto ns = std::make_unique<Status>(e);
            compareEvents(ev, "construction");
            M mm;
            mm.code = e;
            lookStatus(*ns, mm, "a new status");
            lookCtx(*ns, mm, "a new status");
            if (!glob) { st[i] = std::move(ns); m[i] = mm; }
            break;
        }
        case 3: {
            c.stage("moving a status");
            size_t j = c.draw(st.size() - 1);
            if (glob || (useGlobal && j == 0) || i == j) break;
            if (c.verbose) log += "status " + std::to_string(i) + " = move(status " + std::to_string(j) + ")\n";
            if (c.chance(1, 2)) *st[i] = std::move(*st[j]);
            else { Status t(std::move(*st[j])); st[i] = std::make_unique<Status>(std::move(t)); }
            compareEvents({}, "moving a status");
            m[i] = m[j];
            st[j] = std::make_unique<Status>();
            m[j] = {};
            break;
        }
        case 4: {
            c.stage("setting a context");
            if (glob) break;
            m[i].kind = 1 + (int)c.draw(2);
            m[i].ctx = c.range(-1000, 1000);
            if (m[i].kind == 1) s->setContext(m[i].ctx);
            else if (m[i].kind == 2) s->setContext(std::to_string(m[i].ctx));
            else s->setContext(std::make_shared<int64_t>(m[i].ctx));
            break;
        }
        case 5: {
            c.stage("looking up a code");
            Enum e = c.chance(1, 3) ? (c.chance(1, 2) ? 300 + (Enum)c.draw(1000) : 0x80000000u + (Enum)c.draw(100)) : anyCode();
            bool has = reg.count(e) != 0;
            std::tuple<std::string, Callback> * t = nullptr;
            std::tuple<std::string, Callback> dummy, * t2 = &dummy;
            c.check(Status::find(e) == has && Status::find(e, &t) == has && Status::find(e, &t2) == has && t == t2 && (t != nullptr) == has, "find is wrong about a code");
            c.check(Status::getInfo(e) == infoOfModel(e), "the text of a code is wrong");
            if (has) c.check(std::get<0>(*t) == reg[e].info && !!std::get<1>(*t) == !!reg[e].handler, "find gives a wrong entry");
            c.check(!!Status::getCallback(e) == (has && reg[e].handler), "the handler of a code is wrong");
            if (has && reg[e].handler) {
                std::vector<Event> ev;
                expectEvent(e, "-", ev);
                Callback f = Status::getCallback(e);
                f();
                compareEvents(ev, "calling the handler that getCallback returned");
            }
            break;
        }
        case 6: {
            c.stage("another thread");
            Enum e = anyCode();
            std::vector<Event> ev;
            expectEvent(e, infoOfModel(e), ev);
            std::string a, b, mine = Status::getInstance()->getInfo();
            std::thread th([&] {
                Status * o = Status::getInstance();
                a = o->getInfo();
                w.target = o;
                *o = e;
                w.target = nullptr;
                b = o->getInfo();
            });
            th.join();
            c.check(a == "<ERROR_INFO>", "the status of a new thread is not initially without a code");
            c.check(b == infoOfModel(e), "the status of another thread does not report the text of the code it was set to");
            c.check(Status::getInstance()->getInfo() == mine, "setting the status of another thread changed this thread's");
            compareEvents(ev, "assignment in another thread");
            break;
        }
        default:
            lookStatus(*s, m[i], "a status");
            if (!glob) lookCtx(*s, m[i], "a status");
        }
        compareEvents({}, "reading");
    }
    for (size_t i = useGlobal ? 1 : 0; i < st.size(); ++i) { lookStatus(*st[i], m[i], "a status at the end"); lookCtx(*st[i], m[i], "a status at the end"); }
    for (auto & p : reg) c.checkf(Status::getInfo(p.first) == p.second.info, [&] { return "at the end the text of code " + std::to_string(p.first) + " is wrong"; });
    if (c.verbose) c.note(log);
    // leave nothing behind that refers to this case
    *Status::getInstance() = ErrCode::SUCCESS;
    for (auto & p : reg) if (p.first >= 17) Status::registe(p.first, std::string("old"));
    for (Enum e = 0; e < 17; ++e) Status::registe(e, orig[e].info);
    W = nullptr;
}
