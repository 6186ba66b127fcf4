// Concurrency: parallel evaluation, per-thread status, thread pool, queue, values that share storage. Built for the 'sched'
// variant only: the schedule is part of the generated case.
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <map>
#include <mutex>
#include <set>
#include <stdexcept>
#include <thread>
#include "exprmodel.h"
#include "interleave.h"
#include "view.h"
#include "PGBigNumber/pgbn.h"
#include "PGBigNumber/expr.h"
#include "PGBigNumber/infixExpr/SymbolTable.h"
#include "parallel/SimpleConcurrenceQueue.h"
#include "parallel/ThreadPool.h"
using namespace num;
using pgbn::Status;
using pgbn::infixExpr::Func;
using pgbn::infixExpr::SymbolTable;
using pgbn::infixExpr::Value;
using sched::event;
namespace ErrCode = pgbn::ErrCode;

namespace {
void quiet() {
    static bool done = false;
    if (done) return;
    done = true;
    for (pgbn::Enum e = 1; e <= 16; ++e) Status::registe(e, Status::getInfo(e));
}
std::string num_(int64_t v) { return std::to_string(v); }
void spin(int n) { for (int i = 0; i < n; ++i) sched::yield(); }
void scheduleLabel(Case & c, uint64_t sw) { c.label(sw == 0 ? "0 preemptions" : sw < 4 ? "1 to 3 preemptions" : sw < 20 ? "4 to 19 preemptions" : "20 or more preemptions"); }
}  // namespace

// ------------------------------------------------------------------ C24
namespace {
struct El {  // owns storage, so that an element handed out twice or not moved properly shows
    std::vector<int> v;
    El() = default;
    explicit El(int id) : v{id, id * 7 + 1} {}
    int id() const { return v.size() == 2 && v[1] == v[0] * 7 + 1 ? v[0] : -1; }
};
using Queue = pgbn::parallel::SimpleConcurrenceQueue<El>;

enum { Q_PUSH_COPY, Q_PUSH_MOVE, Q_PUSH_NO, Q_POP, Q_TRY, Q_EMPTY, Q_GIVEUP, Q_SNAP };
const char * const QNAME[] = {"push(copy)", "push(move)", "push(condition false)", "pop", "tryPop", "empty", "notifyAllPop", "copy of the queue"};
struct QOp { int kind; int id; };
struct QRec { int tid, kind, id; uint64_t call, ret; bool ok; int got; std::vector<int> snap; bool done; };

std::string qShow(const QRec & r) {
    std::string s = "thread " + num_(r.tid) + " " + QNAME[r.kind] + (r.kind <= Q_PUSH_NO ? " " + num_(r.id) : "");
    if (r.kind == Q_POP || r.kind == Q_TRY) s += r.ok ? " -> " + num_(r.got) : " -> nothing";
    if (r.kind == Q_EMPTY) s += r.ok ? " -> true" : " -> false";
    if (r.kind == Q_SNAP) { s += " -> ["; for (int x : r.snap) s += num_(x) + " "; s += "]"; }
    return s + " (" + num_((int64_t)r.call) + ".." + num_((int64_t)r.ret) + ")";
}
// is there an order of the operations, compatible with their intervals, that a FIFO queue could have shown?
struct QCheck {
    const std::vector<QRec> & h;
    std::set<std::pair<uint64_t, std::vector<int>>> seen;
    uint64_t budget = 400000;
    explicit QCheck(const std::vector<QRec> & h) : h(h) {}
    bool go(uint64_t doneMask, std::vector<int> & q, bool give) {
        if (doneMask == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return true;
        if (budget == 0) return true;
        --budget;
        std::vector<int> key = q;
        key.push_back(give ? -2 : -3);
        if (!seen.insert({doneMask, key}).second) return false;
        uint64_t firstRet = ~0ull;
        for (size_t i = 0; i < h.size(); ++i) if (!(doneMask >> i & 1)) firstRet = std::min(firstRet, h[i].ret);
        for (size_t i = 0; i < h.size(); ++i) {
            if (doneMask >> i & 1 || h[i].call > firstRet) continue;
            const QRec & r = h[i];
            std::vector<int> n = q;
            bool g = give;
            switch (r.kind) {
            case Q_PUSH_COPY: case Q_PUSH_MOVE: n.push_back(r.id); break;
            case Q_PUSH_NO: break;
            case Q_POP: case Q_TRY:
                if (r.ok) { if (n.empty() || n[0] != r.got) continue; n.erase(n.begin()); }
                else if (!n.empty() || (r.kind == Q_POP && !g)) continue;
                break;
            case Q_EMPTY: if (r.ok != n.empty()) continue; break;
            case Q_GIVEUP: g = true; break;
            default: if (r.snap != n) continue; break;
            }
            if (go(doneMask | 1ull << i, n, g)) return true;
        }
        return false;
    }
};
struct QRun {
    Queue q;
    std::vector<std::vector<QRec>> recs;  // by thread
    int calls = 0;                        // of error handlers; counted through events only
};
void qDo(Queue & q, int tid, const QOp & o, std::vector<QRec> & out) {
    QRec r{tid, o.kind, o.id, 0, 0, false, 0, {}, false};
    int errs = 0, conds = 0;
    r.call = sched::points();
    event(1, o.kind, o.id);
    switch (o.kind) {
    case Q_PUSH_COPY: {
        El e(o.id);
        q.push(e, [&] { ++conds; return true; }, [&] { ++errs; });
        if (e.id() != o.id) sched::bad("push of a copy changed the element it copied");
        break;
    }
    case Q_PUSH_MOVE: q.push(El(o.id), [&] { ++conds; return true; }, [&] { ++errs; }); break;
    case Q_PUSH_NO: {
        El e(o.id);
        if (o.id & 1) q.push(e, [&] { ++conds; return false; }, [&] { ++errs; });
        else q.push(El(o.id), [&] { ++conds; return false; }, [&] { ++errs; });
        if (errs != 1) sched::bad("a push whose condition is false called its error handler " + num_(errs) + " times");
        errs = 0;
        break;
    }
    case Q_POP: { El e; r.ok = q.pop(e); r.got = r.ok ? e.id() : 0; break; }
    case Q_TRY: { El e; r.ok = q.tryPop(e); r.got = r.ok ? e.id() : 0; break; }
    case Q_EMPTY: r.ok = q.empty(); break;
    case Q_GIVEUP: q.notifyAllPop(); break;
    default: {
        Queue k(q);
        El e;
        while (k.tryPop(e)) r.snap.push_back(e.id());
        break;
    }
    }
    if (errs) sched::bad("a push whose condition is true called its error handler");
    event(2, o.kind, o.id);
    r.ret = sched::points();
    r.done = true;
    out.push_back(r);
}
}  // namespace

PBT_PROPERTY("C24", prop_queue,
    "A case draws a program of 2 to 5 threads, rarely 12 with hundreds of operations (then instead of the full linearization only order, loss and duplication are decided) (pushes of copies and of temporaries, pushes whose condition fails, blocking and non-blocking pops, empty, copies of the queue, the permission to give up) and a schedule (random "
    "preemptions at memory accesses, switches at synchronisation calls, priorities, spurious wake-ups). All operations must return (a blocked thread that nothing wakes is a deadlock), and the observed results must be a "
    "linearization of a FIFO queue with each element delivered once. No data race. Non-trivial: at least two threads were switched while they ran, and an element was popped.",
    250000, 4000000) {
    const bool balanced = c.chance(1, 2);  // as many elements as pops and nobody allows giving up: every pop needs its own wake-up
    const bool big = c.chance(1, 200);
    if (big) c.heavy();
    const int nt = 2 + (int)(big ? c.draw(10) : c.draw(3));
    std::vector<std::vector<QOp>> prog((size_t)nt);
    int id = 0, pushes = 0, pops = 0;
    const bool burst = big && !balanced && c.chance(1, 3);  // the queue gets long
    if (burst) {
        c.massive();
        c.label("a long queue");
        const int k = (c.chance(1, 2) ? 1020 : 250) + (int)c.draw(60);
        const int mix = (int)c.draw(2);
        for (int i = 0; i < k; ++i) prog[0].push_back({mix == 2 ? (i & 1 ? Q_PUSH_COPY : Q_PUSH_MOVE) : mix ? Q_PUSH_COPY : Q_PUSH_MOVE, ++id});
        pushes = k;
    }
    const int total = 2 + (int)(big && !burst ? c.draw(400) : c.draw(10));
    for (int i = 0; i < total; ++i) {
        size_t t = c.draw((uint64_t)nt - 1);
        int k = (int)(balanced ? c.weighted({5, 4, 1, 6, 0, 2, 0, 1}) : c.weighted({5, 4, 1, 5, 4, 2, 0, 1}));
        if (balanced && k == Q_POP) continue;
        if (k <= Q_PUSH_MOVE) ++pushes;
        if (k == Q_POP) ++pops;
        prog[t].push_back({k, ++id});
    }
    if (balanced) {  // pops in threads of their own, or after the pushes of a thread
        int left = pushes;
        size_t first = 1 + c.draw((uint64_t)nt - 2);
        std::vector<std::vector<QOp>> moved((size_t)nt);
        for (size_t t = 0; t < prog.size(); ++t) for (auto & o : prog[t]) moved[t < first ? t : t % first].push_back(o);
        prog = moved;
        while (left-- > 0) { prog[first + c.draw((uint64_t)nt - 1 - first)].push_back({Q_POP, ++id}); ++pops; }
    } else {
        prog.push_back({{Q_GIVEUP, 0}});
        if (c.chance(1, 3)) prog.back().insert(prog.back().begin(), {Q_PUSH_MOVE, ++id});
        if (c.chance(1, 4)) { prog[c.draw((uint64_t)nt - 1)].push_back({Q_GIVEUP, 0}); }
    }
    const bool mainToo = c.chance(1, 3);  // one of the programs runs in the creating thread
    if (c.verbose) for (size_t t = 0; t < prog.size(); ++t) { std::string s = "program " + num_((int64_t)t) + ":"; for (auto & o : prog[t]) s += std::string(" ") + QNAME[o.kind] + (o.kind <= Q_PUSH_NO ? " " + num_(o.id) : "") + ";"; c.note(s); }
    if (c.verbose) c.note(balanced ? "nobody gives up: every pop must get an element" : "one thread lets all blocked pops give up");
    std::vector<std::vector<QRec>> recs(prog.size() + 1);
    uint64_t sw = 0;
    {
        sched::Session s(c);
        {
            Queue q;
            c.stage("queue operations");
            std::vector<std::thread> th;
            for (size_t t = mainToo ? 1 : 0; t < prog.size(); ++t) th.emplace_back([&, t] { for (auto & o : prog[t]) qDo(q, (int)t, o, recs[t]); });
            if (mainToo && !(balanced && prog[0].empty())) for (auto & o : prog[0]) qDo(q, 0, o, recs[0]);
            for (auto & t : th) t.join();
            while (true) { qDo(q, 99, {Q_TRY, 0}, recs.back()); if (!recs.back().back().ok) break; }
        }
        s.finish();
        sw = sched::switches();
    }
    std::vector<QRec> h;
    for (auto & v : recs) for (auto & r : v) h.push_back(r);
    std::sort(h.begin(), h.end(), [](const QRec & a, const QRec & b) { return a.call < b.call; });
    if (c.verbose) for (auto & r : h) c.note(qShow(r));
    std::map<int, int> popped;
    for (auto & r : h) if ((r.kind == Q_POP || r.kind == Q_TRY) && r.ok) {
        c.checkf(r.got > 0, [&] { return "an element arrived damaged: " + qShow(r); });
        c.checkf(++popped[r.got] == 1, [&] { return "element " + num_(r.got) + " was delivered twice"; });
    }
    for (auto & p : prog) for (auto & o : p) if (o.kind <= Q_PUSH_MOVE) c.checkf(popped[o.id] == 1, [&] { return "element " + num_(o.id) + " was lost"; });
    if (balanced) for (auto & r : h) if (r.kind == Q_POP) c.checkf(r.ok, [&] { return "a blocking pop gave up although nobody allowed it: " + qShow(r); });
    if (h.size() <= 64) {
        QCheck k(h);
        std::vector<int> q;
        c.checkf(k.go(0, q, false), [&] { std::string m = "the results are not those of a FIFO queue under any order of the operations:"; for (auto & r : h) m += "\n  " + qShow(r); return m; });
        c.label("checked for linearizability");
    } else {  // many operations: elements pushed one after the other come out in this order
        std::map<int, const QRec *> in, out;
        for (auto & r : h) { if (r.kind <= Q_PUSH_MOVE) in[r.id] = &r; else if ((r.kind == Q_POP || r.kind == Q_TRY) && r.ok) out[r.got] = &r; }
        for (auto & a : in) for (auto & b : in)
            if (a.second->ret < b.second->call) c.checkf(out[b.first]->ret >= out[a.first]->call, [&] { return "element " + num_(b.first) + " came out before element " + num_(a.first) + ", which had been pushed earlier:\n  " + qShow(*a.second) + "\n  " + qShow(*b.second) + "\n  " + qShow(*out[a.first]) + "\n  " + qShow(*out[b.first]); });
        c.label("many operations, checked for order");
    }
    c.label(balanced ? "every pop needs an element" : "pops may give up");
    scheduleLabel(c, sw);
    if (sw > 0 && !popped.empty()) c.nontrivial();
}

// ------------------------------------------------------------------ C23
namespace {
enum { T_RESULT, T_VOID, T_THROW, T_ARGS, T_SUB, T_WAIT, T_REF, T_FORWARD, T_OPEN };
const char * const TNAME[] = {"returns a value", "returns nothing", "throws", "takes arguments", "adds another task", "waits for an earlier task", "writes through a reference", "waits for a later task", "ends the wait of task"};
struct TaskSpec { int kind; int id; int work; int on; };
struct Boom : std::runtime_error { int id; explicit Boom(int id) : std::runtime_error("boom " + std::to_string(id)), id(id) {} };
enum { E_ADD = 1, E_ADDED, E_START, E_END, E_POOL_GOES, E_POOL_GONE };
struct Pool {
    pgbn::parallel::ThreadPool * pool;
    std::vector<std::future<std::vector<int>>> res;   // by task id, where the task has such a result
    std::vector<std::future<void>> none;
    std::vector<std::future<std::future<std::vector<int>>>> sub;
    std::vector<std::shared_future<std::vector<int>>> shared;
    std::vector<std::promise<void>> gate;  // by id of the task that waits for a later one
    std::vector<int> cells;
};
std::vector<int> resultOf(int id) { return {id, id * 3, id * id}; }
std::vector<int> plain(int id, int work) { event(E_START, id); spin(work); event(E_END, id); return resultOf(id); }
}  // namespace

PBT_PROPERTY("C23", prop_pool,
    "A case draws a pool of 1 to 4 workers (sometimes the default number, rarely 16), 0 to 10, rarely 90, tasks (returning, void, throwing, with arguments, writing through a reference, adding a task, waiting for an earlier one, waiting for a later one while another worker is free), 1 to 3 adding threads, which "
    "futures are awaited before the pool is destroyed and which afterwards, and a schedule. Every task must run exactly once, never more at a time than there are workers, its future must hold its result or exception, all "
    "tasks must have ended when the destructor returns, tasks of one worker must start in the order of their addition; nothing may block for ever, no data race. Non-trivial: two tasks and at least one preemption.",
    150000, 3000000) {
    const bool dflt = c.chance(1, 40);
    const bool big = c.chance(1, 150);
    if (big) c.heavy();
    const size_t workers = dflt ? pgbn::parallel::kDefaultNThreads : big ? 1 + c.draw(15) : 1 + c.weighted({4, 4, 3, 2});
    const int adders = 1 + (int)c.weighted({6, 3, 1});
    const int n = (int)(big ? c.draw(90) : c.draw(10));
    std::vector<std::vector<TaskSpec>> prog((size_t)adders);
    std::vector<int> waitable;  // ids of tasks that an adder's later task may wait for
    std::vector<std::pair<size_t, size_t>> waiting;  // tasks (adder, position) that wait for one not drawn yet
    size_t forwards = 0;  // fewer than the workers, so that the later tasks are run
    bool subs = false;
    for (int id = 0; id < n; ++id) {
        size_t a = c.draw((uint64_t)adders - 1);
        TaskSpec t{(int)c.weighted({5, 3, 3, 3, 2, adders == 1 ? 2 : 0, 2, forwards + 1 < workers ? 4 : 0, waiting.empty() ? 0 : 8}), id, (int)c.draw(4), -1};
        if (t.kind == T_WAIT) { if (waitable.empty()) t.kind = T_RESULT; else t.on = c.pick(waitable); }
        if (t.kind == T_RESULT) waitable.push_back(id);
        if (t.kind == T_SUB) subs = true;
        if (t.kind == T_FORWARD) { ++forwards; waiting.push_back({a, prog[a].size()}); }
        if (t.kind == T_OPEN) {
            size_t k = c.draw(waiting.size() - 1);
            t.on = prog[waiting[k].first][waiting[k].second].id;
            waiting.erase(waiting.begin() + (long)k);
        }
        prog[a].push_back(t);
    }
    for (auto & w : waiting) prog[w.first][w.second].kind = T_VOID, --forwards;
    std::vector<bool> before((size_t)n + 1);
    for (int i = 0; i < n; ++i) before[(size_t)i] = c.chance(1, 3);
    if (c.verbose) {
        c.note(num_((int64_t)workers) + (dflt ? " workers (the default)" : " workers"));
        for (size_t a = 0; a < prog.size(); ++a) for (auto & t : prog[a]) c.note("adder " + num_((int64_t)a) + ": task " + num_(t.id) + " " + TNAME[t.kind] + (t.on >= 0 ? " " + num_(t.on) : "") + (before[(size_t)t.id] ? ", awaited before the pool is destroyed" : ""));
    }
    uint64_t sw = 0;
    std::vector<sched::Event> ev;
    {
        sched::Session s(c);
        {
            Pool P;
            P.res.resize((size_t)n);
            P.none.resize((size_t)n);
            P.sub.resize((size_t)n);
            P.shared.resize((size_t)n);
            P.gate.resize((size_t)n);
            P.cells.assign((size_t)n, -1);
            std::vector<int> kind((size_t)n, -1);
            for (auto & p : prog) for (auto & t : p) kind[(size_t)t.id] = t.kind;
            auto await = [&](int id) {
                size_t i = (size_t)id;
                try {
                    switch (kind[i]) {
                    case T_VOID: case T_REF: case T_FORWARD: case T_OPEN: if (P.none[i].valid()) { P.none[i].get(); if (kind[i] == T_REF && P.cells[i] != id + 500) sched::bad("task " + num_(id) + " did not write through its reference"); } break;
                    case T_SUB:
                        if (P.sub[i].valid()) { auto f = P.sub[i].get(); auto r = f.get(); if (r != resultOf(id + 100)) sched::bad("the task added by task " + num_(id) + " has the wrong result"); }
                        break;
                    case T_RESULT: if (P.shared[i].valid()) { if (P.shared[i].get() != resultOf(id)) sched::bad("task " + num_(id) + " has the wrong result"); P.shared[i] = {}; } break;
                    default:
                        if (P.res[i].valid()) {
                            auto r = P.res[i].get();
                            if (kind[i] == T_THROW) sched::bad("the exception of task " + num_(id) + " did not reach its future");
                            if (r != resultOf(id)) sched::bad("task " + num_(id) + " has the wrong result");
                        }
                    }
                } catch (const Boom & b) {
                    if (kind[i] != T_THROW || b.id != id) sched::bad("the future of task " + num_(id) + " holds the exception of task " + num_(b.id));
                } catch (const std::exception & e) { sched::bad("the future of task " + num_(id) + " holds: " + e.what()); }
            };
            auto ready = [&](auto & f) { return !f.valid() || f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; };
            {
                c.stage("building the pool");
                auto pool = dflt ? std::make_unique<pgbn::parallel::ThreadPool>() : std::make_unique<pgbn::parallel::ThreadPool>(workers);
                auto add = [&](const TaskSpec & t) {
                    size_t i = (size_t)t.id;
                    auto * p = pool.get();
                    const int id = t.id, work = t.work;
                    event(E_ADD, id);
                    switch (t.kind) {
                    case T_RESULT: P.shared[i] = p->addTask([id, work] { return plain(id, work); }).share(); break;
                    case T_VOID: P.none[i] = p->addTask([id, work] { event(E_START, id); spin(work); event(E_END, id); }); break;
                    case T_THROW: P.res[i] = p->addTask([id, work]() -> std::vector<int> { event(E_START, id); spin(work); event(E_END, id); throw Boom(id); }); break;
                    case T_ARGS: {
                        std::vector<int> big = {id, id * 3};
                        P.res[i] = p->addTask([work](int a, const std::vector<int> & v, std::string s) {
                            event(E_START, a);
                            spin(work);
                            std::vector<int> r = v;
                            r.push_back(s == "s" + std::to_string(a) ? a * a : -1);
                            event(E_END, a);
                            return r;
                        }, id, big, "s" + std::to_string(id));
                        big.assign({-9, -9});
                        break;
                    }
                    case T_SUB:
                        P.sub[i] = p->addTask([id, work, p] {
                            event(E_START, id);
                            spin(work);
                            event(E_ADD, id + 100);
                            auto f = p->addTask([id, work] { return plain(id + 100, work); });
                            event(E_ADDED, id + 100);
                            event(E_END, id);
                            return f;
                        });
                        break;
                    case T_WAIT: {
                        auto f = P.shared[(size_t)t.on];
                        if (!f.valid()) f = {};
                        P.res[i] = p->addTask([id, work, f] {
                            event(E_START, id);
                            if (f.valid()) f.get();
                            spin(work);
                            event(E_END, id);
                            return resultOf(id);
                        });
                        break;
                    }
                    case T_FORWARD: {
                        std::shared_future<void> f = P.gate[i].get_future().share();
                        P.none[i] = p->addTask([id, work, f] { event(E_START, id); f.get(); spin(work); event(E_END, id); });
                        break;
                    }
                    case T_OPEN: {
                        auto * gate = &P.gate[(size_t)t.on];
                        P.none[i] = p->addTask([id, work, gate] { event(E_START, id); spin(work); gate->set_value(); event(E_END, id); });
                        break;
                    }
                    default: P.none[i] = p->addTask([id, work](int & cell) { event(E_START, id); spin(work); cell = id + 500; event(E_END, id); }, std::ref(P.cells[i])); break;
                    }
                    event(E_ADDED, id);
                };
                c.stage("adding tasks");
                std::vector<std::thread> th;
                for (size_t a = 1; a < prog.size(); ++a) th.emplace_back([&, a] { for (auto & t : prog[a]) add(t); });
                for (auto & t : prog[0]) add(t);
                for (auto & t : th) t.join();
                c.stage("waiting for tasks");
                for (int i = 0; i < n; ++i) if (before[(size_t)i] || kind[(size_t)i] == T_SUB) await(i);
                c.stage("destroying the pool");
                event(E_POOL_GOES);
                pool.reset();
                event(E_POOL_GONE);
            }
            c.stage("results after the pool is gone");
            for (int i = 0; i < n; ++i) {
                size_t k = (size_t)i;
                if (!ready(P.res[k]) || !ready(P.none[k]) || !ready(P.shared[k]) || !ready(P.sub[k])) { sched::bad("the pool is gone but the future of task " + num_(i) + " is not ready"); continue; }
                await(i);
            }
        }
        ev = sched::events();
        s.finish();
        sw = sched::switches();
    }
    // the history
    std::map<int, int> started, ended, addAt, addedAt, startAt;
    size_t running = 0, most = 0;
    bool gone = false;
    for (size_t i = 0; i < ev.size(); ++i) {
        auto & e = ev[i];
        int id = (int)e.a;
        switch (e.kind) {
        case E_ADD: addAt[id] = (int)i; break;
        case E_ADDED: addedAt[id] = (int)i; break;
        case E_START:
            c.checkf(++started[id] == 1, [&] { return "task " + num_(id) + " ran more than once"; });
            startAt[id] = (int)i;
            most = std::max(most, ++running);
            if (gone) c.fail("task " + num_(id) + " started after the pool was gone");
            break;
        case E_END: ++ended[id]; --running; if (gone) c.fail("task " + num_(id) + " ended after the pool was gone"); break;
        case E_POOL_GONE: gone = true; break;
        }
    }
    for (auto & a : addAt) c.checkf(started[a.first] == 1 && ended[a.first] == 1, [&] { return "task " + num_(a.first) + " ran " + num_(started[a.first]) + " times before the pool was gone"; });
    c.checkf(most <= workers, [&] { return num_((int64_t)most) + " tasks ran at a time in a pool of " + num_((int64_t)workers); });
    if (workers == 1)
        for (auto & a : addedAt) for (auto & b : addAt) if (a.second < b.second) c.checkf(startAt[a.first] < startAt[b.first], [&] { return "task " + num_(b.first) + " started before task " + num_(a.first) + ", which had been added earlier to the single worker"; });
    c.label(workers == 1 ? "1 worker" : workers <= 4 ? "2 to 4 workers" : "default number of workers");
    if (subs) c.label("a task adds a task");
    if (forwards) c.label("a task waits for a later one");
    if (adders > 1) c.label("several adders");
    if (n == 0) c.label("no task");
    scheduleLabel(c, sw);
    if (n >= 2 && sw > 0) c.nontrivial();
}

// ------------------------------------------------------------------ C14
namespace {
Z zOfValue(const Value & v) { return Z(v.toString(16), 16); }
Value valueOf(const Z & z) {
    bool ok = false;
    Value v(z.get_str(10), 10, &ok);
    if (!ok) sched::bad("HARNESS: number rejected: " + z.get_str(10));
    return v;
}
Z cut(Z v) { if (bitlen(v) > 100) { Z r; mpz_fdiv_r_2exp(r.get_mpz_t(), v.get_mpz_t(), 100); return r; } return v; }
enum { E_CALL = 20 };
em::Env & env() {
    static em::Env e;
    static bool done = false;
    if (!done) {
        done = true;
        auto fn = [&](const std::string & name, int arity, int no, std::function<Z(const std::vector<Z> &)> f, bool boom = false) {
            e.fns[name] = em::Fn{arity, f};
            SymbolTable::getInstance()->registe(name, SymbolTable::Symbol{Func{[f, no, boom](std::vector<Value> & a) {
                std::vector<Z> z;
                for (auto & v : a) z.push_back(zOfValue(v));
                int64_t h = 0;
                for (auto & x : z) h = h * 1000003 + (int64_t)mpz_fdiv_ui(x.get_mpz_t(), 1000000007);
                event(E_CALL, no, h);
                spin(2);
                if (boom && z[0] > 2) throw std::runtime_error("boom " + z[0].get_str());
                return valueOf(f(z));
            }, arity}});
        };
        auto con = [&](const std::string & name, const Z & v) { e.consts[name] = v; SymbolTable::getInstance()->registe(name, SymbolTable::Symbol{valueOf(v)}); };
        fn("zero", 0, 1, [](const std::vector<Z> &) { return Z(0); });
        fn("id", 1, 2, [](const std::vector<Z> & a) { return a[0]; });
        fn("sub", 2, 3, [](const std::vector<Z> & a) { return Z(cut(a[0]) - cut(a[1])); });
        fn("_h", -1, 4, [](const std::vector<Z> & a) { Z r = (long)a.size(); for (auto & x : a) r = r * 31 + cut(x); return cut(r); });
        fn("boom", 1, 5, [](const std::vector<Z> & a) { return a[0]; }, true);
        con("NEG_1", Z(-1));
        con("big", -pow2(200) + 12345);
        con("x16", pow2(64));
    }
    return e;
}
// calls in the order of a sequential evaluation; ends at the first exception
struct Seq {
    std::vector<std::pair<int, int64_t>> calls;
    std::string thrown;
    static int no(const std::string & f) { return f == "zero" ? 1 : f == "id" ? 2 : f == "sub" ? 3 : f == "_h" ? 4 : 5; }
    Z run(const em::Node & n, const em::Env & e) {
        if (n.kind == '?') { bool yes = run(*n.ch[0], e) != 0; return thrown.empty() ? run(*n.ch[yes ? 1 : 2], e) : Z(0); }
        if (n.kind == 'n') return n.val;
        if (n.kind == 'c') return e.consts.at(n.op);
        std::vector<Z> a;
        for (auto & ch : n.ch) { a.push_back(run(*ch, e)); if (!thrown.empty()) return 0; }
        if (n.kind == 'f') {
            int64_t h = 0;
            for (auto & x : a) h = h * 1000003 + (int64_t)mpz_fdiv_ui(x.get_mpz_t(), 1000000007);
            calls.push_back({no(n.op), h});
            if (n.op == "boom" && a[0] > 2) { thrown = "boom " + a[0].get_str(); return 0; }
            return e.fns.at(n.op).f(a);
        }
        if (n.kind == 'u') return n.op == "-" ? Z(-a[0]) : n.op == "~" ? Z(~a[0]) : a[0];
        if (n.kind == 'p') { if (a[0] < 0) return 0; if (a[0] > 1000) throw em::TooBig{"factorial"}; Z r; mpz_fac_ui(r.get_mpz_t(), a[0].get_ui()); return r; }
        if ((n.op == "/" || n.op == "%") && a[1] == 0) throw em::TooBig{"division"};
        return em::Gen::calc(n.op, a[0], a[1]);
    }
};
std::string brief(const std::string & s) { return pbt::quote(s.size() > 600 ? s.substr(0, 300) + " ... " + s.substr(s.size() - 300) : s); }
bool isBuiltinError(const std::string & info) {
    for (pgbn::Enum e = 1; e <= 16; ++e) if (Status::getInfo(e) == info) return true;
    return false;
}
}  // namespace

PBT_PROPERTY("C14", prop_peval,
    "A case writes an expression (a generated tree, see C13, with calls, conditionals whose unselected branch must not be evaluated, and functions that throw; sometimes damaged so that it is malformed), draws a number of "
    "threads (1 to 6, rarely 16, or -1), sometimes a second caller evaluating another expression at the same time, and a schedule. The parallel result, exception, status and multiset of function calls must be those of the "
    "reference's sequential evaluation; it must end; no data race. Non-trivial: at least 2 operators and one preemption.",
    60000, 1200000) {
    quiet();
    const em::Env & e = env();
    const size_t callers = c.chance(1, 6) ? 2 : 1;
    struct Job { std::string text; bool malformed = false; Z v; Seq seq; int threads = 1; int how = 0; bool par = true; std::string got, info; bool threw = false; std::string what; size_t ops = 0; };
    std::vector<Job> jobs(callers);
    for (auto & j : jobs) {
        if (callers == 1 && c.chance(1, 2000)) {  // thousands of nodes
            const bool call = c.chance(1, 2);
            const size_t n = call ? (c.chance(1, 8) ? 4090 : c.chance(1, 3) ? 1020 : 250) + c.draw(20) : c.chance(1, 8) ? 4100 + c.draw(50) : c.chance(1, 2) ? 2040 + c.draw(60) : 100 + c.draw(1000);
            if (call) {  // the arguments of one call
                c.massive();
                std::vector<Z> a;
                pbt::Rng r(c.bits(64));
                int64_t h = 0;
                j.text = "_h(";
                for (size_t i = 0; i < n; ++i) { a.push_back(Z((unsigned long)(r.next() % 50))); j.text += (i ? "," : "") + a.back().get_str(); h = h * 1000003 + (int64_t)mpz_fdiv_ui(a.back().get_mpz_t(), 1000000007); }
                j.text += ")";
                j.v = e.fns.at("_h").f(a);
                j.seq.calls.push_back({4, h});
                c.label("a call with hundreds to thousands of arguments");
            } else j.text = em::wide(c, n, j.v);
            j.ops = n;
            j.threads = 1 + (int)c.draw(5);
            j.how = (int)c.draw(2);
            if (!call) c.label("hundreds to thousands of operators");
            if (c.verbose) c.note("peval " + brief(j.text) + " with " + num_(j.threads) + " threads, expected " + zs(j.v));
            continue;
        }
        const bool big = c.chance(1, 100);
        if (big) c.heavy();
        em::Gen g(c, e, 1 + (int)(big ? c.draw(120) : c.draw(11)));
        g.lim.bits = 600;
        g.lim.fact = 20;
        em::Gen::R r = g.gen(1 + (int)(big ? 4 + c.draw(8) : c.draw(4)));
        j.ops = g.ops;
        j.text = em::text(c, *r.n);
        bool skip = false;
        try {
            j.v = j.seq.run(*r.n, e);
        } catch (em::TooBig &) { skip = true; }
        if (skip) { c.label("left out: exception in a branch makes another operation undefined"); return; }
        if (!j.seq.thrown.empty()) {
            // after an exception in one operand the parallel evaluation still runs the others: leave out what is not defined there
            em::Limits lim;
            lim.bits = 1 << 16;
            try { em::eval(*r.n, e, lim); } catch (em::TooBig &) { c.label("left out"); return; }
        }
        if (c.chance(1, 10) && !j.text.empty()) {
            std::string t = j.text;
            size_t p = c.draw(t.size() - 1);
            if (c.chance(1, 2)) t.erase(p, 1); else t.insert(p, 1, "+-*)(,?:@=x9"[c.draw(11)]);
            em::Reader rd(e);
            try { rd.read(t); } catch (em::Bad &) { if (!rd.dubious) { j.malformed = true; j.text = t; j.v = 0; j.seq = Seq{}; } }
        }
        j.threads = c.chance(1, 30) ? -1 : c.chance(1, 100) ? 1 + (int)c.draw(15) : 1 + (int)c.weighted({3, 4, 3, 2, 1, 1});
        j.how = (int)c.draw(2);
        j.par = &j == &jobs[0] || c.chance(1, 2);
        if (c.verbose) c.note((j.par ? "peval " : "eval ") + brief(j.text) + " with " + num_(j.threads) + " threads, expected " + (j.malformed ? "an error" : j.seq.thrown.empty() ? zs(j.v) : "the exception " + j.seq.thrown));
    }
    uint64_t sw = 0;
    std::vector<sched::Event> ev;
    {
        sched::Session s(c);
        auto run = [&](Job & j) {
            Status own;
            own = ErrCode::SUCCESS;
            *Status::getInstance() = ErrCode::SUCCESS;
            Status * st = j.how == 0 ? nullptr : j.how == 1 ? &own : Status::getInstance();
            try {
                BigInteger r = j.par ? pgbn::expr::peval(j.text, j.threads, st) : pgbn::expr::eval(j.text, st);
                j.got = r.toString(16);
            } catch (const std::exception & x) { j.threw = true; j.what = x.what(); }
            j.info = j.how == 1 ? own.getInfo() : Status::getInstance()->getInfo();
        };
        c.stage("peval " + jobs[0].text);
        std::vector<std::thread> th;
        for (size_t i = 1; i < jobs.size(); ++i) th.emplace_back([&, i] { run(jobs[i]); });
        run(jobs[0]);
        for (auto & t : th) t.join();
        ev = sched::events();
        s.finish();
        sw = sched::switches();
    }
    bool anyThrow = false;
    std::multiset<std::pair<int, int64_t>> want, have;
    for (auto & j : jobs) {
        std::string name = (j.par ? "peval of " : "eval of ") + brief(j.text) + " with " + num_(j.threads) + " threads";
        if (!j.seq.thrown.empty()) {
            anyThrow = true;
            c.checkf(j.threw && j.what == j.seq.thrown, [&] { return name + (j.threw ? " ended with the exception " + pbt::quote(j.what) : " returned " + j.got) + ", sequential evaluation ends with the exception " + j.seq.thrown; });
        } else {
            c.checkf(!j.threw, [&] { return name + " ended with the exception " + pbt::quote(j.what); });
            c.checkf(Z(j.got, 16) == j.v, [&] { return name + " is 0x" + j.got + ", expected " + zs(j.v); });
        }
        c.checkf(isBuiltinError(j.info) == j.malformed, [&] { return name + (j.malformed ? ", which is malformed," : "") + " left the status " + pbt::quote(j.info); });
        for (auto & k : j.seq.calls) want.insert(k);
    }
    for (auto & x : ev) if (x.kind == E_CALL) have.insert({(int)x.a, x.b});
    if (!anyThrow) c.checkf(want == have, [&] { return "the registered functions were called " + num_((int64_t)have.size()) + " times, or with other arguments, instead of " + num_((int64_t)want.size()) + " times"; });
    else for (auto & k : want) c.checkf(have.count(k) >= want.count(k), [&] { return std::string("a selected call before the exception did not run"); });
    if (anyThrow) c.label("a function throws");
    for (auto & j : jobs) if (j.malformed) c.label("malformed");
    if (callers > 1) c.label("two callers at a time");
    if (!want.empty()) c.label("calls functions");
    if (jobs[0].text.find('?') != std::string::npos) c.label("conditional");
    scheduleLabel(c, sw);
    if (sw > 0 && jobs[0].ops >= 2) c.nontrivial();
}

// ------------------------------------------------------------------ C39
namespace {
enum { E_IN = 40, E_OUT };
struct Meeting {  // calls that wait until all of their round have come
    std::mutex m;
    std::condition_variable cv;
    std::map<int64_t, size_t> arrived;
    size_t target = 0;
    void come(int64_t round) {
        std::unique_lock<std::mutex> l(m);
        if (++arrived[round] >= target) cv.notify_all();
        else cv.wait(l, [&] { return arrived[round] >= target; });
    }
};
Meeting * MEETINGS[2];
em::Env & meetEnv() {
    static em::Env e;
    static bool done = false;
    if (!done) {
        done = true;
        e.fns["meet"] = em::Fn{3, [](const std::vector<Z> & a) { return a[2]; }};
        SymbolTable::getInstance()->registe("meet", SymbolTable::Symbol{Func{[](std::vector<Value> & a) {
            const Z who = zOfValue(a[0]), round = zOfValue(a[1]), v = zOfValue(a[2]);
            event(E_IN, who.get_si(), 1);
            MEETINGS[who.get_si()]->come(round.get_si());
            event(E_OUT, who.get_si(), 1);
            return valueOf(v);
        }, 3}});
        e.fns["busy"] = em::Fn{2, [](const std::vector<Z> & a) { return a[1]; }};
        SymbolTable::getInstance()->registe("busy", SymbolTable::Symbol{Func{[](std::vector<Value> & a) {
            const Z who = zOfValue(a[0]), v = zOfValue(a[1]);
            event(E_IN, who.get_si(), 0);
            spin(3);
            event(E_OUT, who.get_si(), 0);
            return valueOf(v);
        }, 2}});
    }
    return e;
}
}  // namespace

PBT_PROPERTY("C39", prop_threads,
    "A case writes one or two expressions whose calls announce their beginning and end; some of them, as many as the drawn number of threads (0 to 6, rarely 16, or -1) at most, and all of them of the same height, wait for each other (or also for those of the other expression) in one to three rounds. One or two callers evaluate them at the "
    "same time under a drawn schedule. All must come to an end (a deadlock is seen at once), at most the given number of calls may run at a time, and without threads (or with eval) all calls must run in the calling thread. Non-trivial: at least two calls waited for each other, or there were more calls than threads, and one preemption.",
    40000, 800000) {
    quiet();
    const em::Env & e = meetEnv();
    const size_t callers = c.chance(1, 5) ? 2 : 1;
    struct Job { std::string text; Z v; int threads = 0; bool par = true; size_t meet = 0, rounds = 0, calls = 0, limit = 0; std::string got; int tid = -1; };
    std::vector<Job> jobs(callers);
    const bool together = callers > 1 && c.chance(1, 2);  // the calls of both evaluations wait for each other
    for (size_t w = 0; w < callers; ++w) {
        Job & j = jobs[w];
        j.par = !c.chance(1, 12);
        j.threads = c.chance(1, 25) ? -1 : c.chance(1, 60) ? (int)(7 + c.draw(9)) : (int)c.weighted({2, 3, 5, 4, 3, 2, 1});
        const size_t hw = std::thread::hardware_concurrency();
        if (j.threads < 0 && (hw == 0 || hw > 20)) j.threads = 2;
        j.limit = !j.par || j.threads == 0 ? 1 : j.threads < 0 ? hw : (size_t)j.threads;
        j.meet = c.chance(1, 2) ? j.limit : 1 + c.draw(j.limit - 1);
        j.rounds = together && w > 0 ? jobs[0].rounds : 1 + c.weighted({5, 2, 1});
        const std::string me = num_((int64_t)w);
        std::vector<std::string> terms;
        for (size_t i = 0; i < j.meet; ++i) {
            std::string t = c.chance(1, 4) ? "0x" + num_((int64_t)c.draw(9)) : num_((int64_t)c.draw(30));
            for (size_t r = 0; r < j.rounds; ++r, ++j.calls) t = "meet(" + me + "," + num_((int64_t)r) + "," + t + ")";
            terms.push_back(t);
        }
        const bool many = c.chance(1, 300);
        if (many) c.heavy();
        const size_t more = many ? c.draw(c.chance(1, 8) ? 1100 : 150) : c.weighted({3, 3, 2, 1, 1, 1, 1});
        for (size_t i = 0; i < more; ++i) {
            std::string t = num_((int64_t)c.draw(30));
            if (c.chance(2, 3)) { t = "busy(" + me + "," + t + ")"; ++j.calls; }
            terms.insert(terms.begin() + (long)c.draw(terms.size()), t);
        }
        static const std::vector<std::string> ops = {"+", "-", "*", "&", "|", "^", " + ", "==", "<"};
        while (terms.size() > 1) {
            const size_t at = c.draw(terms.size() - 2);
            std::string t = terms[at] + c.pick(ops) + terms[at + 1];
            if (many && c.chance(3, 4)) { terms[at] = "(" + t + ")"; terms.erase(terms.begin() + (long)at + 1); continue; }
            switch (c.draw(5)) {
            case 0: t = "busy(" + me + "," + t + ")"; ++j.calls; break;
            case 1: t = "-(" + t + ")"; break;
            case 2: t = "((" + t + ")?" + num_((int64_t)c.draw(9)) + ":" + num_((int64_t)c.draw(9)) + ")"; break;
            default: t = "(" + t + ")";
            }
            terms[at] = t;
            terms.erase(terms.begin() + (long)at + 1);
        }
        j.text = terms[0];
        em::Reader rd(e);
        em::P n = rd.read(j.text);
        try { j.v = em::eval(*n, e, em::Limits{}); } catch (em::TooBig &) { return; }
        if (many) c.label("very many calls");
        if (c.verbose) c.note((j.par ? "peval " : "eval ") + brief(j.text) + " with " + num_(j.threads) + " threads, " + num_((int64_t)j.meet) + " calls meet in " + num_((int64_t)j.rounds) + " rounds" + (together ? " with those of the other evaluation" : "") + ", expected " + zs(j.v));
    }
    uint64_t sw = 0;
    std::vector<sched::Event> ev;
    {
        sched::Session s(c);
        Meeting meetings[2];
        for (size_t w = 0; w < callers; ++w) { meetings[together ? 0 : w].target += jobs[w].meet; MEETINGS[w] = &meetings[together ? 0 : w]; }
        auto run = [&](Job & j) {
            j.tid = sched::self();
            BigInteger r = j.par ? pgbn::expr::peval(j.text, j.threads) : pgbn::expr::eval(j.text);
            j.got = r.toString(16);
        };
        c.stage("peval " + jobs[0].text);
        std::vector<std::thread> th;
        for (size_t i = 1; i < jobs.size(); ++i) th.emplace_back([&, i] { run(jobs[i]); });
        run(jobs[0]);
        for (auto & t : th) t.join();
        ev = sched::events();
        s.finish();
        sw = sched::switches();
    }
    bool interesting = false;
    for (size_t w = 0; w < callers; ++w) {
        Job & j = jobs[w];
        const std::string name = (j.par ? "peval of " : "eval of ") + brief(j.text) + " with " + num_(j.threads) + " threads";
        c.checkf(Z(j.got, 16) == j.v, [&] { return name + " is 0x" + j.got + ", expected " + zs(j.v); });
        size_t running = 0, most = 0, calls = 0, elsewhere = 0;
        for (auto & x : ev) {
            if (x.a != (int64_t)w) continue;
            if (x.kind == E_IN) { ++calls; most = std::max(most, ++running); if (x.tid != j.tid) ++elsewhere; }
            if (x.kind == E_OUT) --running;
        }
        c.checkf(calls == j.calls, [&] { return name + ": " + num_((int64_t)calls) + " calls instead of " + num_((int64_t)j.calls); });
        c.checkf(most <= j.limit, [&] { return name + ": " + num_((int64_t)most) + " calls ran at a time, at most " + num_((int64_t)j.limit) + " may"; });
        if (!j.par || j.threads == 0) c.checkf(elsewhere == 0, [&] { return name + ": a call ran in another than the calling thread"; });
        if (j.meet >= 2 || j.calls > j.limit) interesting = true;
        c.label(!j.par ? "eval" : j.threads == 0 ? "no threads" : j.threads < 0 ? "default number of threads" : j.meet == j.limit && j.limit > 1 ? "as many calls meet as there are threads" : j.meet > 1 ? "fewer calls meet" : "no meeting");
    }
    scheduleLabel(c, sw);
    if (callers > 1) c.label(together ? "calls of two callers meet" : "two callers at a time");
    if (interesting && sw > 0) c.nontrivial();
}

// ------------------------------------------------------------------ C40threads
namespace {
// inner(which, how, x, y) evaluates the text of that number, with x and y in it: how = 0 by eval, 1 and 2 by peval with that many threads
const std::vector<std::string> & innerTexts() {
    static const std::vector<std::string> t = {"A*3-B", "(A+B", "inner(0,1,A,2)+inner(0,0,B,A)", "A<5?inner(0,2,A,B):B-inner(3,0,A,7)", "1+inner(0,2,inner(0,0,A,B),B-1)", "K-A=3", "A<1?B:inner(6,0,A-1,B+A)", "(A^B)+inner(1,1,A,B)", "A<1?B*2:inner(8,1,A-1,B-A)", "nope+A"};
    return t;
}
std::string innerText(const std::vector<Z> & a) {
    std::string t = innerTexts()[Z(abs(a[0]) % (unsigned long)innerTexts().size()).get_ui()], r;
    Z x = a[2], y = a[3];
    if (t.find("inner(6") != std::string::npos || t.find("inner(8") != std::string::npos) x = x % 5;
    if (t.find("inner(3") != std::string::npos && x >= 5) t = "B-A";  // it would never end
    for (char ch : t) if (ch == 'A') r += "(" + x.get_str() + ")"; else if (ch == 'B') r += "(" + y.get_str() + ")"; else r += ch;
    return r;
}
std::atomic<int> INNER_THREADS{0}, INNER{0};
std::string INNER_WRONG;
em::Env & innerEnv() {
    static em::Env e;
    static bool done = false;
    if (done) return e;
    done = true;
    e.consts["K"] = 1000;
    SymbolTable::getInstance()->registe("K", SymbolTable::Symbol{valueOf(1000)});
    e.fns["inner"] = em::Fn{4, [](const std::vector<Z> & a) -> Z {
        em::Reader rd(e);
        em::P n;
        try { n = rd.read(innerText(a)); } catch (em::Bad &) { return 0; }
        return em::eval(*n, e, em::Limits{});
    }};
    SymbolTable::getInstance()->registe("inner", SymbolTable::Symbol{Func{[](std::vector<Value> & args) {
        std::vector<Z> a;
        for (auto & v : args) a.push_back(zOfValue(v));
        const std::string t = innerText(a);
        int how = (int)Z(abs(a[1]) % 3).get_ui();
        if (how && INNER_THREADS.fetch_add(how) > 24) how = 0;
        INNER.fetch_add(1);
        Status st;
        BigInteger r = how ? pgbn::expr::peval(t, how, &st) : pgbn::expr::eval(t, &st);
        const std::string info = st.getInfo();
        bool said = false, refused = false;
        for (pgbn::Enum e = 1; e <= 16; ++e) if (Status::getInfo(e) == info) said = true;
        em::Reader rd(e);
        try { rd.read(t); } catch (em::Bad &) { refused = true; }
        if (said != refused) sched::bad("the status given to the evaluation of " + brief(t) + " inside a call says " + pbt::quote(info));
        return valueOf(Z(r.toString(16), 16));
    }, 4}});
    return e;
}
}  // namespace
PBT_PROPERTY("C40threads", prop_reentrant_threads,
    "A case evaluates one or two expressions at the same time (eval, or peval with 1 to 3 threads) whose function calls evaluate further texts, sequentially or in parallel with 1 or 2 threads of their own, some of them malformed, some calling the function again, under a drawn schedule. "
    "Everything must come to an end, the values must be those of the reference, and the status given to an inner evaluation must tell about that one only. No data race. Non-trivial: at least 2 inner evaluations and one preemption.",
    12000, 300000) {
    quiet();
    const em::Env & e = innerEnv();
    struct Job { std::string text; Z v; int threads = 0; std::string got; };
    std::vector<Job> jobs(c.chance(1, 4) ? 2 : 1);
    for (auto & j : jobs) {
        j.threads = (int)c.weighted({1, 2, 3, 2});
        static const std::vector<std::string> ops = {"+", "-", "*", "&", "^", "<", " - "};
        auto leaf = [&] { return c.chance(1, 6) ? std::string("K") : num_((int64_t)c.draw(9)); };
        std::function<std::string(int)> call = [&](int d) {
            std::string t = "inner(" + num_((int64_t)c.draw(innerTexts().size() - 1)) + "," + num_((int64_t)c.draw(2)) + ",";
            t += (d > 0 && c.chance(1, 4) ? call(d - 1) : leaf()) + "," + (d > 0 && c.chance(1, 4) ? call(d - 1) : leaf()) + ")";
            return t;
        };
        j.text = call(2);
        for (size_t k = c.draw(3); k--;) {
            const std::string x = c.chance(2, 3) ? call(1) : leaf();
            j.text = c.chance(1, 6) ? "(" + x + "?" + j.text + ":" + call(0) + ")" : c.chance(1, 2) ? j.text + c.pick(ops) + x : x + c.pick(ops) + "(" + j.text + ")";
        }
        em::Reader rd(e);
        em::P n = rd.read(j.text);
        try { j.v = em::eval(*n, e, em::Limits{}); } catch (em::TooBig &) { return; }
        if (c.verbose) c.note((j.threads ? "peval with " + num_(j.threads) + " threads: " : std::string("eval: ")) + brief(j.text) + ", expected " + zs(j.v));
    }
    INNER_THREADS = 0;
    INNER = 0;
    uint64_t sw = 0;
    {
        sched::Session s(c);
        auto run = [&](Job & j) {
            BigInteger r = j.threads ? pgbn::expr::peval(j.text, j.threads) : pgbn::expr::eval(j.text);
            j.got = r.toString(16);
        };
        c.stage("evaluation of " + jobs[0].text);
        std::vector<std::thread> th;
        for (size_t i = 1; i < jobs.size(); ++i) th.emplace_back([&, i] { run(jobs[i]); });
        run(jobs[0]);
        for (auto & t : th) t.join();
        s.finish();
        sw = sched::switches();
    }
    for (auto & j : jobs) c.checkf(Z(j.got, 16) == j.v, [&] { return "the value of " + brief(j.text) + " is 0x" + j.got + ", expected " + zs(j.v); });
    scheduleLabel(c, sw);
    if (jobs.size() > 1) c.label("two callers at a time");
    if (INNER_THREADS > 0) c.label("inner evaluations with threads");
    if (INNER >= 2 && sw > 0) c.nontrivial();
}

// ------------------------------------------------------------------ C22
namespace {
enum { S_ASSIGN, S_RADIX, S_EVAL, S_CREATE_C, S_SET, S_SET_C, S_ASSIGN_C, S_U64, S_I64, S_COPY_IN };
struct StOp { int kind; std::string text; int code; };
const std::vector<StOp> & stOps() {
    static const std::vector<StOp> t = {
        {S_ASSIGN, "123", 0}, {S_ASSIGN, "", 3}, {S_ASSIGN, "1-2", 4}, {S_ASSIGN, "12x", 5}, {S_RADIX, "7", 2}, {S_SET, "", 12}, {S_SET_C, "", 15}, {S_SET, "", 6}, {S_SET_C, "", 1}, {S_SET, "", 14},  // these codes are plain
        {S_EVAL, "1+1", -1}, {S_EVAL, "1 @ 2", -1}, {S_EVAL, "nope", -1}, {S_EVAL, "1 = 2", -1}, {S_EVAL, "1 < ", -1}, {S_CREATE_C, "55", -1}, {S_CREATE_C, "5 5", -1}, {S_ASSIGN_C, "99", -1}, {S_ASSIGN_C, "a+", -1}, {S_U64, "", -1}, {S_I64, "", -1}};
    return t;
}
constexpr size_t PLAIN = 10;
void stApply(const StOp & o) {
    switch (o.kind) {
    case S_ASSIGN: { BigInteger b(5); bool ok; b.assign(pgbn::StringArg(o.text), 10, &ok); break; }
    case S_RADIX: { BigInteger b(5); bool ok; b.assign(pgbn::StringArg(o.text), 99, &ok); break; }
    case S_EVAL: (void)pgbn::expr::eval(o.text); break;
    case S_CREATE_C: if (auto * b = pgbn_BigInteger_CreateWithStr(o.text.c_str(), 10)) pgbn_BigInteger_Destroy(b); break;
    case S_SET: PGBN_GetGlobalStatus() = (pgbn::Enum)o.code; break;
    case S_SET_C: pgbn_Status_SetErrno(pgbn_Status_GetGlobalInstance(), (pgbn_Enum_t)o.code); break;
    case S_ASSIGN_C: { auto * b = pgbn_BigInteger_Create(); (void)pgbn_BigInteger_AssignWithStr(b, o.text.c_str(), 10); pgbn_BigInteger_Destroy(b); break; }
    case S_U64: { BigInteger b(1); b <<= 64; bool ok; (void)b.getUInt64(&ok); break; }
    default: { BigInteger b(-5); b <<= 70; bool ok; (void)b.getInt64(&ok); break; }
    }
}
const char * const READS[] = {"getInstance", "PGBN_GetGlobalStatus", "C interface", "kept C instance", "kept C++ instance"};
struct StThread {
    std::vector<std::pair<size_t, int>> prog;  // operation (or none: stOps().size()), way of reading
    std::vector<std::string> got;
    void run() {
        pgbn_Status_t * keptC = pgbn_Status_GetGlobalInstance();
        Status * kept = Status::getInstance();
        for (auto & p : prog) {
            if (p.first < stOps().size()) stApply(stOps()[p.first]);
            sched::yield();
            switch (p.second) {
            case 0: got.push_back(Status::getInstance()->getInfo()); break;
            case 1: got.push_back(PGBN_GetGlobalStatus().getInfo()); break;
            case 2: got.push_back(pgbn_Status_GetInfo(pgbn_Status_GetGlobalInstance())); break;
            case 3: got.push_back(pgbn_Status_GetInfo(keptC)); break;
            default: got.push_back(kept->getInfo()); break;
            }
        }
    }
};
std::vector<StThread> stPrograms(Case & c, size_t ops) {
    std::vector<StThread> th(2 + (c.chance(1, 100) ? c.draw(18) : c.draw(2)));
    for (auto & t : th) {
        size_t n = 1 + (c.chance(1, 100) ? c.draw(60) : c.draw(4));
        if (c.chance(1, 4)) t.prog.push_back({stOps().size(), (int)c.draw(4)});  // nothing was done in this thread yet
        while (n--) t.prog.push_back({c.draw(ops - 1), (int)c.draw(4)});
    }
    if (c.verbose) for (size_t i = 0; i < th.size(); ++i) {
        std::string s = "thread " + num_((int64_t)i) + ":";
        for (auto & p : th[i].prog) {
            static const char * const K[] = {"assign ", "radix 99 ", "eval ", "C create ", "set ", "C set ", "C assign ", "getUInt64(2^64)", "getInt64(-5*2^70)"};
            s += p.first < stOps().size() ? std::string(" ") + K[stOps()[p.first].kind] + pbt::quote(stOps()[p.first].text) + (stOps()[p.first].code >= 0 ? " -> " + num_(stOps()[p.first].code) : "") : " (nothing)";
            s += std::string(", read by ") + READS[p.second] + ";";
        }
        c.note(s);
    }
    return th;
}
std::string codeInfo(int code) { for (pgbn::SizeType i = 0; i < pgbn::errInfoCount; ++i) if ((int)pgbn::errInfos[i].code == code) return pgbn::errInfos[i].info; return "?"; }
}  // namespace

PBT_PROPERTY("C22", prop_status_threads,
    "A case draws 2 to 4, rarely 20, threads (one of them the creating one), each with a list of operations that leave a code in its status (conversions, parses, evaluations, direct assignments; C++ and C interface) and ways to read it in "
    "between (current instance, C instance, instances kept from before), and a schedule. Every read must give what that thread's own last operation leaves when it runs alone, and a thread that did nothing sees the initial "
    "status. No data race. Non-trivial: at least one preemption.",
    80000, 1500000) {
    quiet();
    static std::vector<std::string> ref;  // what each operation leaves, alone
    static std::string fresh;
    if (ref.empty()) {
        for (auto & o : stOps()) { stApply(o); ref.push_back(Status::getInstance()->getInfo()); }
        std::thread([] { fresh = Status::getInstance()->getInfo(); }).join();
        std::set<std::string> kinds(ref.begin(), ref.end());
        if (kinds.size() < 8) c.fail("the operations leave too few different statuses to tell threads apart");
    }
    auto th = stPrograms(c, stOps().size());
    std::string first;
    *Status::getInstance() = ErrCode::SUCCESS;
    first = Status::getInstance()->getInfo();
    uint64_t sw = 0;
    {
        sched::Session s(c);
        c.stage("threads use their status");
        std::vector<std::thread> t;
        for (size_t i = 1; i < th.size(); ++i) t.emplace_back([&th, i] { th[i].run(); });
        th[0].run();
        for (auto & x : t) x.join();
        s.finish();
        sw = sched::switches();
    }
    for (size_t i = 0; i < th.size(); ++i) {
        std::string want = i == 0 ? first : fresh;
        for (size_t k = 0; k < th[i].prog.size(); ++k) {
            if (th[i].prog[k].first < ref.size()) want = ref[th[i].prog[k].first];
            c.checkf(th[i].got[k] == want, [&] { return "thread " + num_((int64_t)i) + ", step " + num_((int64_t)k) + ", read by " + READS[th[i].prog[k].second] + ": the status is " + pbt::quote(th[i].got[k]) + ", its own last operation leaves " + pbt::quote(want); });
        }
    }
    scheduleLabel(c, sw);
    if (sw > 0) c.nontrivial();
}

// The first use of the library's status happens in several threads at a time: a process per case.
PBT_PROPERTY("C22first", prop_status_first,
    "As C22, but in a new process per case in which the library's status is used for the first time by these threads at the same time, and with the built-in error callbacks. Every read must give the text of the code that the "
    "thread's last operation sets. Non-trivial: at least one preemption.",
    2500, 60000) {
    auto th = stPrograms(c, PLAIN);
    for (auto & t : th) for (auto & p : t.prog) if (p.first < PLAIN && stOps()[p.first].code == 1) p.first = 0;  // the built-in callback of division by zero ends the process
    auto r = pbt::inChild([&] {
        try {
            {
                sched::Session s(c);
                c.stage("threads use their status for the first time in the process");
                std::vector<std::thread> t;
                for (size_t i = 1; i < th.size(); ++i) t.emplace_back([&th, i] { th[i].run(); });
                th[0].run();
                for (auto & x : t) x.join();
                s.finish();
            }
            for (size_t i = 0; i < th.size(); ++i) {
                std::string want;
                bool any = false;
                for (size_t k = 0; k < th[i].prog.size(); ++k) {
                    if (th[i].prog[k].first < PLAIN) { want = codeInfo(stOps()[th[i].prog[k].first].code); any = true; }
                    if (any && th[i].got[k] != want) c.fail("thread " + num_((int64_t)i) + ", step " + num_((int64_t)k) + ": the status is " + pbt::quote(th[i].got[k]) + " instead of " + pbt::quote(want));
                }
            }
        } catch (const pbt::Failure & f) { pbt::failNow(c, f.msg); }
    });
    if (r.blocked || !r.exited || r.code != 0) c.fail(c.sh->failedFlag ? std::string(c.sh->msg) : "the process " + (r.blocked ? std::string("blocks") : r.exited ? "exited with status " + num_(r.code) : "died with signal " + num_(r.sig)) + "; it printed " + pbt::quote(r.err.substr(0, 500)));
    c.nontrivial();
}

// ------------------------------------------------------------------ C27
namespace {
enum { V_ADD, V_SUB, V_MUL, V_DIV, V_MOD, V_AND, V_OR, V_XOR, V_SHL, V_SHR, V_NEG, V_ABS, V_NOT, V_INC, V_DEC, V_COPY, V_NEW, V_MOVE, V_TEXT, V_CMP, V_WORD, V_BYTES, V_I64, V_ASSIGN, V_SWAP, V_KINDS };
const char * const VNAME[] = {"+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "negate", "abs", "~", "++", "--", "copy", "new copy", "move", "text", "compare", "word", "bytes", "+= int64", "assign int64", "swap"};
struct VOp { int kind; size_t a, b; int64_t k; bool shared; };  // shared: the second operand is the value that all threads read
struct VThread {
    std::vector<std::unique_ptr<BigInteger>> v;
    std::vector<VOp> prog;
    std::vector<std::string> got, want;
};
std::string bytesOf(const BigInteger & b) { std::string s(16000, '\0'); s.resize(b.copyMagDataTo(s.data(), s.size())); return pbt::hex(s.data(), s.size()) + (b.isNegative() ? "-" : ""); }
std::string bytesOf(const Z & z) { std::string s = magLE(z); return pbt::hex(s.data(), s.size()) + (z < 0 ? "-" : ""); }
void vRun(VThread & t, const BigInteger & shared) {
    for (auto & o : t.prog) {
        BigInteger & a = *t.v[o.a];
        const BigInteger & b = o.shared ? shared : *t.v[o.b];
        switch (o.kind) {
        case V_ADD: a += b; break;
        case V_SUB: a -= b; break;
        case V_MUL: a *= b; break;
        case V_DIV: if (!b.isZero()) a /= b; break;
        case V_MOD: if (!b.isZero()) a %= b; break;
        case V_AND: a &= b; break;
        case V_OR: a |= b; break;
        case V_XOR: a ^= b; break;
        case V_SHL: a <<= (std::uint64_t)o.k; break;
        case V_SHR: a >>= (std::uint64_t)o.k; break;
        case V_NEG: a.negate(); break;
        case V_ABS: a.abs(); break;
        case V_NOT: a = ~b; break;
        case V_INC: ++a; break;
        case V_DEC: --a; break;
        case V_COPY: a = b; break;
        case V_NEW: t.v[o.a] = std::make_unique<BigInteger>(b); break;
        case V_MOVE: { BigInteger m(b); a = std::move(m); break; }
        case V_TEXT: t.got.push_back(b.toString(10)); break;
        case V_CMP: t.got.push_back(num_(a.cmp(b) < 0 ? -1 : a.cmp(b) > 0) + (b.isEven() ? "e" : "o")); break;
        case V_WORD: t.got.push_back(num_(b.get2sComplement((pgbn::SizeType)o.k))); break;
        case V_BYTES: t.got.push_back(bytesOf(b)); break;
        case V_I64: a += (std::int64_t)o.k; break;
        case V_ASSIGN: a = (std::int64_t)o.k; break;
        default: if (!o.shared) std::swap(a, *t.v[o.b]); break;
        }
    }
}
void vModel(VThread & t, std::vector<Z> & v, const Z & shared) {
    for (auto & o : t.prog) {
        Z & a = v[o.a];
        const Z b = o.shared ? shared : v[o.b];
        auto & ma = a;
        switch (o.kind) {
        case V_ADD: a += b; break;
        case V_SUB: a -= b; break;
        case V_MUL: a *= b; break;
        case V_DIV: if (b != 0) a /= b; break;
        case V_MOD: if (b != 0) a %= b; break;
        case V_AND: ma = a & b; break;
        case V_OR: ma = a | b; break;
        case V_XOR: ma = a ^ b; break;
        case V_SHL: mpz_mul_2exp(a.get_mpz_t(), a.get_mpz_t(), (unsigned long)o.k); break;
        case V_SHR: mpz_fdiv_q_2exp(a.get_mpz_t(), a.get_mpz_t(), (unsigned long)o.k); break;
        case V_NEG: a = -a; break;
        case V_ABS: a = abs(a); break;
        case V_NOT: a = ~b; break;
        case V_INC: a += 1; break;
        case V_DEC: a -= 1; break;
        case V_COPY: case V_NEW: case V_MOVE: a = b; break;
        case V_TEXT: t.want.push_back(b.get_str(10)); break;
        case V_CMP: t.want.push_back(num_(cmp(a, b) < 0 ? -1 : cmp(a, b) > 0) + (mpz_even_p(b.get_mpz_t()) ? "e" : "o")); break;
        case V_WORD: {
            Z w;
            mpz_fdiv_q_2exp(w.get_mpz_t(), b.get_mpz_t(), 32 * (unsigned long)o.k);
            mpz_fdiv_r_2exp(w.get_mpz_t(), w.get_mpz_t(), 32);
            t.want.push_back(num_((int64_t)w.get_ui()));
            break;
        }
        case V_BYTES: t.want.push_back(bytesOf(b)); break;
        case V_I64: a += z64(o.k); break;
        case V_ASSIGN: a = z64(o.k); break;
        default: if (!o.shared) std::swap(a, v[o.b]); break;
        }
    }
}
}  // namespace

PBT_PROPERTY("C27", prop_values_threads,
    "A case builds 1 to 3 values (0 to 9 words, sometimes 85), gives each of 2 or 3 (rarely 14) threads its own copies, which share storage with the others', and draws per thread a program of arithmetic, bitwise operations, shifts, "
    "copies, moves, conversions and comparisons over them; in half of the cases the threads also read one further common value (words of its two's complement, text, copies, as an operand). Under the drawn schedule all results "
    "must be those of the GMP model run thread by thread. No data race (not reported where a common value is read: its cache is filled by readers). Non-trivial: at least one preemption.",
    150000, 3000000) {
    quiet();
    const bool common = c.chance(1, 2);
    std::vector<Z> base(1 + c.draw(2));
    std::vector<std::unique_ptr<BigInteger>> B;
    Keep keep;
    for (auto & z : base) {
        z = c.chance(1, 25) ? genMagWords(c, 85) : c.chance(1, 2) ? genMagWords(c, c.draw(9)) : genZ(c, SMALL);
        if (c.chance(1, 2)) z = -z;
        B.push_back(std::make_unique<BigInteger>(build(c, z, keep)));
    }
    keep.alive.clear();
    Z sharedZ = genMagWords(c, c.draw(6));
    if (c.chance(1, 3)) sharedZ <<= 32 * (1 + c.draw(3));
    if (c.chance(2, 3)) sharedZ = -sharedZ;
    std::vector<VThread> th(2 + (c.chance(1, 100) ? c.draw(12) : c.weighted({3, 1})));
    std::vector<std::vector<Z>> model(th.size());
    for (size_t i = 0; i < th.size(); ++i) {
        size_t n = 1 + (c.chance(1, 60) ? c.draw(20) : c.draw(2));
        for (size_t k = 0; k < n; ++k) {
            size_t from = c.draw(base.size() - 1);
            th[i].v.push_back(std::make_unique<BigInteger>(*B[from]));
            model[i].push_back(base[from]);
        }
        size_t ops = 1 + (c.chance(1, 100) ? c.draw(60) : c.draw(6));
        for (size_t k = 0; k < ops; ++k) {
            VOp o{(int)c.draw(V_KINDS - 1), c.draw(n - 1), c.draw(n - 1), 0, common && c.chance(1, 2)};
            if (common && c.chance(1, 3)) { o.kind = c.chance(3, 4) ? V_WORD : V_XOR; o.shared = true; }
            if (o.kind == V_SHL || o.kind == V_SHR) o.k = (int64_t)(c.chance(1, 3) ? 32 * c.draw(3) : c.draw(70));
            else if (o.kind == V_WORD) o.k = (int64_t)c.draw(8);
            else o.k = genI64(c);
            if (o.kind == V_MUL && th[i].prog.size() > 3) o.kind = V_SUB;
            th[i].prog.push_back(o);
        }
    }
    if (c.chance(1, 2)) B.clear();  // the values copied from are gone, or live on beside the threads
    if (c.verbose) {
        for (auto & z : base) c.note("base value " + zs(z));
        if (common) c.note("common value " + zs(sharedZ));
        for (size_t i = 0; i < th.size(); ++i) {
            std::string s = "thread " + num_((int64_t)i) + ", values";
            for (auto & z : model[i]) s += " " + zs(z);
            s += ":";
            for (auto & o : th[i].prog) s += " v" + num_((int64_t)o.a) + " " + VNAME[o.kind] + " " + (o.shared ? std::string("common") : "v" + num_((int64_t)o.b)) + " " + num_(o.k) + ";";
            c.note(s);
        }
    }
    auto before = base;
    for (size_t i = 0; i < th.size(); ++i) vModel(th[i], model[i], sharedZ);
    BigInteger shared = fromZ(sharedZ);
    uint64_t sw = 0;
    {
        sched::Session s(c, !common);
        c.stage("threads work on their own values");
        std::vector<std::thread> t;
        for (size_t i = 1; i < th.size(); ++i) t.emplace_back([&th, &shared, i] { vRun(th[i], shared); });
        vRun(th[0], shared);
        for (auto & x : t) x.join();
        s.finish();
        sw = sched::switches();
    }
    for (size_t i = 0; i < th.size(); ++i) {
        std::string who = "thread " + num_((int64_t)i);
        for (size_t k = 0; k < th[i].want.size(); ++k)
            c.checkf(th[i].got[k] == th[i].want[k], [&] { return who + ", read " + num_((int64_t)k) + ": " + th[i].got[k].substr(0, 200) + ", expected " + th[i].want[k].substr(0, 200); });
        for (size_t k = 0; k < model[i].size(); ++k) observe(c, *th[i].v[k], model[i][k], (who + ", final value v" + num_((int64_t)k)).c_str());
    }
    for (size_t k = 0; k < B.size(); ++k) observe(c, *B[k], before[k], "a value the threads' values were copied from");
    observe(c, shared, sharedZ, "the common value");
    c.label(common ? "with a common value" : "own values only");
    scheduleLabel(c, sw);
    if (sw > 0) c.nontrivial();
}
