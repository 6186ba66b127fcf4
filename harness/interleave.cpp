#include "interleave.h"
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <ctime>
#include <deque>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>


namespace {
constexpr int MAXT = 48;
struct VC {
    uint32_t c[MAXT] = {};
    void join(const VC & o) { for (int i = 0; i < MAXT; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};
enum State { RUN, BLOCKED, TIMED, DONE };
struct Thread {
    int id = 0;
    State st = RUN;
    const void * on = nullptr;   // what it waits for
    const char * why = "";
    bool timedOut = false, woken = false;
    volatile int go = 0;
    pthread_t pt{};
    bool joined = false, detached = false;
    uintptr_t lo = 0, hi = 0;    // its stack
    VC vc;
    VC fence;                    // clock at the last release fence
    bool hasFence = false;
    uint64_t prio = 0;
    int ends = 0;
    uint64_t quiet = 0;          // points since it last gave way
    void * (*fn)(void *) = nullptr;
    void * arg = nullptr;
};
struct Mutex { Thread * owner = nullptr; int count = 0; VC vc; };
struct Rw { Thread * writer = nullptr; int readers = 0; VC vc, rvc; };
struct Access { uint32_t clk = 0; uint8_t tid = 0, mask = 0, write = 0, atomic = 0; const void * pc = nullptr; };
struct Cell { uintptr_t addr = 0; uint64_t gen = 0; Access a[6]; uint8_t last = 0; uint8_t shared = 0; };
constexpr size_t CELLS = 1u << 17;

struct World {
    pbt::Case * c = nullptr;
    std::deque<Thread> th;
    std::unordered_map<const void *, Mutex> mx;
    std::unordered_map<const void *, Rw> rw;
    std::unordered_map<const void *, std::deque<Thread *>> cond;
    std::unordered_map<const void *, VC> sync;
    std::unordered_map<const void *, Thread *> once;
    std::unordered_map<const void *, long> sem;
    std::unordered_set<uintptr_t> escaped;  // own-stack granules that another thread has touched
    std::vector<sched::Event> ev;
    uint64_t points = 0, switches = 0;
    // strategy
    int syncDen = 0;
    bool spurious = false;
    int left = 0;            // preemptions at memory accesses still to come
    uint64_t countdown = 0;
    bool onShared = false;
    bool pct = false;
    uint64_t mainStackLo = 0, mainStackHi = 0;
    bool races = true;
    std::string race, bad;
};
World * W = nullptr;
uint64_t gen = 0;
Cell * cells = nullptr;
__thread Thread * me = nullptr;
// Set while a thread is in this file: containers used here may share code with instrumented units.
__thread int inside = 0;
struct In { In() { ++inside; } ~In() { --inside; } };

// ---- the real functions
template <typename F> F real(F & slot, const char * name, const char * ver = nullptr) {
    if (!slot) {
        void * p = ver ? dlvsym(RTLD_NEXT, name, ver) : nullptr;
        if (!p) p = dlsym(RTLD_NEXT, name);
        slot = (F)p;
        if (!slot) { static const char m[] = "sched: missing function\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
    }
    return slot;
}
long rawSyscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
void give(Thread * t) {
    __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
    rawSyscall(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1);
}
void await(Thread * t) {
    while (!__atomic_load_n(&t->go, __ATOMIC_SEQ_CST)) rawSyscall(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&t->go, 0, __ATOMIC_SEQ_CST);
}

std::string describe() {
    std::string s;
    for (auto & t : W->th) if (t.st != DONE) s += " thread " + std::to_string(t.id) + (t.st == RUN ? " can run" : std::string(" waits for ") + t.why) + ";";
    return s;
}
[[noreturn]] void die(const std::string & m) { pbt::failNow(*W->c, m); abort(); }

// which thread runs next; t (may be null) is the current one if it can go on
Thread * choose(Thread * t, bool other) {
    Thread * r[MAXT];
    size_t n = 0;
    int cur = me ? me->id : 0, total = (int)W->th.size();
    if (t && !other) r[n++] = t;
    for (int k = 1; k <= total; ++k) { auto & x = W->th[(cur + k) % total]; if (x.st == RUN && &x != t) r[n++] = &x; }
    if (n == 0 && t) return t;
    if (n == 0) {  // only time can help
        for (int k = 1; k <= total; ++k) { auto & x = W->th[(cur + k) % total]; if (x.st == TIMED) r[n++] = &x; }
        if (n == 0) return nullptr;
        Thread * x = r[n > 1 ? W->c->draw(n - 1) : 0];
        x->timedOut = true;
        x->st = RUN;
        return x;
    }
    if (n == 1) return r[0];
    if (W->pct) { Thread * b = r[0]; for (size_t i = 1; i < n; ++i) if (r[i]->prio > b->prio) b = r[i]; return b; }
    return r[W->c->draw(n - 1)];
}
void switchTo(Thread * n) {
    Thread * s = me;
    if (n == s) return;
    s->quiet = 0;
    give(n);
    await(s);
}
// the current thread cannot go on until something makes it RUN again
void block(const void * on, const char * why, bool timed = false) {
    Thread * s = me;
    s->st = timed ? TIMED : BLOCKED;
    s->on = on;
    s->why = why;
    s->timedOut = false;
    if (timed && W->c->chance(1, 8)) { s->timedOut = true; s->st = RUN; }
    Thread * n = choose(nullptr, false);
    if (!n) die("deadlock: no thread can run;" + describe());
    switchTo(n);
    s->on = nullptr;
}
int wake(const void * on, int max = INT_MAX) {
    int k = 0;
    for (auto & t : W->th) if (k < max && (t.st == BLOCKED || t.st == TIMED) && t.on == on) { t.st = RUN; ++k; }
    return k;
}
bool others() { for (auto & t : W->th) if (&t != me && t.st == RUN) return true; return false; }
void newCountdown() {
    if (W->left <= 0) { W->countdown = 0; return; }
    --W->left;
    uint64_t e = W->c->draw(13);
    W->countdown = 1 + W->c->draw((1ull << e) * 2);
    W->onShared = W->c->chance(1, 2);
}
void preempt() {
    if (W->pct) me->prio = 0;
    Thread * n = choose(me, true);
    if (n && n != me) { ++W->switches; switchTo(n); }
}
void tick(bool shared) {
    ++W->points;
    if (++me->quiet > 3000) {  // no thread may spin for ever
        me->quiet = 0;
        if (others()) { if (W->pct) me->prio = me->prio / 2; int total = (int)W->th.size(); for (int k = 1; k < total; ++k) { auto & x = W->th[(me->id + k) % total]; if (x.st == RUN) { switchTo(&x); return; } } }
    }
    if (W->countdown && (shared || !W->onShared) && --W->countdown == 0) {
        newCountdown();
        if (others()) preempt();
    }
}
void syncPoint() {
    ++W->points;
    tick(true);
    if (W->syncDen && others() && W->c->chance(1, (uint64_t)W->syncDen)) preempt();
}

// ---- happens-before
void acquire(const void * a) { auto it = W->sync.find(a); if (it != W->sync.end()) me->vc.join(it->second); }
void release(const void * a) { W->sync[a].join(me->vc); ++me->vc.c[me->id]; }

std::string where(const void * pc) {
    Dl_info d;
    if (dladdr(pc, &d) && d.dli_sname) return std::string(d.dli_sname).substr(0, 160);
    return "?";
}
Cell * cellOf(uintptr_t g) {
    size_t h = (size_t)((g * 0x9e3779b97f4a7c15ull) >> 47);
    Cell & c = cells[h & (CELLS - 1)];
    if (c.gen != gen || c.addr != g) { c = Cell{}; c.addr = g; c.gen = gen; c.last = 255; }
    return &c;
}
bool ownStack(uintptr_t a) { return a >= me->lo && a < me->hi; }

void record(Cell * c, uint8_t mask, bool write, bool atomic, const void * pc) {
    Thread * t = me;
    int slot = -1, oldest = 0;
    for (int i = 0; i < 6; ++i) {
        Access & a = c->a[i];
        if (!a.mask) { if (slot < 0) slot = i; continue; }
        if (a.tid == t->id) { if (a.write == write && a.atomic == atomic && (a.mask & ~mask) == 0) slot = i; continue; }
        bool ordered = a.clk <= t->vc.c[a.tid];
        if (W->races && !ordered && (a.mask & mask) && (a.write || write) && !(a.atomic && atomic) && W->race.empty())
            W->race = std::string("data race: thread ") + std::to_string(t->id) + (write ? " writes" : " reads") + " in " + where(pc) + " what thread " + std::to_string(a.tid) + (a.write ? " wrote" : " read") + " in " + where(a.pc) +
                      ", and nothing orders the two";
        if (ordered && slot < 0 && (a.mask & ~mask) == 0) slot = i;
        if (c->a[oldest].clk > a.clk) oldest = i;
    }
    if (slot < 0) slot = oldest;
    c->a[slot] = {t->vc.c[t->id], (uint8_t)t->id, mask, (uint8_t)write, (uint8_t)atomic, pc};
}
void access(const void * p, size_t n, bool write, bool atomic, const void * pc) {
    if (!me || !W || inside) return;
    In in;
    uintptr_t a = (uintptr_t)p, e = a + (n ? n : 1);
    bool own = ownStack(a);
    if (own && !W->escaped.count(a >> 3)) { if (atomic) tick(false); return; }
    bool shared = own;
    for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g) {
        Cell * c = cellOf(g);
        if (c->last == 255) c->last = (uint8_t)me->id;
        else if (c->last != me->id) { c->last = (uint8_t)me->id; c->shared = 1; }
        shared = shared || c->shared;
        if (!own) for (auto & t : W->th) if (t.id != me->id && a >= t.lo && a < t.hi) W->escaped.insert(g);
    }
    tick(shared);
    for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; ++g) {
        unsigned lo = g == a >> 3 ? a & 7 : 0, hi = g == (e - 1) >> 3 ? ((e - 1) & 7) + 1 : 8;
        uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
        record(cellOf(g), mask, write, atomic, pc);
    }
}
void forget(void * p, size_t n) {
    if (!me || !W || inside) return;
    In in;
    for (uintptr_t g = (uintptr_t)p >> 3, e = ((uintptr_t)p + n + 7) >> 3; g < e; ++g) {
        size_t h = (size_t)((g * 0x9e3779b97f4a7c15ull) >> 47);
        Cell & c = cells[h & (CELLS - 1)];
        if (c.addr == g) c.addr = 0;
        if (!W->sync.empty()) W->sync.erase((const void *)(g << 3));
    }
}
void stackOf(Thread & t) {
    pthread_attr_t at;
    void * base = nullptr;
    size_t size = 0;
    if (pthread_getattr_np(pthread_self(), &at) == 0) { pthread_attr_getstack(&at, &base, &size); pthread_attr_destroy(&at); }
    t.lo = (uintptr_t)base;
    t.hi = t.lo + size;
}
pthread_key_t endKey;
void threadEnds(void *);
void * trampoline(void * p) {
    Thread * t = (Thread *)p;
    await(t);
    stackOf(*t);
    for (auto i = W->escaped.begin(); i != W->escaped.end();) {  // left by an earlier thread's stack in the same place
        if ((*i << 3) >= t->lo && (*i << 3) < t->hi) { Cell * c = cellOf(*i); *c = Cell{}; i = W->escaped.erase(i); }
        else ++i;
    }
    me = t;
    pthread_setspecific(endKey, t);
    return t->fn(t->arg);
}
// Runs after the destructors of the thread's thread_local objects, which are part of the schedule.
void threadEnds(void * p) {
    Thread * t = (Thread *)p;
    if (me && ++t->ends < 3) { pthread_setspecific(endKey, t); return; }  // after the destructors of other keys
    if (!me) return;
    In in;
    release(t);
    t->st = DONE;
    wake(t);
    Thread * n = choose(nullptr, false);
    if (!n) die("deadlock: a thread has ended and no other can run;" + describe());
    me = nullptr;
    give(n);
}
}  // namespace

// ------------------------------------------------------------------ interposed functions
#define REAL(ret, name, args, ver) static ret(*real_##name) args; real(real_##name, #name, ver)
extern "C" {
// memory given back by anyone, libraries included, has no history any more
void __libc_free(void *);
void * __libc_realloc(void *, size_t);
void free(void * p) {
    if (p && me) { int e = errno; forget(p, malloc_usable_size(p)); errno = e; }
    __libc_free(p);
}
void * realloc(void * p, size_t n) {
    if (p && me) forget(p, malloc_usable_size(p));
    return __libc_realloc(p, n);
}
int pthread_create(pthread_t * out, const pthread_attr_t * at, void * (*fn)(void *), void * arg) {
    REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void * (*)(void *), void *), nullptr);
    if (!me) return real_pthread_create(out, at, fn, arg);
    In in;
    syncPoint();
    if (W->th.size() >= MAXT) return EAGAIN;
    W->th.emplace_back();
    Thread & t = W->th.back();
    t.id = (int)W->th.size() - 1;
    t.fn = fn;
    t.arg = arg;
    t.vc = me->vc;
    t.vc.c[t.id] = 1;
    ++me->vc.c[me->id];
    t.prio = W->pct ? 1 + W->c->draw(1000) : 0;
    int r = real_pthread_create(&t.pt, at, trampoline, &t);
    if (r) { fprintf(stderr, "sched: cannot create a thread\n"); _exit(98); }
    *out = t.pt;
    syncPoint();
    return 0;
}
static Thread * find(pthread_t p) { for (auto & t : W->th) if (t.id && !t.joined && !t.detached && pthread_equal(t.pt, p)) return &t; return nullptr; }
int pthread_join(pthread_t p, void ** ret) {
    REAL(int, pthread_join, (pthread_t, void **), nullptr);
    if (!me) return real_pthread_join(p, ret);
    In in;
    syncPoint();
    Thread * t = find(p);
    if (!t) return real_pthread_join(p, ret);
    while (t->st != DONE) block(t, "the end of another thread");
    me->vc.join(t->vc);
    t->joined = true;
    return real_pthread_join(p, ret);
}
int pthread_detach(pthread_t p) {
    REAL(int, pthread_detach, (pthread_t), nullptr);
    if (me) if (Thread * t = find(p)) t->detached = true;
    return real_pthread_detach(p);
}
int pthread_mutex_init(pthread_mutex_t * m, const pthread_mutexattr_t * a) {
    REAL(int, pthread_mutex_init, (pthread_mutex_t *, const pthread_mutexattr_t *), nullptr);
    if (me) { In in; W->mx.erase(m); }
    return real_pthread_mutex_init(m, a);
}
int pthread_mutex_destroy(pthread_mutex_t * m) {
    REAL(int, pthread_mutex_destroy, (pthread_mutex_t *), nullptr);
    if (me) { In in; W->mx.erase(m); }
    return real_pthread_mutex_destroy(m);
}
static int kindOf(pthread_mutex_t * m) { return m->__data.__kind & 3; }
static int lockMutex(pthread_mutex_t * m, bool tryOnly, bool timed) {
    while (true) {
        Mutex & x = W->mx[m];
        if (!x.owner) { x.owner = me; x.count = 1; me->vc.join(x.vc); return 0; }
        if (x.owner == me && kindOf(m) == PTHREAD_MUTEX_RECURSIVE) { ++x.count; return 0; }
        if (tryOnly) return EBUSY;
        if (x.owner == me && kindOf(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        block(m, x.owner == me ? "a mutex it holds itself" : "a mutex", timed);
        if (me->timedOut) { me->timedOut = false; return ETIMEDOUT; }
    }
}
static void unlockMutex(pthread_mutex_t * m) {
    Mutex & x = W->mx[m];
    if (x.owner != me) die("a mutex is unlocked by a thread that does not hold it");
    if (--x.count) return;
    x.owner = nullptr;
    x.vc = me->vc;
    ++me->vc.c[me->id];
    wake(m);
}
int pthread_mutex_lock(pthread_mutex_t * m) {
    REAL(int, pthread_mutex_lock, (pthread_mutex_t *), nullptr);
    if (!me) return real_pthread_mutex_lock(m);
    In in;
    syncPoint();
    return lockMutex(m, false, false);
}
int pthread_mutex_trylock(pthread_mutex_t * m) {
    REAL(int, pthread_mutex_trylock, (pthread_mutex_t *), nullptr);
    if (!me) return real_pthread_mutex_trylock(m);
    In in;
    syncPoint();
    return lockMutex(m, true, false);
}
int pthread_mutex_timedlock(pthread_mutex_t * m, const struct timespec * t) {
    REAL(int, pthread_mutex_timedlock, (pthread_mutex_t *, const struct timespec *), nullptr);
    if (!me) return real_pthread_mutex_timedlock(m, t);
    In in;
    syncPoint();
    return lockMutex(m, false, true);
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t k, const struct timespec * t) {
    REAL(int, pthread_mutex_clocklock, (pthread_mutex_t *, clockid_t, const struct timespec *), nullptr);
    if (!me) return real_pthread_mutex_clocklock(m, k, t);
    In in;
    syncPoint();
    return lockMutex(m, false, true);
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
    REAL(int, pthread_mutex_unlock, (pthread_mutex_t *), nullptr);
    if (!me) return real_pthread_mutex_unlock(m);
    In in;
    unlockMutex(m);
    syncPoint();
    return 0;
}
static int condWait(pthread_cond_t * c, pthread_mutex_t * m, bool timed) {
    syncPoint();
    auto & q = W->cond[c];
    bool spurious = W->spurious && W->c->chance(1, 6);
    q.push_back(me);
    me->woken = false;
    unlockMutex(m);
    int r = 0;
    if (spurious) { syncPoint(); if (others()) preempt(); }
    else while (!me->woken) {
        block(&q, "a condition variable", timed);
        if (me->timedOut) { me->timedOut = false; r = ETIMEDOUT; break; }
    }
    auto & q2 = W->cond[c];
    for (size_t i = 0; i < q2.size(); ++i) if (q2[i] == me) { q2.erase(q2.begin() + (long)i); break; }
    lockMutex(m, false, false);
    return me->woken ? 0 : r;
}
int pthread_cond_init(pthread_cond_t * c, const pthread_condattr_t * a) {
    REAL(int, pthread_cond_init, (pthread_cond_t *, const pthread_condattr_t *), "GLIBC_2.3.2");
    if (me) { In in; W->cond.erase(c); }
    return real_pthread_cond_init(c, a);
}
int pthread_cond_destroy(pthread_cond_t * c) {
    REAL(int, pthread_cond_destroy, (pthread_cond_t *), "GLIBC_2.3.2");
    if (me) { In in; W->cond.erase(c); return 0; }
    return real_pthread_cond_destroy(c);
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
    REAL(int, pthread_cond_wait, (pthread_cond_t *, pthread_mutex_t *), "GLIBC_2.3.2");
    if (!me) return real_pthread_cond_wait(c, m);
    In in;
    return condWait(c, m, false);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const struct timespec * t) {
    REAL(int, pthread_cond_timedwait, (pthread_cond_t *, pthread_mutex_t *, const struct timespec *), "GLIBC_2.3.2");
    if (!me) return real_pthread_cond_timedwait(c, m, t);
    In in;
    return condWait(c, m, true);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const struct timespec * t) {
    REAL(int, pthread_cond_clockwait, (pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *), nullptr);
    if (!me) return real_pthread_cond_clockwait(c, m, k, t);
    In in;
    return condWait(c, m, true);
}
int pthread_cond_signal(pthread_cond_t * c) {
    REAL(int, pthread_cond_signal, (pthread_cond_t *), "GLIBC_2.3.2");
    if (!me) return real_pthread_cond_signal(c);
    In in;
    syncPoint();
    auto & q = W->cond[c];
    if (!q.empty()) {
        size_t i = q.size() > 1 ? W->c->draw(q.size() - 1) : 0;
        Thread * t = q[i];
        q.erase(q.begin() + (long)i);
        t->woken = true;
        if (t->st != DONE && (t->st == BLOCKED || t->st == TIMED) && t->on == &q) t->st = RUN;
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
    REAL(int, pthread_cond_broadcast, (pthread_cond_t *), "GLIBC_2.3.2");
    if (!me) return real_pthread_cond_broadcast(c);
    In in;
    syncPoint();
    auto & q = W->cond[c];
    for (Thread * t : q) { t->woken = true; if ((t->st == BLOCKED || t->st == TIMED) && t->on == &q) t->st = RUN; }
    q.clear();
    return 0;
}
// ---- reader-writer locks
int pthread_rwlock_rdlock(pthread_rwlock_t * l) {
    REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t *), nullptr);
    if (!me) return real_pthread_rwlock_rdlock(l);
    In in;
    syncPoint();
    while (W->rw[l].writer) block(l, "a reader-writer lock");
    ++W->rw[l].readers;
    me->vc.join(W->rw[l].vc);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t * l) {
    REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t *), nullptr);
    if (!me) return real_pthread_rwlock_wrlock(l);
    In in;
    syncPoint();
    while (W->rw[l].writer || W->rw[l].readers) block(l, "a reader-writer lock");
    W->rw[l].writer = me;
    me->vc.join(W->rw[l].vc);
    me->vc.join(W->rw[l].rvc);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t * l) {
    REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t *), nullptr);
    if (!me) return real_pthread_rwlock_tryrdlock(l);
    In in;
    syncPoint();
    if (W->rw[l].writer) return EBUSY;
    ++W->rw[l].readers;
    me->vc.join(W->rw[l].vc);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t * l) {
    REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t *), nullptr);
    if (!me) return real_pthread_rwlock_trywrlock(l);
    In in;
    syncPoint();
    if (W->rw[l].writer || W->rw[l].readers) return EBUSY;
    W->rw[l].writer = me;
    me->vc.join(W->rw[l].vc);
    me->vc.join(W->rw[l].rvc);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t * l) {
    REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t *), nullptr);
    if (!me) return real_pthread_rwlock_unlock(l);
    In in;
    Rw & x = W->rw[l];
    if (x.writer == me) { x.writer = nullptr; x.vc = me->vc; }
    else { --x.readers; x.rvc.join(me->vc); }
    ++me->vc.c[me->id];
    wake(l);
    syncPoint();
    return 0;
}
// ---- semaphores
int sem_init(sem_t * s, int sh, unsigned v) {
    REAL(int, sem_init, (sem_t *, int, unsigned), nullptr);
    if (me) { In in; W->sem[s] = (long)v; W->sync.erase(s); }
    return real_sem_init(s, sh, v);
}
int sem_post(sem_t * s) {
    REAL(int, sem_post, (sem_t *), nullptr);
    if (!me || !W->sem.count(s)) return real_sem_post(s);
    In in;
    syncPoint();
    ++W->sem[s];
    release(s);
    wake(s, 1);
    return 0;
}
int sem_wait(sem_t * s) {
    REAL(int, sem_wait, (sem_t *), nullptr);
    if (!me || !W->sem.count(s)) return real_sem_wait(s);
    In in;
    syncPoint();
    while (W->sem[s] <= 0) block(s, "a semaphore");
    --W->sem[s];
    acquire(s);
    return 0;
}
int sem_trywait(sem_t * s) {
    REAL(int, sem_trywait, (sem_t *), nullptr);
    if (!me || !W->sem.count(s)) return real_sem_trywait(s);
    In in;
    syncPoint();
    if (W->sem[s] <= 0) { errno = EAGAIN; return -1; }
    --W->sem[s];
    acquire(s);
    return 0;
}
// ---- one-time initialisation
int pthread_once(pthread_once_t * o, void (*fn)(void)) {
    REAL(int, pthread_once, (pthread_once_t *, void (*)(void)), nullptr);
    if (!me) return real_pthread_once(o, fn);
    In in;
    syncPoint();
    while (true) {
        if (__atomic_load_n((int *)o, __ATOMIC_ACQUIRE) == 2) { acquire(o); return 0; }
        auto it = W->once.find(o);
        if (it == W->once.end()) break;
        block(o, "a one-time initialisation");
    }
    W->once[o] = me;
    try { int was = inside; inside = 0; struct Back { int w; ~Back() { inside = w; } } back{was}; fn(); }
    catch (...) { W->once.erase(o); wake(o); throw; }
    W->once.erase(o);
    __atomic_store_n((int *)o, 2, __ATOMIC_RELEASE);  // as the C library marks it
    release(o);
    wake(o);
    return 0;
}
int __cxa_guard_acquire(uint64_t * g) {
    REAL(int, __cxa_guard_acquire, (uint64_t *), nullptr);
    if (!me) return real___cxa_guard_acquire(g);
    In in;
    syncPoint();
    while (true) {
        if (__atomic_load_n((char *)g, __ATOMIC_ACQUIRE)) { acquire(g); return 0; }
        auto it = W->once.find(g);
        if (it == W->once.end()) break;
        block(g, "the initialisation of a static variable");
    }
    W->once[g] = me;
    return 1;
}
void __cxa_guard_release(uint64_t * g) {
    REAL(void, __cxa_guard_release, (uint64_t *), nullptr);
    if (!me || !W->once.count(g)) return real___cxa_guard_release(g);
    In in;
    W->once.erase(g);
    __atomic_store_n((char *)g, 1, __ATOMIC_RELEASE);
    release(g);
    wake(g);
    syncPoint();
}
void __cxa_guard_abort(uint64_t * g) {
    REAL(void, __cxa_guard_abort, (uint64_t *), nullptr);
    if (!me || !W->once.count(g)) return real___cxa_guard_abort(g);
    In in;
    W->once.erase(g);
    wake(g);
}
// ---- what the C++ library waits with
long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (auto & x : a) x = va_arg(ap, long);
    va_end(ap);
    if (me && !inside && n == SYS_futex) {
        In in;
        int op = (int)a[1] & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            syncPoint();
            if (__atomic_load_n((int *)a[0], __ATOMIC_SEQ_CST) != (int)a[2]) { errno = EAGAIN; return -1; }
            block((void *)a[0], "a future or other atomic", a[3] != 0);
            if (me->timedOut) { me->timedOut = false; errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { int k = wake((void *)a[0], (int)a[2]); syncPoint(); return k; }
    }
    long r = rawSyscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
// ---- giving way
static void giveWay() { ++W->points; me->quiet = 0; if (W->pct) me->prio /= 2; if (others()) { Thread * n = choose(me, true); if (n) switchTo(n); } }
int sched_yield(void) noexcept {
    REAL(int, sched_yield, (void), nullptr);
    if (!me) return real_sched_yield();
    In in;
    giveWay();
    return 0;
}
int nanosleep(const struct timespec * t, struct timespec * r) {
    REAL(int, nanosleep, (const struct timespec *, struct timespec *), nullptr);
    if (!me) return real_nanosleep(t, r);
    In in;
    giveWay();
    return 0;
}
int clock_nanosleep(clockid_t k, int f, const struct timespec * t, struct timespec * r) {
    REAL(int, clock_nanosleep, (clockid_t, int, const struct timespec *, struct timespec *), nullptr);
    if (!me) return real_clock_nanosleep(k, f, t, r);
    In in;
    giveWay();
    return 0;
}
int usleep(useconds_t u) {
    REAL(int, usleep, (useconds_t), nullptr);
    if (!me) return real_usleep(u);
    In in;
    giveWay();
    return 0;
}
unsigned sleep(unsigned u) {
    REAL(unsigned, sleep, (unsigned), nullptr);
    if (!me) return real_sleep(u);
    In in;
    giveWay();
    return 0;
}

// ------------------------------------------------------------------ what -fsanitize=thread calls
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void * p) { access(p, N, false, false, PC); } \
    void __tsan_write##N(void * p) { access(p, N, true, false, PC); } \
    void __tsan_unaligned_read##N(void * p) { access(p, N, false, false, PC); } \
    void __tsan_unaligned_write##N(void * p) { access(p, N, true, false, PC); } \
    void __tsan_volatile_read##N(void * p) { access(p, N, false, false, PC); } \
    void __tsan_volatile_write##N(void * p) { access(p, N, true, false, PC); } \
    void __tsan_unaligned_volatile_read##N(void * p) { access(p, N, false, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void * p) { access(p, N, true, false, PC); } \
    void __tsan_read_write##N(void * p) { access(p, N, false, false, PC); access(p, N, true, false, PC); } \
    void __tsan_unaligned_read_write##N(void * p) { access(p, N, false, false, PC); access(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, size_t n) { if (n) access(p, n, false, false, PC); }
void __tsan_write_range(void * p, size_t n) { if (n) access(p, n, true, false, PC); }
void __tsan_vptr_read(void ** p) { access(p, 8, false, false, PC); }
void __tsan_vptr_update(void ** p, void * v) { if (*p != v) access(p, 8, true, false, PC); }
void * __tsan_memcpy(void * d, const void * s, size_t n) { if (n) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return memcpy(d, s, n); }
void * __tsan_memmove(void * d, const void * s, size_t n) { if (n) { access(s, n, false, false, PC); access(d, n, true, false, PC); } return memmove(d, s, n); }
void * __tsan_memset(void * d, int v, size_t n) { if (n) access(d, n, true, false, PC); return memset(d, v, n); }

// memory orders as in C11: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
// (a relaxed load is taken for an acquire load: reading a counter and then relying on it is not reported, see interleave.h)
static void loadSync(const void * p, int) { if (me && W && !inside) { In in; acquire(p); } }
static void storeSync(const void * p, int o) {
    if (!me || !W || inside) return;
    In in;
    if (o >= 3) { W->sync[p] = me->vc; ++me->vc.c[me->id]; }
    else if (me->hasFence) W->sync[p] = me->fence;
    else W->sync.erase(p);
}
static void rmwSync(const void * p, int o) {
    if (!me || !W || inside) return;
    In in;
    if (o == 1 || o == 2 || o >= 4) acquire(p);
    if (o >= 3) release(p);
    else if (me->hasFence) W->sync[p].join(me->fence);
}
#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T * a, int o) { access((const void *)a, sizeof(T), false, true, PC); T v = __atomic_load_n(a, __ATOMIC_SEQ_CST); loadSync((const void *)a, o); return v; } \
    void __tsan_atomic##B##_store(volatile T * a, T v, int o) { access((const void *)a, sizeof(T), true, true, PC); storeSync((const void *)a, o); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_exchange(volatile T * a, T v, int o) { access((const void *)a, sizeof(T), true, true, PC); rmwSync((const void *)a, o); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_add(volatile T * a, T v, int o) { access((const void *)a, sizeof(T), true, true, PC); rmwSync((const void *)a, o); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_sub(volatile T * a, T v, int o) { access((const void *)a, sizeof(T), true, true, PC); rmwSync((const void *)a, o); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_and(volatile T * a, T v, int o) { access((const void *)a, sizeof(T), true, true, PC); rmwSync((const void *)a, o); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_or(volatile T * a, T v, int o) { access((const void *)a, sizeof(T), true, true, PC); rmwSync((const void *)a, o); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_xor(volatile T * a, T v, int o) { access((const void *)a, sizeof(T), true, true, PC); rmwSync((const void *)a, o); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##B##_fetch_nand(volatile T * a, T v, int o) { access((const void *)a, sizeof(T), true, true, PC); rmwSync((const void *)a, o); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T * a, T * c, T v, int o, int f) { \
        access((const void *)a, sizeof(T), true, true, PC); \
        T old = *c; \
        bool r = __atomic_compare_exchange_n(a, &old, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
        if (r) rmwSync((const void *)a, o); else { loadSync((const void *)a, f); *c = old; } \
        return r; \
    } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T * a, T * c, T v, int o, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, o, f); } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T * a, T c, T v, int o, int f) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, o, f); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {
    if (!me || !W || inside) return;
    In in;
    tick(true);
    // an acquire fence is taken to order after everything released so far (this can only hide a race)
    if (o != 3 && o != 0) for (auto & s : W->sync) me->vc.join(s.second);
    if (o >= 3) { me->fence = me->vc; me->hasFence = true; ++me->vc.c[me->id]; }
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

// ------------------------------------------------------------------ sessions
namespace sched {
Session::Session(pbt::Case & c, bool races) {
    static bool once = [] {
        cpu_set_t s;
        CPU_ZERO(&s);
        int w = pbt::workerIndex();
        if (w >= 0) {  // one worker per CPU: a switch between its threads is then cheap
            cpu_set_t have;
            if (sched_getaffinity(0, sizeof have, &have) == 0) {
                int n = CPU_COUNT(&have), k = n ? w % n : 0;
                for (int i = 0; i < CPU_SETSIZE; ++i) if (CPU_ISSET(i, &have) && k-- == 0) CPU_SET(i, &s);
                sched_setaffinity(0, sizeof s, &s);
            }
        }
        cells = new Cell[CELLS];
        pthread_key_create(&endKey, threadEnds);
        return true;
    }();
    (void)once;
    ++gen;
    W = new World;
    W->races = races;
    W->c = &c;
    W->th.emplace_back();
    Thread & t = W->th.back();
    stackOf(t);
    t.vc.c[0] = 1;
    // the strategy
    switch (c.weighted({1, 3, 2, 2})) {
    case 0: break;
    case 1: W->left = 1 + (int)c.draw(5); break;
    case 2: { static const int den[] = {8, 4, 2, 16, 32}; W->syncDen = den[c.draw(4)]; if (c.chance(1, 2)) W->left = 1 + (int)c.draw(7); break; }
    default: W->pct = true; W->left = (int)c.draw(5); t.prio = 1 + c.draw(1000); break;
    }
    W->spurious = c.chance(1, 4);
    newCountdown();
    me = &t;
}
void Session::finish() {
    if (!W || !me) return;
    In in;
    while (true) {
        Thread * live = nullptr;
        for (auto & t : W->th) if (t.id && t.st != DONE) live = &t;
        if (!live) break;
        block(live, "the end of another thread");
    }
    if (!W->bad.empty()) { std::string r = W->bad; W->bad.clear(); W->c->fail(r); }
    if (!W->race.empty()) { std::string r = W->race; W->race.clear(); W->c->fail(r); }
}
Session::~Session() {
    if (me) {
        In in;
        bool live = true;
        while (live) { live = false; for (auto & t : W->th) if (t.id && t.st != DONE) { live = true; block(&t, "the end of another thread"); break; } }
    }
    me = nullptr;
    delete W;
    W = nullptr;
}
void event(int kind, int64_t a, int64_t b) { In in; if (W) W->ev.push_back({me ? me->id : -1, kind, a, b}); }
const std::vector<Event> & events() { static const std::vector<Event> none; return W ? W->ev : none; }
void bad(const std::string & m) { In in; if (W && W->bad.empty()) W->bad = m; }
int self() { return me ? me->id : -1; }
void yield() { if (me && W) { In in; syncPoint(); } }
uint64_t switches() { return W ? W->switches : 0; }
uint64_t points() { return W ? W->points : 0; }
}  // namespace sched
