#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fcntl.h>
#include <poll.h>
#include <new>
#include <fstream>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <malloc.h>
#include <unistd.h>
#include <unordered_set>
#include <ctime>

// ------------------------------------------------------------------ allocation balance
static std::atomic<int64_t> g_live{0};
static thread_local pbt::Cost g_cost;
namespace pbt { std::atomic<int64_t> held{0}, heldPeak{0}; }
#ifdef PBT_COST  // the tested code calls this on every edge of its control flow
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_trace_pc() { ++g_cost.edges; }
#endif
#ifndef PBT_NO_NEW
void * operator new(std::size_t n) {
    void * p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    g_live.fetch_add(1, std::memory_order_relaxed);
#ifdef PBT_COST
    g_cost.bytes += n;
    const int64_t now = pbt::held.fetch_add((int64_t)malloc_usable_size(p), std::memory_order_relaxed) + (int64_t)malloc_usable_size(p);
    if (now > pbt::heldPeak.load(std::memory_order_relaxed)) pbt::heldPeak.store(now, std::memory_order_relaxed);
#endif
    std::memset(p, 0xC5, n < 32768 ? n : 32768);  // a value that depends on memory never written is wrong, and the same on every run
    return p;
}
void * operator new[](std::size_t n) { return ::operator new(n); }
void operator delete(void * p) noexcept {
    if (!p) return;
    g_live.fetch_sub(1, std::memory_order_relaxed);
    size_t n = malloc_usable_size(p);
#ifdef PBT_COST
    pbt::held.fetch_sub((int64_t)n, std::memory_order_relaxed);
#endif
    std::memset(p, 0xD7, n < 4096 ? n : 4096);  // and so is one that depends on memory given back
    std::free(p);
}
void operator delete[](void * p) noexcept { ::operator delete(p); }
void operator delete(void * p, std::size_t) noexcept { ::operator delete(p); }
void operator delete[](void * p, std::size_t) noexcept { ::operator delete(p); }
#endif

#ifdef PBT_WRAP_MALLOC  // calls of malloc/free in the tested code itself
extern "C" {
void * __real_malloc(size_t);
void __real_free(void *);
void * __wrap_malloc(size_t n) { void * p = __real_malloc(n); if (p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
void __wrap_free(void * p) { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); __real_free(p); }
void * __real_calloc(size_t, size_t);
void * __real_realloc(void *, size_t);
void * __wrap_calloc(size_t n, size_t m) { void * p = __real_calloc(n, m); if (p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
void * __wrap_realloc(void * q, size_t n) { void * p = __real_realloc(q, n); if (!q && p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
}
#endif

// ------------------------------------------------------------------ coverage counters of the tested code
static std::vector<std::pair<uint8_t *, uint8_t *>> & covRegions() {
    static std::vector<std::pair<uint8_t *, uint8_t *>> v;
    return v;
}
extern "C" __attribute__((visibility("default"))) void __sanitizer_cov_8bit_counters_init(uint8_t * b, uint8_t * e) {
    if (b == e) return;
    for (auto & r : covRegions()) if (r.first == b) return;
    covRegions().push_back({b, e});
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t *, const uintptr_t *) {}

namespace pbt {

Cost & cost() { return g_cost; }
int64_t liveAllocations() { return g_live.load(std::memory_order_relaxed); }

std::vector<Prop> & registry() { static std::vector<Prop> r; return r; }

static bool g_thorough = false;
bool Case::thorough() const { return g_thorough; }

// ------------------------------------------------------------------ Case
uint64_t Case::draw(uint64_t maxIncl) {
    uint64_t v;
    if (pos < nPrefix) {
        v = prefix[pos];
        if (v > maxIncl) v = v % (maxIncl + 1);
    } else if (replayOnly) {
        v = 0;
    } else {
        uint64_t r = rng.next();
        if (maxIncl == ~0ULL) v = r;
        else v = (uint64_t)(((unsigned __int128)r * (maxIncl + 1)) >> 64);
    }
    if (pos < MAX_CHOICES) {
        sh->choices[pos] = v;
        sh->nChoices = pos + 1;
    } else v = 0;
    ++pos;
    return v;
}

size_t Case::weighted(std::initializer_list<int> w) {
    uint64_t tot = 0;
    for (int x : w) tot += x;
    uint64_t d = draw(tot - 1);
    size_t i = 0;
    for (int x : w) {
        if (d < (uint64_t)x) return i;
        d -= x;
        ++i;
    }
    return 0;
}

static std::string g_notesFile;  // notes are written at once, so that they are there when the case dies
void Case::note(const std::string & s) {
    if (!verbose) return;
    if (notes.size() < 20000) {
        std::string t = (s.size() > 3000 ? s.substr(0, 3000) + "..." : s) + "\n";
        notes += t;
        if (!g_notesFile.empty()) {
            int fd = open(g_notesFile.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
            if (fd >= 0) { (void)!write(fd, t.data(), t.size()); close(fd); }
        }
    }
}

static int g_worker = -1;
int workerIndex() { return g_worker; }

// the case has failed and cannot be unwound
void failNow(Case & c, const std::string & msg) {
    std::strncpy(c.sh->msg, msg.c_str(), MSG - 1);
    c.sh->failedFlag = 1;
    _exit(3);
}

void Case::label(const char * name) {
    for (size_t i = 0; i < MAX_LABELS; ++i) {
        if (sh->labelName[i][0] == 0) std::strncpy(sh->labelName[i], name, sizeof(sh->labelName[i]) - 1);
        if (std::strncmp(sh->labelName[i], name, sizeof(sh->labelName[i]) - 1) == 0) {
            if (!(labelMask_ >> i & 1)) { labelMask_ |= 1ULL << i; sh->labelCount[i] = sh->labelCount[i] + 1; }
            return;
        }
    }
}

void Case::stage(const char * s) { std::strncpy(sh->stage, s, sizeof(sh->stage) - 1); }

void Case::key(const std::string & s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char ch : s) h = (h ^ ch) * 1099511628211ULL;
    key(h);
}

uint64_t Case::hash() const {
    if (keyed_) return key_;
    uint64_t h = 7;
    for (size_t i = 0; i < std::min(pos, MAX_CHOICES); ++i) h = mix64(h ^ sh->choices[i]);
    return h;
}

std::string hex(const void * p, size_t n) {
    static const char * d = "0123456789abcdef";
    std::string s;
    const unsigned char * b = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    return s;
}

std::string quote(const std::string & s) {
    std::string r = "\"";
    char buf[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { std::snprintf(buf, sizeof buf, "\\u%04x", ch); r += buf; }
        else r += (char)ch;
    }
    return r + "\"";
}

ChildResult inChild(const std::function<void()> & fn, int cpuSeconds) {
    int p[2];
    if (pipe(p)) { perror("pipe"); _exit(97); }
    pid_t pid = fork();
    if (pid == 0) {
        close(p[0]);
        dup2(p[1], 2);
        struct rlimit rl { (rlim_t)cpuSeconds, (rlim_t)cpuSeconds + 1 };
        setrlimit(RLIMIT_CPU, &rl);
        fn();
        fflush(stderr);
        _exit(0);
    }
    close(p[1]);
    ChildResult r{};
    char buf[4096];
    int st = 0;
    int64_t cpu = -2;
    double idle = 0;
    struct pollfd pf { p[0], POLLIN, 0 };
    bool open = true;
    while (true) {  // the polling keeps this process visibly alive; a child that uses no CPU for 15 s is blocked for good
        if (open) {
            int k = poll(&pf, 1, 5);
            if (k > 0) {
                ssize_t n = read(p[0], buf, sizeof buf);
                if (n > 0) { if (r.err.size() < 65536) r.err.append(buf, n); continue; }
                if (n == 0) open = false;
            }
        } else {
            struct timespec ts { 0, 300000 };
            nanosleep(&ts, nullptr);
        }
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) {
            ssize_t n;
            fcntl(p[0], F_SETFL, O_NONBLOCK);
            while ((n = read(p[0], buf, sizeof buf)) > 0) if (r.err.size() < 65536) r.err.append(buf, n);
            break;
        }
        clockid_t ck;
        struct timespec t;
        int64_t now = clock_getcpuclockid(pid, &ck) || clock_gettime(ck, &t) ? -1 : t.tv_sec * 1000000000LL + t.tv_nsec;
        if (now != cpu) idle = 0;
        else idle += open ? 0.005 : 0.0003;
        cpu = now;
        if (idle > 15) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.blocked = true; break; }
    }
    close(p[0]);
    r.exited = WIFEXITED(st);
    r.code = r.exited ? WEXITSTATUS(st) : -1;
    r.sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    return r;
}

// ------------------------------------------------------------------ running
namespace {

std::string g_tmp;
double g_cpu = 20;
bool g_crashOnly = false;  // only a death by signal counts (sanitizer reports, faults); oracle failures, exits and hangs are other properties' business
bool g_leak = false;       // a case must give back every block it took from the heap

// CPU time of another process in nanoseconds, -1 if unknown
int64_t cpuOf(pid_t pid) {
    clockid_t ck;
    struct timespec t;
    if (clock_getcpuclockid(pid, &ck) || clock_gettime(ck, &t)) return -1;
    return t.tv_sec * 1000000000LL + t.tv_nsec;
}
double monotonic() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}
// seconds during which a process has used no CPU at all (a pause of this sandbox counts for at most 50 ms)
struct Idle {
    int64_t cpu = -2;
    double last = 0, idle = 0;
    double poll(pid_t pid) {
        int64_t c = cpuOf(pid);
        double t = monotonic();
        if (c != cpu || last == 0) idle = 0;
        else idle += std::min(t - last, 0.05);
        cpu = c;
        last = t;
        return idle;
    }
};

Shared * newShared() {
    void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared *)p;
}

void armCpu(double s) {
    struct itimerval it {};
    it.it_value.tv_sec = (time_t)s;
    it.it_value.tv_usec = (suseconds_t)((s - std::floor(s)) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

void childLimits(bool captureErr, const std::string & errFile) {
    struct rlimit rl { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
#ifndef PBT_ASAN
    rl.rlim_cur = rl.rlim_max = 6ULL << 30;
    setrlimit(RLIMIT_AS, &rl);
#endif
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0);
    dup2(n, 1);
    if (captureErr) {
        int e = open(errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
        dup2(e, 2);
        close(e);
    } else dup2(n, 2);
    close(n);
}

// runs one case in this process; returns false and fills sh->msg if the oracle failed
bool runHere(const Prop & p, Case & c) {
    Shared * sh = c.sh;
    sh->nChoices = 0;
    sh->failedFlag = 0;
    sh->stage[0] = 0;
    sh->inCase = 1;
    armCpu(g_cpu);
    bool ok = true;
    std::string msg;
    try {
        p.fn(c);
        if (g_leak) {  // the same case again, twice: what is kept for good (tables, caches) is allocated only once
            std::vector<uint64_t> ch(sh->choices, sh->choices + std::min((size_t)sh->nChoices, MAX_CHOICES));
            int64_t lost = 0, least = INT64_MAX;
            for (int k = 0; k < 3; ++k) {
                int64_t before = liveAllocations();
                {
                    Case r;
                    r.sh = sh;
                    r.prefix = ch.data();
                    r.nPrefix = ch.size();
                    r.replayOnly = true;
                    p.fn(r);
                }
                lost = liveAllocations() - before;
                least = std::min(least, lost);
                if (lost <= 0) break;
            }
            if (least > 0) throw Failure{std::to_string(least) + " heap blocks taken during the case were not given back"};
        }
    } catch (const Failure & f) {
        ok = false;
        msg = f.msg;
    } catch (const std::exception & e) {
        ok = false;
        msg = std::string("unexpected C++ exception: ") + e.what();
    }
    armCpu(0);
    if (!ok && g_crashOnly) ok = true;
    if (!ok && g_leak && msg.find("heap blocks") == std::string::npos) ok = true;
    if (!ok) {
        std::strncpy(sh->msg, msg.c_str(), MSG - 1);
        sh->failedFlag = 1;
    }
    sh->inCase = 0;
    return ok;
}

struct Outcome {
    bool failed = false;
    std::string kind;  // oracle, signal N, exit N, hang
    std::string msg, notes, err;
    std::vector<uint64_t> used;
};

// runs the case given by exactly these choices in a fresh child
Outcome runIsolated(const Prop & p, const std::vector<uint64_t> & ch, bool verbose, double cpu, Shared * sh) {
    std::memset((void *)sh, 0, offsetof(Shared, choices));
    std::string notesFile = g_tmp + "/iso.notes", errFile = g_tmp + "/iso.err";
    if (verbose) unlink(notesFile.c_str());
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        childLimits(true, errFile);
        g_cpu = cpu;
        if (p.perProcess) p.perProcess();
        Case c;
        c.sh = sh;
        c.prefix = ch.data();
        c.nPrefix = ch.size();
        c.replayOnly = true;
        c.verbose = verbose;
        if (verbose) g_notesFile = notesFile;
        bool ok = runHere(p, c);
        sh->finished = 1;
        _exit(ok ? 0 : 3);
    }
    int st = 0;
    double waited = 0;
    bool stuck = false;
    struct timespec ts { 0, 200000 };
    Idle idle;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (idle.poll(pid) > 15) { kill(pid, SIGKILL); waitpid(pid, &st, 0); stuck = true; break; }
        nanosleep(&ts, nullptr);
        waited += ts.tv_nsec / 1e9;
        if (ts.tv_nsec < 5000000) ts.tv_nsec *= 2;
        if (waited > cpu * 6 + 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); stuck = true; break; }
    }
    Outcome o;
    o.used.assign(sh->choices, sh->choices + std::min((size_t)sh->nChoices, MAX_CHOICES));
    if (stuck) { o.failed = true; o.kind = "hang"; o.msg = "no progress (blocked) while: " + std::string(sh->stage); }
    else if (WIFSIGNALED(st)) {
        o.failed = true;
        int s = WTERMSIG(st);
        if (s == SIGPROF) { o.kind = "hang"; o.msg = "did not finish within " + std::to_string(cpu) + " s of CPU time, while: " + sh->stage; }
        else { o.kind = "signal " + std::to_string(s); o.msg = std::string("died with signal ") + std::to_string(s) + " (" + strsignal(s) + "), while: " + sh->stage; }
    } else if (sh->failedFlag) { o.failed = true; o.kind = "oracle"; o.msg = sh->msg; }
    else if (!sh->finished) {
        o.failed = true;
        o.kind = "exit " + std::to_string(WEXITSTATUS(st));
        o.msg = "the process exited with status " + std::to_string(WEXITSTATUS(st)) + ", while: " + sh->stage;
    }
    if (g_crashOnly && o.kind.compare(0, 6, "signal") != 0) o.failed = false;
    if (g_leak && o.kind != "oracle") o.failed = false;
    if (o.failed) {
        std::ifstream f(errFile);
        std::stringstream ss;
        ss << f.rdbuf();
        o.err = ss.str();
        if (o.err.size() > 3000) o.err = o.err.substr(0, 1500) + "\n...\n" + o.err.substr(o.err.size() - 1400);
    }
    if (verbose) {
        std::ifstream f(notesFile);
        std::stringstream ss;
        ss << f.rdbuf();
        o.notes = ss.str();
    }
    return o;
}

uint64_t seedOf(uint64_t seed, const char * id, uint64_t idx) {
    uint64_t h = mix64(seed ^ 0x5851f42d4c957f2dULL);
    for (const char * q = id; *q; ++q) h = mix64(h ^ (unsigned char)*q);
    return mix64(h ^ mix64(idx));
}

struct Corpus {
    std::vector<std::vector<uint64_t>> items, heavy;  // heavy: of expensive cases
    const std::vector<uint64_t> & pick(Rng & r) const {
        const auto & l = items.empty() || (!heavy.empty() && r.next() % 40 == 0) ? heavy : items;
        return l[r.next() % l.size()];
    }
    std::vector<uint8_t> seen;
    size_t total = 0;
    void init() {
        total = 0;
        for (auto & r : covRegions()) total += r.second - r.first;
        seen.assign(total, 0);
    }
    void reset() { for (auto & r : covRegions()) std::memset(r.first, 0, r.second - r.first); }
    bool collect() {
        bool fresh = false;
        size_t base = 0;
        for (auto & r : covRegions()) {
            size_t n = r.second - r.first;
            const uint8_t * b = r.first;
            for (size_t i = 0; i < n; ++i) {
                if (!(i & 7)) {
                    while (i + 8 <= n) {
                        uint64_t w;
                        std::memcpy(&w, b + i, 8);
                        if (w) break;
                        i += 8;
                    }
                    if (i >= n) break;
                }
                uint8_t v = b[i];
                if (!v) continue;
                uint8_t bit = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
                if (!(seen[base + i] & bit)) { seen[base + i] |= bit; fresh = true; }
            }
            base += n;
        }
        return fresh;
    }
    size_t edges() const { size_t k = 0; for (auto v : seen) k += v != 0; return k; }
};

// The stream of cases of worker w is a pure function of (seed, property, w, W). only >= 0: stop after that index.
void workerLoop(const Prop & p, uint64_t seed, unsigned w, unsigned W, uint64_t total, uint64_t start, Shared * sh,
                const std::string & hashFile, const std::string & sampleFile, int64_t only) {
    Corpus corp;
    corp.init();
    bool guided = p.guided && corp.total > 0;
    FILE * hf = hashFile.empty() ? nullptr : fopen(hashFile.c_str(), "ab");
    int samples = 0;
    std::vector<uint64_t> pre;
    for (uint64_t i = w; i < total; i += W) {
        Rng r(seedOf(seed, p.id, i));
        pre.clear();
        if (guided && corp.items.size() + corp.heavy.size() && r.next() % 100 < 40) {
            const auto & a = corp.pick(r);
            pre = a;
            switch (r.next() % 4) {
            case 0: pre.resize(pre.empty() ? 0 : r.next() % pre.size()); break;                  // keep a prefix
            case 1: case 2: {                                                                    // edit some choices
                size_t k = 1 + r.next() % 4;
                for (size_t j = 0; j < k && !pre.empty(); ++j) {
                    auto & v = pre[r.next() % pre.size()];
                    switch (r.next() % 4) {
                    case 0: v = r.next(); break;
                    case 1: v += 1; break;
                    case 2: v -= v ? 1 : 0; break;
                    default: v ^= 1ULL << (r.next() % 64); break;
                    }
                }
                break;
            }
            default: {                                                                           // splice
                const auto & b = corp.pick(r);
                pre.resize(pre.empty() ? 0 : r.next() % pre.size());
                if (!b.empty()) { size_t k = r.next() % b.size(); pre.insert(pre.end(), b.begin() + k, b.end()); }
                break;
            }
            }
        }
        if (i < start) {  // already done by an earlier incarnation of this worker
            continue;
        }
        sh->caseIndex = i;
        Case c;
        c.sh = sh;
        c.prefix = pre.data();
        c.nPrefix = pre.size();
        c.rng = Rng(r.next());
        if (guided) corp.reset();
        bool ok = runHere(p, c);
        if (!ok) { if (hf) fclose(hf); _exit(3); }
        if (guided && !c.massive_ && corp.collect()) {
            sh->newCover = sh->newCover + 1;
            auto & l = c.heavy_ ? corp.heavy : corp.items;
            if (l.size() < 4096 && c.pos < 4096)
                l.emplace_back(sh->choices, sh->choices + std::min(c.pos, MAX_CHOICES));
        }
        sh->casesDone = sh->casesDone + 1;
        if (c.nontriv_) {
            sh->nontrivial = sh->nontrivial + 1;
            uint64_t h = c.hash();
            if (hf) fwrite(&h, 8, 1, hf);
            uint64_t k = sh->nontrivial;
            if (!sampleFile.empty() && samples < 3 && (k == 2 || k == 20 || k == 60) && c.pos < 4000) {
                std::ofstream f(sampleFile + "." + std::to_string(samples++));
                for (size_t j = 0; j < c.pos; ++j) f << sh->choices[j] << " ";
            }
        }
        if (only >= 0 && (uint64_t)only == i) break;
    }
    if (hf) fclose(hf);
    FILE * ef = sampleFile.empty() ? nullptr : fopen((sampleFile + ".edges").c_str(), "w");
    if (ef) { fprintf(ef, "%zu %zu\n", corp.edges(), corp.total); fclose(ef); }
    sh->finished = 1;
    _exit(0);
}

std::vector<uint64_t> readChoices(const std::string & f) {
    std::ifstream in(f);
    std::vector<uint64_t> v;
    uint64_t x;
    while (in >> x) v.push_back(x);
    return v;
}

struct Shrinker {
    const Prop & p;
    Shared * sh;
    double cpu;
    int budget;
    time_t deadline;
    std::vector<uint64_t> best;
    Outcome out;
    int runs = 0;

    bool more() const { return runs < budget && time(nullptr) < deadline; }
    bool attempt(const std::vector<uint64_t> & cand) {
        if (!more()) return false;
        ++runs;
        Outcome o = runIsolated(p, cand, false, cpu, sh);
        if (!o.failed) return false;
        if (o.kind == "hang" && out.kind != "hang") return false;  // do not drift into a different, slower failure
        std::vector<uint64_t> u = o.used.size() <= cand.size() ? o.used : cand;
        while (!u.empty() && u.back() == 0) u.pop_back();
        bool better = u.size() < best.size() || (u.size() == best.size() && u < best);
        if (!better) return false;
        best = u;
        out = o;
        return true;
    }
    void run() {
        bool improved = true;
        while (improved && more()) {
            improved = false;
            for (size_t len : {4096u, 512u, 64u, 32u, 16u, 8u, 6u, 4u, 3u, 2u, 1u}) {
                if (len > best.size()) continue;
                for (size_t i = best.size(); i-- > 0 && more();) {
                    if (i + len > best.size()) continue;
                    auto c = best;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (attempt(c)) { improved = true; if (i > best.size()) i = best.size(); }
                    if (len > 8 && i >= len / 2) i -= len / 2 - 1;
                }
            }
            for (size_t i = 0; i < best.size() && more(); ++i) {
                if (best[i] == 0) continue;
                auto c = best;
                c[i] = 0;
                if (attempt(c)) { improved = true; continue; }
                uint64_t lo = 0, hi = best[i];  // smallest failing value by bisection (assuming monotone; verified anyway)
                while (hi - lo > 1 && more()) {
                    uint64_t mid = lo + (hi - lo) / 2;
                    c = best;
                    if (i >= c.size()) break;
                    c[i] = mid;
                    if (attempt(c)) { improved = true; hi = mid; if (i >= best.size() || best[i] != mid) break; }
                    else lo = mid;
                }
            }
        }
    }
};

std::string modeLine() { return g_crashOnly ? "\nmode crash-only" : g_leak ? "\nmode leak" : ""; }

std::string escLine(std::string s) {
    for (auto & ch : s) if (ch == '\n' || ch == '\r') ch = ' ';
    return s;
}

}  // namespace
}  // namespace pbt

using namespace pbt;

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec / 1e9;
}

namespace pbt { int (*insteadOfMain)() = nullptr; }  // set by a harness that runs itself again

int main(int argc, char ** argv) {
    if (pbt::insteadOfMain) return pbt::insteadOfMain();
    std::string prop, tier = "quick", outFile, replay, replayOut;
    uint64_t seed = 1, casesOverride = 0;
    unsigned W = 8;
    double scale = 1;
    bool noShrink = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") prop = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = std::stoull(val());
        else if (a == "--out") outFile = val();
        else if (a == "--tmp") g_tmp = val();
        else if (a == "--replay") replay = val();
        else if (a == "--replay-out") replayOut = val();
        else if (a == "--workers") W = std::stoul(val());
        else if (a == "--cases") casesOverride = std::stoull(val());
        else if (a == "--scale") scale = std::stod(val());
        else if (a == "--no-shrink") noShrink = true;
        else if (a == "--crash-only") g_crashOnly = true;
        else if (a == "--leak") g_leak = true;
        else if (a == "--list") { for (auto & p : registry()) printf("%s\n", p.id); return 0; }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    if (g_tmp.empty()) {
        char t[] = "/tmp/pbt.XXXXXX";
        g_tmp = mkdtemp(t);
    }
    g_thorough = tier == "thorough";
    const Prop * P = nullptr;

    // ---- replay
    std::string kind = "choices";
    std::vector<uint64_t> choices;
    uint64_t sSeed = 0, sIdx = 0;
    unsigned sw = 0, sW = 1;
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            std::string k;
            is >> k;
            if (k == "property") is >> prop;
            else if (k == "kind") is >> kind;
            else if (k == "mode") { std::string m; is >> m; g_crashOnly = m == "crash-only"; g_leak = m == "leak"; }
            else if (k == "tier") { std::string t; is >> t; g_thorough = t == "thorough"; }
            else if (k == "stream") is >> sSeed >> sw >> sW >> sIdx;
            else if (k == "choices") { uint64_t v; while (is >> v) choices.push_back(v); }
        }
    }
    for (auto & p : registry()) if (prop == p.id) P = &p;
    if (!P) { fprintf(stderr, "no property %s in this harness\n", prop.c_str()); return 2; }
    Shared * iso = newShared();
    auto runStream = [&](uint64_t sd, unsigned w, unsigned Wn, uint64_t idx) {
        std::memset((void *)iso, 0, offsetof(Shared, choices));
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            childLimits(false, "");
            g_cpu = P->cpuLimit;
            if (P->perProcess) P->perProcess();
            workerLoop(*P, sd, w, Wn, idx + 1, 0, iso, "", "", (int64_t)idx);
        }
        int st;
        waitpid(pid, &st, 0);
        bool bad = !(WIFEXITED(st) && iso->finished && WEXITSTATUS(st) == 0);
        return bad && iso->caseIndex == idx;
    };
    if (!replay.empty()) {
        if (kind == "stream") {
            bool bad = runStream(sSeed, sw, sW, sIdx);
            printf("%s\n", bad ? "FAIL (stream)" : "PASS");
            return bad ? 1 : 0;
        }
        Outcome o = runIsolated(*P, choices, true, P->cpuLimit, iso);
        printf("%s\n", o.notes.c_str());
        if (o.failed) printf("FAIL [%s] %s\n%s\n", o.kind.c_str(), o.msg.c_str(), o.err.c_str());
        else printf("PASS\n");
        return o.failed ? 1 : 0;
    }

    // ---- search
    double t0 = now();
    uint64_t total = casesOverride ? casesOverride : (uint64_t)((g_thorough ? P->thoroughCases : P->quickCases) * scale);
    if (total < W) W = total ? (unsigned)total : 1;
    std::vector<Shared *> sh(W);
    std::vector<pid_t> pid(W, -1);
    std::vector<uint64_t> lastDone(W, 0);
    std::vector<double> lastProgress(W, now());
    std::vector<Idle> idles(W);
    auto spawn = [&](unsigned w, uint64_t start) {
        sh[w]->finished = 0;
        sh[w]->failedFlag = 0;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            childLimits(false, "");
            g_cpu = P->cpuLimit;
            g_worker = (int)w;
            if (P->perProcess) P->perProcess();
            workerLoop(*P, seed, w, W, total, start, sh[w], g_tmp + "/hash." + std::to_string(w), g_tmp + "/sample." + std::to_string(w), -1);
        }
        pid[w] = p;
        lastProgress[w] = now();
        idles[w] = Idle{};
    };
    for (unsigned w = 0; w < W; ++w) { sh[w] = newShared(); spawn(w, 0); }
    bool found = false;
    int flaky = 0, other = 0;
    std::string flakyMsg;
    std::string failKind, failMsg, failErr, failNotes;
    int shrinkRuns = 0;
    unsigned live = W;
    auto killAll = [&] {
        for (unsigned w = 0; w < W; ++w) if (pid[w] > 0) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); pid[w] = -1; }
    };
    while (live > 0 && !found) {
        bool any = false;
        for (unsigned w = 0; w < W && !found; ++w) {
            if (pid[w] <= 0) continue;
            int st;
            pid_t r = waitpid(pid[w], &st, WNOHANG);
            bool stuck = false;
            if (r == 0) {
                if (sh[w]->casesDone != lastDone[w]) { lastDone[w] = sh[w]->casesDone; lastProgress[w] = now(); idles[w] = Idle{}; continue; }
                else if (idles[w].poll(pid[w]) > 25 || now() - lastProgress[w] > P->cpuLimit * 6 + 120) {
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &st, 0);
                    stuck = true;
                } else continue;
            }
            any = true;
            pid[w] = -1;
            if (!stuck && WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->finished) { --live; continue; }
            // the case failed its oracle, or the worker died in it
            std::vector<uint64_t> ch(sh[w]->choices, sh[w]->choices + std::min((size_t)sh[w]->nChoices, MAX_CHOICES));
            uint64_t idx = sh[w]->caseIndex;
            std::string wmsg = sh[w]->failedFlag ? std::string(sh[w]->msg) : "worker died (waitpid " + std::to_string(r) + " status " + std::to_string(st) + " errno " + std::to_string(errno) + ") while: " + sh[w]->stage;
            bool signalled = !stuck && WIFSIGNALED(st) && WTERMSIG(st) != SIGPROF;
            if ((g_crashOnly && !signalled) || (g_leak && !sh[w]->failedFlag)) {  // not what this mode looks for
                ++other;
                if (idx + W < total && other < 24) spawn(w, idx + W);
                else --live;
                continue;
            }
            bool rep = true;
            Outcome o;
            for (int k = 0; k < 3 && rep; ++k) { o = runIsolated(*P, ch, false, P->cpuLimit, iso); rep = o.failed; }
            if (rep) {
                found = true;
                killAll();
                Shrinker s{*P, iso, o.kind == "hang" ? std::min(P->cpuLimit, 4.0) : P->cpuLimit, noShrink ? 0 : (o.kind == "hang" ? 60 : 1500), time(nullptr) + 90, ch, o};
                auto orig = ch;
                s.run();
                shrinkRuns = s.runs;
                Outcome fin;
                bool okk = true;
                for (int k = 0; k < 3 && okk; ++k) { fin = runIsolated(*P, s.best, true, P->cpuLimit, iso); okk = fin.failed; }
                if (!okk) { s.best = orig; fin = runIsolated(*P, orig, true, P->cpuLimit, iso); }
                failKind = fin.kind; failMsg = fin.msg; failErr = fin.err; failNotes = fin.notes;
                std::ofstream f(replayOut);
                f << "property " << prop << modeLine() << "\nkind choices\ntier " << tier << "\nseed " << seed << " case " << idx << "\nfailure [" << fin.kind << "] " << escLine(fin.msg) << "\nchoices";
                for (auto v : s.best) f << " " << v;
                f << "\n---- the failing case\n" << fin.notes << "\n---- stderr of the tested code\n" << fin.err << "\n";
            } else {
                bool srep = true;
                for (int k = 0; k < 3 && srep; ++k) srep = runStream(seed, w, W, idx);
                if (srep) {
                    found = true;
                    killAll();
                    failKind = "stream"; failMsg = wmsg;
                    std::ofstream f(replayOut);
                    f << "property " << prop << modeLine() << "\nkind stream\ntier " << tier << "\nstream " << seed << " " << w << " " << W << " " << idx << "\nfailure [history of cases in one process] " << escLine(wmsg) << "\n";
                } else {
                    ++flaky;
                    flakyMsg = wmsg;
                    if (idx + W < total && flaky < 20) spawn(w, idx + W);
                    else --live;
                }
            }
        }
        if (!any) { struct timespec ts { 0, 3000000 }; nanosleep(&ts, nullptr); }
    }
    killAll();

    // ---- report
    uint64_t evals = 0, nontriv = 0, newCover = 0;
    std::vector<std::pair<std::string, uint64_t>> labels;
    std::unordered_set<uint64_t> distinct;
    size_t edges = 0, edgesTotal = 0;
    for (unsigned w = 0; w < W; ++w) {
        evals += sh[w]->casesDone;
        nontriv += sh[w]->nontrivial;
        newCover += sh[w]->newCover;
        for (size_t i = 0; i < MAX_LABELS && sh[w]->labelName[i][0]; ++i) {
            auto it = std::find_if(labels.begin(), labels.end(), [&](auto & l) { return l.first == sh[w]->labelName[i]; });
            if (it == labels.end()) labels.push_back({sh[w]->labelName[i], sh[w]->labelCount[i]});
            else it->second += sh[w]->labelCount[i];
        }
        std::ifstream hf(g_tmp + "/hash." + std::to_string(w), std::ios::binary);
        uint64_t h;
        while (hf.read((char *)&h, 8)) distinct.insert(h);
        std::ifstream ef(g_tmp + "/sample." + std::to_string(w) + ".edges");
        size_t a = 0, b = 0;
        if (ef >> a >> b) { edges = std::max(edges, a); edgesTotal = b; }
    }
    std::sort(labels.begin(), labels.end());
    std::vector<std::string> samples;
    for (unsigned w = 0; w < W && samples.size() < 4; ++w)
        for (int k = 0; k < 3 && samples.size() < 4; ++k) {
            if ((w + k) % 3 != 0 && w < 3) continue;
            std::string f = g_tmp + "/sample." + std::to_string(w) + "." + std::to_string(k);
            if (access(f.c_str(), R_OK)) continue;
            Outcome o = runIsolated(*P, readChoices(f), true, P->cpuLimit, iso);
            std::string s = o.notes;
            if (s.size() > 900) s = s.substr(0, 900) + " ...";
            samples.push_back(s);
        }
    std::ostringstream js;
    js << "{\"evaluations\": " << evals << ", \"nontrivial\": " << nontriv << ", \"distinct_nontrivial\": " << distinct.size()
       << ", \"rule\": " << quote(P->rule) << ", \"flaky\": " << flaky << ", \"flaky_msg\": " << quote(flakyMsg)
       << ", \"new_coverage_cases\": " << newCover << ", \"counters_hit\": " << edges << ", \"counters_total\": " << edgesTotal
       << ", \"labels\": {";
    for (size_t i = 0; i < labels.size(); ++i) js << (i ? ", " : "") << quote(labels[i].first) << ": " << labels[i].second;
    js << "}, \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) js << (i ? ", " : "") << quote(samples[i]);
    js << "], \"found\": " << (found ? "true" : "false") << ", \"fail_kind\": " << quote(failKind) << ", \"fail_msg\": " << quote(failMsg)
       << ", \"fail_notes\": " << quote(failNotes.substr(0, 6000)) << ", \"shrink_runs\": " << shrinkRuns << ", \"wall_s\": " << now() - t0 << "}\n";
    if (!outFile.empty()) { std::ofstream f(outFile); f << js.str(); }
    else printf("%s", js.str().c_str());
    if (found) { printf("FOUND [%s] %s\n%s\n", failKind.c_str(), failMsg.c_str(), failNotes.substr(0, 4000).c_str()); return 1; }
    return 0;
}
