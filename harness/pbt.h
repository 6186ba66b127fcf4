// A small property-based testing engine.
//
// A case is a pure function of a finite sequence of choices (64-bit numbers, each with an inclusive upper bound).
// Generation draws the choices from a PRNG seeded with (VERIF_SEED, property, case index), optionally starting from
// a mutated prefix of an earlier case that reached new code (coverage guidance, deterministic as well).
// Shrinking edits the recorded sequence, and a replay file is the recorded sequence.
// Cases run in forked workers, so an assertion failure, a signal, an exit() or a hang of the tested code is an
// outcome of the case (and is shrunk like any other failure), never an accident of the check.
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };

inline uint64_t mix64(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
};

constexpr size_t MAX_CHOICES = 1u << 17;
constexpr size_t MAX_LABELS = 64;
constexpr size_t MSG = 4096;

// Lives in memory shared between a worker and its parent.
struct Shared {
    volatile uint64_t caseIndex;
    volatile uint64_t casesDone;
    volatile uint64_t nontrivial;
    volatile uint64_t discarded;
    volatile uint64_t inCase;
    volatile uint64_t failedFlag;  // set when the case failed its oracle
    volatile uint64_t finished;
    volatile uint64_t nChoices;    // choices drawn so far in the current case
    volatile uint64_t newCover;
    char msg[MSG];                 // oracle message
    char stage[512];               // what the case was doing (for crashes)
    char labelName[MAX_LABELS][48];
    volatile uint64_t labelCount[MAX_LABELS];
    uint64_t choices[MAX_CHOICES];
};

class Case {
public:
    // ---- choices
    uint64_t draw(uint64_t maxIncl);
    bool chance(uint64_t num, uint64_t den) { return draw(den - 1) >= den - num; }  // false is the simpler choice
    int64_t range(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo)); }
    size_t weighted(std::initializer_list<int> w);
    template <typename T> const T & pick(const std::vector<T> & v) { return v[draw(v.size() - 1)]; }
    uint64_t bits(int n) { return n >= 64 ? draw(~0ULL) : draw((1ULL << n) - 1); }

    // ---- reporting
    bool verbose = false;                                    // a run that is written out (sample, replay)
    void note(const std::string & s);                        // description of the case; kept only if verbose
    void label(const char * name);                           // classify the case (counted once per case)
    void nontrivial() { nontriv_ = true; }
    void heavy() { heavy_ = true; }                          // an unusually expensive case: seldom taken as the base of others
    void massive() { heavy_ = massive_ = true; }             // so expensive that no case is made from it
    void stage(const char * s);                              // shown if the case dies
    void stage(const std::string & s) { stage(s.c_str()); }
    void key(uint64_t h) { key_ = mix64(key_ ^ h); keyed_ = true; }
    void key(const std::string & s);
    [[noreturn]] void fail(const std::string & msg) { throw Failure{msg}; }
    void check(bool ok, const std::string & msg) { if (!ok) fail(msg); }
    template <typename F> void checkf(bool ok, F && f) { if (!ok) fail(f()); }
    bool thorough() const;

    // ---- engine
    Shared * sh = nullptr;
    const uint64_t * prefix = nullptr;
    size_t nPrefix = 0;
    bool replayOnly = false;  // beyond the prefix every choice is 0
    Rng rng{0};
    size_t pos = 0;
    std::string notes;
    bool nontriv_ = false, heavy_ = false, massive_ = false, keyed_ = false;
    uint64_t key_ = 0;
    uint64_t labelMask_ = 0;
    uint64_t hash() const;
};

using PropFn = void (*)(Case &);

struct Prop {
    const char * id;
    PropFn fn;
    const char * rule;            // how cases are made, and what makes one non-trivial
    uint64_t quickCases;          // cases over all workers
    uint64_t thoroughCases;
    double cpuLimit = 20;         // CPU seconds after which a case counts as hanging (cases normally take milliseconds)
    bool guided = true;
    std::function<void()> perProcess = nullptr;
};

std::vector<Prop> & registry();
struct Reg { explicit Reg(Prop p) { registry().push_back(p); } };

std::string hex(const void * p, size_t n);
std::string quote(const std::string & s);

// runs fn in a child process and reports how it ended; out receives what fn wrote to stderr
struct ChildResult { bool exited; int code; int sig; std::string err; bool blocked = false; };
ChildResult inChild(const std::function<void()> & fn, int cpuSeconds = 20);

// allocation balance of the C++ heap (operator new / delete), for leak checks
int64_t liveAllocations();

// work and memory so far, in the variant that counts them ('cost'): control flow edges taken and bytes allocated by the calling thread,
// bytes allocated now by all threads, and the most of these
struct Cost { uint64_t edges, bytes; };
Cost & cost();
extern std::atomic<int64_t> held, heldPeak;

[[noreturn]] void failNow(Case & c, const std::string & msg);  // for a case that cannot be unwound
int workerIndex();                                             // -1 outside the search

}  // namespace pbt

#define PBT_PROPERTY(ID, FN, RULE, QUICK, THOROUGH, ...) \
    static void FN(pbt::Case &); \
    static pbt::Reg reg_##FN{pbt::Prop{ID, FN, RULE, QUICK, THOROUGH, ##__VA_ARGS__}}; \
    static void FN(pbt::Case & c)
