// Small property-based testing engine: every random decision of a case is drawn
// from a recorded choice tape, so that a failing case can be shrunk (by editing
// the tape) and replayed exactly.  Cases run in forked workers.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <stdexcept>

namespace pbt {

struct CaseEnd {};      // thrown by Case::fail / Case::discard on the controller thread

class Case {
public:
    // --- choices -----------------------------------------------------------
    // 0 is always the simplest choice; shrinking moves towards 0.
    uint32_t draw(uint32_t n);                       // uniform in [0,n)
    uint32_t draw_biased(uint32_t n, double p_nonzero); // 0 with prob. 1-p, else uniform in [1,n)
    int range(int lo, int hi) { return lo + (int)draw((uint32_t)(hi - lo) + 1u); }
    bool chance(double p) { return draw_biased(2, p) == 1; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t)v.size())]; }
    int weighted(std::initializer_list<int> w);      // index, by weight
    int small(int hi);                               // skewed to small values in [0,hi]
    uint64_t bits64() { uint64_t a = draw(0x10000u), b = draw(0x10000u), c = draw(0x10000u), d = draw(0x10000u); return a | b << 16 | c << 32 | d << 48; }
    // cheap deterministic stream for bulk data, seeded by one tape entry
    struct Stream { uint64_t s; uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); } };
    Stream stream() { return Stream{ draw(0x40000000u) * 0x632BE59BD9B4E019ull }; }

    // --- reporting ---------------------------------------------------------
    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))); // part of the readable case and of its fingerprint
    void label(const char* l);
    void nontrivial() { nontriv_ = true; }
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void discard() { discarded_ = true; throw CaseEnd{}; }
    void kf(const char* id);  // marks that a known-finding reproducer still reproduces

    // internals
    uint32_t* tape_ = nullptr; uint32_t* tape_len_ = nullptr; uint32_t cap_ = 0;
    const std::vector<uint32_t>* replay_ = nullptr; size_t pos_ = 0;
    uint64_t rng_ = 0;
    std::string text_; uint64_t hash_ = 1469598103934665603ull;
    bool nontriv_ = false, discarded_ = false, failed_ = false, verbose_ = false;
    int tier_ = 0;
    std::vector<const char*> labels_;
    uint64_t rnd();
};

extern Case* g_case;

struct Prop {
    const char* name;
    void (*run)(Case&);
    int quick_cases, thorough_cases;
    const char* rule;
    bool exhaustive = false; // case index enumerates (passed in Case via index())
};
extern long g_index;         // index of the current case (for enumerated sub-properties)
extern uint64_t g_seed;
extern bool g_replay_verbose;
extern bool g_thorough;

std::vector<Prop>& props();
struct Reg { Reg(Prop p) { props().push_back(p); } };

// called by the simulation kernel when code under test breaks a kernel rule
[[noreturn]] void fail_here(const char* msg);

}

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(fn, quick, thorough, rule) \
    static void fn(pbt::Case& c); \
    static pbt::Reg PBT_CAT(reg_, fn)({#fn, fn, quick, thorough, rule}); \
    static void fn(pbt::Case& c)

#define CHECK(cond, ...) do { if (!(cond)) c.fail(__VA_ARGS__); } while (0)
