// Property-based testing engine: choice-sequence generators, forked workers,
// crash/hang capture, integrated shrinking, replay.  See DESIGN.md, "Engine".
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

// Raised by a property when the oracle is contradicted.
// `tag` is stable (no run-dependent data): it is the failure's signature.
struct Failure {
    std::string tag, msg;
};

// The source of every random choice of a case. A case is a pure function of
// the sequence of integers drawn; shrinking works on that sequence.
class Src {
public:
    Src(uint64_t seed);                              // generate
    Src(const std::vector<uint64_t>& replay);        // replay (then zeros)

    // uniform in [0, n] (inclusive)
    uint64_t draw(uint64_t n);
    // inclusive range
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo)); }
    // true with probability num/den; shrinks towards false
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    bool coin() { return draw(1) != 0; }
    // small-biased size in [0, max]
    unsigned size(unsigned max);
    // weighted alternative; index 0 is the simplest
    unsigned weighted(std::initializer_list<unsigned> w);
    unsigned index(size_t n) { return (unsigned)draw(n - 1); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[index(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + index(v.size())); }
    uint64_t u64();       // boundary-biased
    int64_t i64();        // boundary-biased
    std::string bytes(unsigned maxlen);              // arbitrary bytes, biased
    std::string bytesExact(unsigned len);

    // Case description facilities
    void label(const char* name);                    // classification counter
    void label(const std::string& name) { label(name.c_str()); }
    void nontrivial() { m_nontrivial = true; }
    bool isNontrivial() const { return m_nontrivial; }
    // human readable trace of the case (kept when sampled or failing)
    template <class... A> void trace(const A&... a) {
        if (m_trace.size() > 6000) return;
        std::ostringstream ss; (void)std::initializer_list<int>{ ((ss << a), 0)... };
        m_trace += ss.str(); m_trace += '\n'; publishTrace();
    }
    const std::string& traceText() const { return m_trace; }
    uint64_t hash() const;
    const std::vector<uint64_t>& log() const { return m_log; }
    // bytes mode (coverage guided): choices are decoded from raw bytes
    bool replaying() const { return m_replay; }
private:
    uint64_t next();
    void publishTrace();        // kept even if the case crashes
    uint64_t m_s[2];
    bool m_replay = false, m_nontrivial = false;
    std::vector<uint64_t> m_in; size_t m_pos = 0;
    std::vector<uint64_t> m_log;
    std::string m_trace;
};

[[noreturn]] void fail(const std::string& tag, const std::string& msg);

using PropFn = void (*)(Src&);

struct Sub {
    const char* property;
    const char* name;
    PropFn fn;
    unsigned quick, thorough;     // case counts
    unsigned cpuSeconds;          // CPU limit of one case (hang detector)
};
void registerSub(const Sub& s);
struct Reg { Reg(const Sub& s) { registerSub(s); } };

// Finding: a recorded genuine defect; returns true if it still reproduces.
struct Finding { const char* property; const char* id; const char* what; bool (*still)(); };
void registerFinding(const Finding& f);
struct RegF { RegF(const Finding& f) { registerFinding(f); } };

std::string hex(std::string_view s, size_t max = 400);
std::string show(std::string_view s, size_t max = 400);  // printable with escapes
uint64_t fnv(std::string_view s, uint64_t h = 1469598103934665603ull);

int mainEntry(int argc, char** argv);

// The non-triviality rule text, set by each harness
extern const char* g_rule;
extern const char* g_assumptions; // '\n' separated

} // namespace pbt

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
// Register a property function: PROP(C01, name, quickCases, thoroughCases, cpuSeconds)
#define PROP(prop, name, quick, thorough, cpu)                                   \
    static void prop_##name(pbt::Src& g);                                        \
    static pbt::Reg reg_##name(pbt::Sub{ #prop, #name, &prop_##name, quick, thorough, cpu }); \
    static void prop_##name(pbt::Src& g)

#define CHECK(tag, cond, ...)                                                    \
    do { if (!(cond)) { std::ostringstream ss_; ss_ << #cond << " : " << __VA_ARGS__; \
        pbt::fail(tag, ss_.str()); } } while (0)
#define CHECK_EQ(tag, a, b, ...)                                                 \
    do { auto&& a_ = (a); auto&& b_ = (b); if (!(a_ == b_)) { std::ostringstream ss_;  \
        ss_ << #a " == " #b << " : got [" << a_ << "] expected [" << b_ << "] " << __VA_ARGS__; \
        pbt::fail(tag, ss_.str()); } } while (0)
