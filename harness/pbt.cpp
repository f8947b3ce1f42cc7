#include "pbt.h"
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <unordered_set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

// ---- allocation guard: a single absurd allocation is an ordinary bad_alloc --
static constexpr size_t MaxAlloc = size_t(1) << 30;
static void* guardedAlloc(size_t n) {
    if (n > MaxAlloc) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return guardedAlloc(n); }
void* operator new[](size_t n) { return guardedAlloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return n > MaxAlloc ? nullptr : std::malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return n > MaxAlloc ? nullptr : std::malloc(n ? n : 1); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=1:quarantine_size_mb=8:"
           "malloc_context_size=12:handle_abort=1:handle_segv=1:handle_sigfpe=1:handle_sigill=1:"
           "detect_stack_use_after_return=0:exitcode=77:print_summary=1:symbolize=1:"
           "max_allocation_size_mb=2048:print_legend=0:allow_user_segv_handler=0";
}
extern "C" const char* __ubsan_default_options() {
    return "print_stacktrace=1:halt_on_error=1:exitcode=77";
}
extern "C" void __asan_set_error_report_callback(void (*)(const char*)) __attribute__((weak));

namespace pbt {

const char* g_rule = "";
const char* g_assumptions = "";

static std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
static std::vector<Finding>& findings() { static std::vector<Finding> s; return s; }
void registerSub(const Sub& s) { subs().push_back(s); }
void registerFinding(const Finding& f) { findings().push_back(f); }

void fail(const std::string& tag, const std::string& msg) { throw Failure{ tag, msg }; }

uint64_t fnv(std::string_view s, uint64_t h) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
std::string hex(std::string_view s, size_t max) {
    static const char* d = "0123456789abcdef"; std::string r;
    for (size_t i = 0; i < s.size() && i < max; i++) { r += d[(unsigned char)s[i] >> 4]; r += d[(unsigned char)s[i] & 15]; }
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + ")";
    return r;
}
std::string show(std::string_view s, size_t max) {
    std::string r; char b[8];
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '\\') r += (char)c;
        else if (c == '\n') r += "\\n";
        else if (c == '\r') r += "\\r";
        else { snprintf(b, 8, "\\x%02x", c); r += b; }
    }
    if (s.size() > max) r += "...(" + std::to_string(s.size()) + ")";
    return r;
}

static uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// ---- shared state between parent and workers ------------------------------
static constexpr unsigned MaxLog = 1u << 18;
static constexpr unsigned MaxLabels = 256;
struct Slot {           // one per worker
    std::atomic<uint32_t> sub, idx, state;      // state: 0 idle 1 running 2 done 3 failed-soft
    std::atomic<uint32_t> nlog;
    uint64_t log[MaxLog];
    char report[16384];
    char tag[512];
    char msg[8192];
    char trace[8192];
    struct { char name[64]; uint64_t n; } labels[MaxLabels];
    uint64_t evals, nontriv;
    std::atomic<uint32_t> cpuMaxMs;
    struct { uint32_t sub; char text[2000]; } samples[16]; uint32_t nsamples;
};
static Slot* g_slot = nullptr;

Src::Src(uint64_t seed) { uint64_t x = seed; m_s[0] = splitmix(x); m_s[1] = splitmix(x); }
Src::Src(const std::vector<uint64_t>& r) : m_s{ 1, 2 }, m_replay(true), m_in(r) {}
uint64_t Src::next() {
    uint64_t s1 = m_s[0]; const uint64_t s0 = m_s[1]; m_s[0] = s0; s1 ^= s1 << 23;
    m_s[1] = s1 ^ s0 ^ (s1 >> 17) ^ (s0 >> 26); return m_s[1] + s0;
}
uint64_t Src::draw(uint64_t n) {
    uint64_t v;
    if (m_replay) {
        v = m_pos < m_in.size() ? m_in[m_pos] : 0; m_pos++;
        if (v > n) v = n == UINT64_MAX ? v : v % (n + 1);
    } else v = n == UINT64_MAX ? next() : next() % (n + 1);
    if (g_slot) { uint32_t k = g_slot->nlog.load(std::memory_order_relaxed);
        if (k < MaxLog) { g_slot->log[k] = v; g_slot->nlog.store(k + 1, std::memory_order_relaxed); } }
    m_log.push_back(v);
    return v;
}
unsigned Src::size(unsigned max) {
    if (max == 0) return 0;
    switch (draw(9)) {
        case 0: case 1: case 2: return (unsigned)draw(std::min(max, 2u));
        case 3: case 4: case 5: return (unsigned)draw(std::min(max, 6u));
        case 6: case 7: return (unsigned)draw(std::min(max, 20u));
        case 8: return (unsigned)draw(max);
        default: return (unsigned)draw(max / 2 + 1 < max ? max / 2 + 1 : max);
    }
}
unsigned Src::weighted(std::initializer_list<unsigned> w) {
    unsigned tot = 0; for (auto x : w) tot += x;
    uint64_t r = draw(tot - 1); unsigned i = 0;
    for (auto x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
}
uint64_t Src::u64() {
    switch (draw(5)) {
        case 0: return draw(10);
        case 1: return draw(255);
        case 2: return draw(70000);
        case 3: { unsigned b = (unsigned)draw(63); uint64_t v = uint64_t(1) << b; return v + draw(2) - 1; }
        case 4: return draw(0xFFFFFFFFull);
        default: return draw(UINT64_MAX);
    }
}
int64_t Src::i64() {
    switch (draw(6)) {
        case 0: return (int64_t)draw(10);
        case 1: return (int64_t)draw(510) - 255;
        case 2: return (int64_t)draw(140000) - 70000;
        case 3: { unsigned b = (unsigned)draw(62); int64_t v = (int64_t)((uint64_t)1 << b) + (int64_t)draw(2) - 1; return draw(1) ? -v : v; }
        case 4: return (int64_t)draw(0x1FFFFFFFFull) - 0xFFFFFFFFll;
        case 5: return draw(1) ? INT64_MIN + (int64_t)draw(2) : INT64_MAX - (int64_t)draw(2);
        default: return (int64_t)draw(UINT64_MAX);
    }
}
std::string Src::bytesExact(unsigned n) {
    std::string r; r.reserve(n);
    switch (draw(5)) {
        case 0: for (unsigned i = 0; i < n; i++) r += (char)('a' + draw(25)); break;
        case 1: for (unsigned i = 0; i < n; i++) r += (char)draw(255); break;
        case 2: { // runs
            while (r.size() < n) { char c = (char)draw(255); unsigned k = 1 + (unsigned)draw(200); while (k-- && r.size() < n) r += c; } break; }
        case 3: { static const char sp[] = "\0\n\r\t\f\b ()<>[]{}/%\\#~z!u\x80\x7f\xff\xfe\xef\xbb\xbf" "0123456789AFaf";
            for (unsigned i = 0; i < n; i++) r += sp[draw(sizeof(sp) - 2)]; break; }
        case 4: { char a[4]; for (auto& c : a) c = (char)draw(255); for (unsigned i = 0; i < n; i++) r += a[draw(3)]; break; }
        default: for (unsigned i = 0; i < n; i++) r += draw(3) ? (char)(32 + draw(94)) : (char)draw(255); break;
    }
    return r;
}
std::string Src::bytes(unsigned maxlen) { return bytesExact(size(maxlen)); }
void Src::label(const char* name) {
    if (!g_slot) return;
    for (auto& l : g_slot->labels) {
        if (!l.name[0]) { strncpy(l.name, name, sizeof(l.name) - 1); l.n = 1; return; }
        if (!strncmp(l.name, name, sizeof(l.name) - 1)) { l.n++; return; }
    }
}
uint64_t Src::hash() const { return fnv(std::string_view((const char*)m_log.data(), m_log.size() * 8)); }

// ---- crash signatures -------------------------------------------------------
static void asanCallback(const char* r) {
    if (g_slot) { strncpy(g_slot->report, r, sizeof(g_slot->report) - 1); g_slot->report[sizeof(g_slot->report) - 1] = 0; }
}
static void onVtAlrm(int) {
    if (g_slot) strcpy(g_slot->report, "PBT-HANG: CPU limit of one case exceeded");
    _exit(78);
}
static std::string crashSignature(const std::string& report, int status) {
    if (report.rfind("PBT-HANG", 0) == 0) return "hang";
    std::string kind = "crash";
    auto p = report.find("AddressSanitizer: ");
    if (p != std::string::npos) { p += 18; auto e = report.find_first_of(" \n:", p); kind = "asan-" + report.substr(p, e - p); }
    else if (report.find("runtime error: ") != std::string::npos) kind = "ubsan";
    else if (WIFSIGNALED(status)) kind = "signal-" + std::to_string(WTERMSIG(status));
    else if (WIFEXITED(status)) kind = "exit-" + std::to_string(WEXITSTATUS(status));
    // first two library functions on the stack
    std::istringstream ss(report); std::string line; int got = 0; std::string sig = kind;
    while (std::getline(ss, line) && got < 2) {
        auto in = line.find(" in "); if (line.find("    #") != 0 || in == std::string::npos) continue;
        std::string f = line.substr(in + 4);
        if (f.find("/src/pdfmm/") == std::string::npos && f.find("mm::") == std::string::npos) continue;
        auto e = f.find('('); if (e == std::string::npos) e = f.find(' ');
        f = f.substr(0, e);
        if (f.rfind("pbt::", 0) == 0 || f.rfind("prop_", 0) == 0 || f.rfind("std::", 0) == 0 || f.rfind("__gnu", 0) == 0) continue;
        sig += "|" + f; got++;
    }
    return sig;
}

struct Fail {
    unsigned sub; uint32_t idx; std::string tag, msg, trace; std::vector<uint64_t> choices;
    std::vector<std::pair<unsigned, uint32_t>> history;   // the cases its worker had run before, then itself
};

static void armTimer(unsigned sec) {
    itimerval it{}; it.it_value.tv_sec = sec; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// Runs one case in this process. Returns true if it passed.
static bool runCase(const Sub& s, Src& g, std::string& tag, std::string& msg) {
    try { s.fn(g); return true; }
    catch (const Failure& f) { tag = std::string(s.name) + "/" + f.tag; msg = f.msg; }
    catch (const std::bad_alloc&) { tag = std::string(s.name) + "/bad_alloc"; msg = "unexpected std::bad_alloc"; }
    catch (const std::exception& e) { tag = std::string(s.name) + "/unexpected-exception"; msg = e.what(); }
    catch (...) { tag = std::string(s.name) + "/unexpected-exception"; msg = "unknown exception"; }
    return false;
}

void Src::publishTrace() { if (!g_slot || !m_replay) return; size_t n = std::min(m_trace.size(), sizeof(g_slot->trace) - 1); memcpy(g_slot->trace, m_trace.data(), n); g_slot->trace[n] = 0; }
// Evaluate a choice sequence in a forked child.
static bool evalForked(const Sub& s, const std::vector<uint64_t>& in, Slot* slot, std::string& tag, std::string& msg,
        std::vector<uint64_t>* normalized = nullptr, std::string* trace = nullptr, unsigned cpu = 0) {
    slot->nlog = 0; slot->report[0] = 0; slot->tag[0] = 0; slot->msg[0] = 0; slot->trace[0] = 0; slot->state = 1;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
        g_slot = slot; signal(SIGVTALRM, onVtAlrm); prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (__asan_set_error_report_callback) __asan_set_error_report_callback(asanCallback);
        armTimer(cpu ? cpu : s.cpuSeconds);
        Src g(in); std::string t, m; bool ok = runCase(s, g, t, m);
        strncpy(slot->trace, g.traceText().c_str(), sizeof(slot->trace) - 1);
        if (ok) { slot->state = 2; _exit(0); }
        strncpy(slot->tag, t.c_str(), sizeof(slot->tag) - 1); strncpy(slot->msg, m.c_str(), sizeof(slot->msg) - 1);
        slot->state = 3; _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (normalized) normalized->assign(slot->log, slot->log + std::min<uint32_t>(slot->nlog, MaxLog));
    if (trace) *trace = slot->trace;
    if (slot->state == 2) return true;
    if (slot->state == 3) { tag = slot->tag; msg = slot->msg; return false; }
    tag = std::string(s.name) + "/" + crashSignature(slot->report, st); msg = slot->report;
    if (msg.empty()) msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
    return false;
}

static uint64_t caseSeed(const Sub& s, uint64_t seed, uint32_t idx) {
    return fnv(s.name, seed * 0x9E3779B97F4A7C15ull + 12345) ^ (uint64_t(idx) * 0xD1342543DE82EF95ull);
}

// Runs a sequence of generated cases in one forked process: for failures of the
// last one that need state the earlier ones left behind in the library.
static bool historyFails(const std::vector<std::pair<unsigned, uint32_t>>& hist, uint64_t seed, Slot* slot, std::string& tag, std::string& msg, std::string* trace) {
    slot->nlog = 0; slot->report[0] = 0; slot->tag[0] = 0; slot->msg[0] = 0; slot->trace[0] = 0; slot->state = 1;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 2);
        g_slot = slot; signal(SIGVTALRM, onVtAlrm); prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (__asan_set_error_report_callback) __asan_set_error_report_callback(asanCallback);
        for (size_t i = 0; i < hist.size(); i++) {
            const Sub& s = subs()[hist[i].first]; armTimer(s.cpuSeconds); slot->nlog = 0;
            Src g(caseSeed(s, seed, hist[i].second)); std::string t, m; bool ok = runCase(s, g, t, m);
            if (i + 1 != hist.size()) continue;
            strncpy(slot->trace, g.traceText().c_str(), sizeof(slot->trace) - 1);
            if (ok) { slot->state = 2; _exit(0); }
            strncpy(slot->tag, t.c_str(), sizeof(slot->tag) - 1); strncpy(slot->msg, m.c_str(), sizeof(slot->msg) - 1);
            slot->state = 3; _exit(0);
        }
        _exit(0);
    }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (trace) *trace = slot->trace;
    if (slot->state == 2) return false;
    if (slot->state == 3) { tag = slot->tag; msg = slot->msg; return true; }
    tag = std::string(subs()[hist.back().first].name) + "/" + crashSignature(slot->report, st); msg = slot->report;
    if (msg.empty()) msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
    return true;
}

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

static bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

static void shrink(const Sub& s, Fail& f, Slot* slot, double budget) {
    double end = now() + budget; unsigned tries = 0;
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        if (now() > end) return false;
        tries++; std::string t, m; std::vector<uint64_t> norm; std::string tr;
        bool ok = evalForked(s, cand, slot, t, m, &norm, &tr);
        if (ok || t != f.tag) return false;
        // trim unused tail
        std::vector<uint64_t> c = norm.size() < cand.size() ? norm : cand;
        if (!smaller(c, f.choices)) return false;
        f.choices = c; f.msg = m; f.trace = tr; return true;
    };
    while (!f.choices.empty() && f.choices.back() == 0) { f.choices.pop_back(); }
    { std::string t, m; if (evalForked(s, f.choices, slot, t, m) || t != f.tag) { } }
    bool progress = true;
    while (progress && now() < end) {
        progress = false;
        for (size_t k = f.choices.size(); k >= 1 && now() < end; k = k > 16 ? k / 2 : k - 1)
            for (size_t i = 0; i + k <= f.choices.size() && now() < end;) {
                auto c = f.choices; c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) progress = true; else i += k > 4 ? k / 2 : 1;
            }
        for (size_t k : { size_t(16), size_t(8), size_t(4), size_t(1) })
            for (size_t i = 0; i + k <= f.choices.size() && now() < end; i++) {
                bool z = true; for (size_t j = i; j < i + k; j++) z &= f.choices[j] == 0;
                if (z) continue;
                auto c = f.choices; std::fill(c.begin() + i, c.begin() + i + k, 0);
                if (attempt(c)) progress = true;
            }
        for (size_t i = 0; i < f.choices.size() && now() < end; i++) {
            uint64_t lo = 0;
            while (i < f.choices.size() && lo < f.choices[i] && now() < end) {
                uint64_t mid = lo + (f.choices[i] - lo) / 2; auto c = f.choices; c[i] = mid;
                if (attempt(c)) progress = true; else lo = mid + 1;
            }
            // paired decrement: lower i and delete one later element
            if (i < f.choices.size() && f.choices[i] > 0)
                for (size_t d = 1; d <= 6 && i + d < f.choices.size() && now() < end; d++) {
                    auto c = f.choices; c[i]--; c.erase(c.begin() + i + d);
                    if (attempt(c)) { progress = true; break; }
                }
        }
    }
}

static void shrinkHistory(Fail& f, uint64_t seed, Slot* slot, double budget) {
    double end = now() + budget; std::string t, m, tr;
    auto attempt = [&](const std::vector<std::pair<unsigned, uint32_t>>& h) {
        if (now() > end || !historyFails(h, seed, slot, t, m, &tr) || t != f.tag) return false;
        f.history = h; f.msg = m; f.trace = tr; return true;
    };
    for (size_t k = f.history.size() / 2; k >= 1; k /= 2)
        for (size_t i = 0; i + k < f.history.size() && now() < end;) { auto h = f.history; h.erase(h.begin() + i, h.begin() + i + k); if (!attempt(h)) i += k; }
}

static std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}

struct Opt {
    std::string property, tier = "quick", replay, evidence, replayDir = "replay", only;
    uint64_t seed = 1; unsigned workers = 8; double scale = 1; double budget = 700; bool verbose = false; int maxFail = 12;
};

static int doReplay(const Opt& o, Slot* slot) {
    std::ifstream in(o.replay); if (!in) { fprintf(stderr, "cannot open %s\n", o.replay.c_str()); return 2; }
    std::string line, sub; std::vector<uint64_t> ch; std::vector<std::pair<unsigned, uint32_t>> hist; uint64_t seed = 1;
    while (std::getline(in, line)) {
        if (line.rfind("sub: ", 0) == 0) sub = line.substr(5);
        else if (line.rfind("choices: ", 0) == 0) { std::istringstream ss(line.substr(9)); uint64_t v; while (ss >> v) ch.push_back(v); }
        else if (line.rfind("seed: ", 0) == 0) seed = strtoull(line.c_str() + 6, 0, 10);
        else if (line.rfind("history: ", 0) == 0) { std::istringstream ss(line.substr(9)); std::string n; uint32_t v; while (ss >> n >> v) for (unsigned k = 0; k < subs().size(); k++) if (n == subs()[k].name) hist.push_back({ k, v }); }
    }
    if (!hist.empty()) {
        std::string t, m, tr; bool bad = historyFails(hist, seed, slot, t, m, &tr); printf("%s\n", tr.c_str());
        if (!bad) { printf("replay: the property holds on this history\n"); return 0; }
        printf("replay: FAILS tag=%s\n%s\nVIOLATION property=%s replay=%s\n", t.c_str(), m.c_str(), subs()[hist.back().first].property, o.replay.c_str()); return 1;
    }
    for (auto& s : subs()) if (sub == s.name) {
        std::string t, m, tr; bool ok = evalForked(s, ch, slot, t, m, nullptr, &tr);
        printf("%s\n", tr.c_str());
        if (ok) { printf("replay: the property holds on this case\n"); return 0; }
        printf("replay: FAILS tag=%s\n%s\n", t.c_str(), m.c_str());
        printf("VIOLATION property=%s replay=%s\n", s.property, o.replay.c_str()); return 1;
    }
    fprintf(stderr, "no such sub-check: %s\n", sub.c_str()); return 2;
}

int mainEntry(int argc, char** argv) {
    Opt o;
    if (const char* e = getenv("VERIF_SEED")) o.seed = strtoull(e, 0, 10);
    if (const char* e = getenv("VERIF_TIER")) o.tier = e;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--property") o.property = val();
        else if (a == "--tier") o.tier = val();
        else if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--replay") o.replay = val();
        else if (a == "--evidence") o.evidence = val();
        else if (a == "--replay-dir") o.replayDir = val();
        else if (a == "--workers") o.workers = atoi(val().c_str());
        else if (a == "--scale") o.scale = atof(val().c_str());
        else if (a == "--budget") o.budget = atof(val().c_str());
        else if (a == "--only") o.only = val();
        else if (a == "--max-fail") o.maxFail = atoi(val().c_str());
        else if (a == "-v") o.verbose = true;
    }
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::sort(subs().begin(), subs().end(), [](const Sub& a, const Sub& b) { return strcmp(a.name, b.name) < 0; });
    if (o.property.empty()) o.property = subs()[0].property;
    unsigned W = o.workers;
    Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (slots == MAP_FAILED) { perror("mmap"); return 2; }
    if (!o.replay.empty()) return doReplay(o, slots + W);
    double t0 = now();

    // plan
    struct Job { unsigned sub; uint32_t idx; };
    std::vector<uint32_t> counts; uint64_t total = 0;
    for (auto& s : subs()) {
        uint32_t n = (uint32_t)((o.tier == "thorough" ? s.thorough : s.quick) * o.scale + 0.5);
        if (!o.only.empty() && o.only != s.name) n = 0;
        counts.push_back(n); total += n;
    }
    std::vector<uint64_t> base; { uint64_t b = 0; for (auto n : counts) { base.push_back(b); b += n; } }
    uint64_t* hashes = (uint64_t*)mmap(nullptr, (total + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    // all jobs, interleaved proportionally so that a time cut is spread evenly
    std::vector<Job> jobs; jobs.reserve(total);
    { std::vector<std::pair<double, Job>> v; v.reserve(total);
      for (unsigned s = 0; s < subs().size(); s++) for (uint32_t i = 0; i < counts[s]; i++) v.push_back({ (i + 0.5) / counts[s], Job{ s, i } });
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& x : v) jobs.push_back(x.second); }

    std::vector<Fail> fails; std::map<std::string, unsigned> tagCount; std::set<unsigned> capped;
    std::vector<pid_t> pids(W, -1); std::vector<size_t> nextJob(W), firstJob(W); (void)firstJob; std::vector<bool> done(W, false);
    for (unsigned w = 0; w < W; w++) nextJob[w] = w;
    std::atomic<uint32_t>* stop = (std::atomic<uint32_t>*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    *stop = 0;
    auto spawn = [&](unsigned w) {
        Slot* sl = slots + w; sl->state = 0; sl->report[0] = 0;
        size_t start = firstJob[w] = nextJob[w];
        fflush(stdout);
        pid_t pid = fork();
        if (pid != 0) { pids[w] = pid; return; }
        int dn = open("/dev/null", O_WRONLY); if (!o.verbose) dup2(dn, 2);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        g_slot = sl; signal(SIGVTALRM, onVtAlrm);
        if (__asan_set_error_report_callback) __asan_set_error_report_callback(asanCallback);
        for (size_t j = start; j < jobs.size(); j += W) {
            if (*stop) _exit(5);
            const Sub& s = subs()[jobs[j].sub];
            sl->sub = jobs[j].sub; sl->idx = jobs[j].idx; sl->nlog = 0; sl->trace[0] = 0; sl->report[0] = 0; sl->state = 1;
            armTimer(s.cpuSeconds);
            clock_t c0 = clock();
            Src g(caseSeed(s, o.seed, jobs[j].idx)); std::string t, m; bool ok = runCase(s, g, t, m);
            uint32_t ms = (uint32_t)((clock() - c0) * 1000 / CLOCKS_PER_SEC); if (ms > sl->cpuMaxMs) sl->cpuMaxMs = ms;
            sl->evals++;
            if (g.isNontrivial()) { sl->nontriv++; hashes[base[jobs[j].sub] + jobs[j].idx] = g.hash() | 1;
                if (sl->nsamples < 16 && w == jobs[j].idx % W) {
                    unsigned have = 0; for (unsigned k = 0; k < sl->nsamples; k++) have += sl->samples[k].sub == jobs[j].sub;
                    if (have < 1) { sl->samples[sl->nsamples].sub = jobs[j].sub; strncpy(sl->samples[sl->nsamples].text, g.traceText().c_str(), 1999); sl->nsamples++; } } }
            if (!ok) {
                strncpy(sl->tag, t.c_str(), sizeof(sl->tag) - 1); strncpy(sl->msg, m.c_str(), sizeof(sl->msg) - 1);
                strncpy(sl->trace, g.traceText().c_str(), sizeof(sl->trace) - 1);
                sl->state = 3; _exit(3);
            }
        }
        sl->state = 2; _exit(0);
    };
    for (unsigned w = 0; w < W; w++) spawn(w);
    unsigned alive = W; bool timeCut = false;
    while (alive) {
        int st; pid_t pid = waitpid(-1, &st, WNOHANG);
        if (pid <= 0) { usleep(5000); if (!timeCut && now() - t0 > o.budget) { timeCut = true; *stop = 1; } continue; }
        unsigned w = 0; while (w < W && pids[w] != pid) w++;
        if (w == W) continue;
        Slot* sl = slots + w;
        if (sl->state == 2 || (WIFEXITED(st) && WEXITSTATUS(st) == 5)) { alive--; continue; }
        Fail f; f.sub = sl->sub; f.idx = sl->idx; f.choices.assign(sl->log, sl->log + std::min<uint32_t>(sl->nlog, MaxLog));
        if (sl->state == 3) { f.tag = sl->tag; f.msg = sl->msg; f.trace = sl->trace; }
        else { f.tag = std::string(subs()[f.sub].name) + "/" + crashSignature(sl->report, st); f.msg = sl->report;
            if (f.msg.empty()) f.msg = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)); sl->evals++; }
        memset(sl->tag, 0, sizeof sl->tag); memset(sl->msg, 0, sizeof sl->msg);
        if (o.verbose) printf("  fail: %s [%u]\n", f.tag.c_str(), f.idx);
        size_t j = nextJob[w];
        for (; !(jobs[j].sub == f.sub && jobs[j].idx == f.idx); j += W) f.history.push_back({ jobs[j].sub, jobs[j].idx });
        f.history.push_back({ f.sub, f.idx });
        if (tagCount[f.tag]++ == 0) fails.push_back(f);
        else for (auto& e : fails) if (e.tag == f.tag && smaller(f.choices, e.choices)) { e = f; }
        nextJob[w] = j + W;
        unsigned tf = 0; for (auto& x : tagCount) tf += x.second;
        unsigned th = 0; for (auto& x : tagCount) if (x.first.size() > 5 && x.first.compare(x.first.size() - 5, 5, "/hang") == 0) th += x.second;
        if (th >= 4 || tf >= 60 || (int)fails.size() >= o.maxFail) { *stop = 1; alive--; continue; }
        if (*stop || nextJob[w] >= jobs.size()) { alive--; continue; }
        spawn(w);
    }
    uint64_t evals = 0, nontriv = 0; std::map<std::string, uint64_t> labels; uint32_t cpuMax = 0;
    for (unsigned w = 0; w < W; w++) { evals += slots[w].evals; nontriv += slots[w].nontriv; cpuMax = std::max<uint32_t>(cpuMax, slots[w].cpuMaxMs);
        for (auto& l : slots[w].labels) if (l.name[0]) labels[l.name] += l.n; }
    std::vector<uint64_t> hs; for (uint64_t i = 0; i < total; i++) if (hashes[i]) hs.push_back(hashes[i]);
    std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());

    // findings
    unsigned nf = 0;
    for (auto& f : findings()) {
        Slot* sl = slots + W; sl->state = 1; sl->report[0] = 0; fflush(stdout); pid_t pid = fork();
        if (pid == 0) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); signal(SIGVTALRM, onVtAlrm); armTimer(60);
            bool still = false; try { still = f.still(); } catch (...) { still = true; } _exit(still ? 9 : 0); }
        int st; waitpid(pid, &st, 0);
        bool still = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
        if (still) { nf++; printf("KNOWN-FINDING: property=%s %s: %s\n", f.property, f.id, f.what); }
    }

    // shrink and confirm
    unsigned violations = 0;
    std::sort(fails.begin(), fails.end(), [](const Fail& a, const Fail& b) { return a.choices.size() < b.choices.size(); });
    double shrinkEach = fails.empty() ? 0 : std::min(60.0, 120.0 / fails.size());
    mkdir(o.replayDir.c_str(), 0777);
    for (auto& f : fails) {
        const Sub& s = subs()[f.sub]; Slot* sl = slots + W;
        Fail orig = f;
        bool hang = f.tag.size() > 5 && f.tag.compare(f.tag.size() - 5, 5, "/hang") == 0;
        unsigned rep = 0; bool useHistory = false; std::string t, m, tr;
        for (int k = 0; k < (hang ? 1 : 3); k++) if (!evalForked(s, f.choices, sl, t, m, nullptr, &tr)) { rep++; f.tag = t; f.msg = m; f.trace = tr; }
        if (hang && rep) { /* too slow to shrink */ }
        else if (rep == 3) {
            shrink(s, f, sl, shrinkEach);
            unsigned rep2 = 0; for (int k = 0; k < 3; k++) if (!evalForked(s, f.choices, sl, t, m, nullptr, &tr)) { rep2++; f.msg = m; f.trace = tr; }
            if (rep2 != 3) f = orig;
        } else if (rep == 0) {
            // fails only with the history of its worker process: state leaks between cases
            unsigned hr = 0; for (int k = 0; k < 2 && !hang; k++) if (historyFails(f.history, o.seed, sl, t, m, &tr)) { hr++; f.tag = t; f.msg = m; f.trace = tr; }
            if (hr < 2) {
                printf("note: %s did not reproduce, neither alone nor after the cases that ran before it (inconclusive)\n", f.tag.c_str()); if (getenv("VERIF_LOG")) printf("%s\n%s\n", f.trace.c_str(), f.msg.c_str());
                continue;
            }
            shrinkHistory(f, o.seed, sl, shrinkEach); f.choices.clear(); useHistory = true;
        }
        char name[64]; snprintf(name, sizeof name, "%s-%016llx.txt", o.property.c_str(), (unsigned long long)fnv(f.tag));
        std::string path = o.replayDir + "/" + name;
        std::ofstream out(path); out << "property: " << s.property << "\nsub: " << s.name << "\ntag: " << f.tag << "\nchoices:";
        for (auto c : f.choices) out << ' ' << c;
        if (useHistory) { out << "\nseed: " << o.seed << "\nhistory:"; for (auto& h : f.history) out << ' ' << subs()[h.first].name << ' ' << h.second; }
        out << "\n\n--- case ---\n" << f.trace << "\n--- failure ---\n" << f.msg << "\n";
        out.close();
        violations++;
        printf("FAILED %s (x%u, %zu choices)\n", f.tag.c_str(), tagCount[orig.tag], f.choices.size());
        printf("--- case ---\n%s--- failure ---\n%s\n", f.trace.substr(0, 3000).c_str(), f.msg.substr(0, 3500).c_str());
        printf("VIOLATION property=%s replay=%s\n", s.property, path.c_str());
    }
    double wall = now() - t0;
    printf("%s: %llu/%llu cases, %zu distinct non-trivial, %u violation(s), max case cpu %u ms, %.1f s%s\n", o.property.c_str(), (unsigned long long)evals,
        (unsigned long long)total, hs.size(), violations, cpuMax, wall, timeCut ? " (time budget reached)" : "");
    if (o.verbose) for (auto& l : labels) printf("   %-50s %llu\n", l.first.c_str(), (unsigned long long)l.second);

    if (!o.evidence.empty()) {
        std::ofstream e(o.evidence);
        e << "{\n \"property\": " << jstr(o.property) << ",\n \"tier\": " << jstr(o.tier) << ",\n \"seed\": " << o.seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << hs.size()
          << ",\n  \"planned\": " << total << ",\n  \"time_budget_reached\": " << (timeCut ? "true" : "false")
          << ",\n  \"known_findings_reproduced\": " << nf << ",\n  \"rule\": " << jstr(g_rule) << ",\n  \"subchecks\": {";
        bool first = true;
        for (unsigned i = 0; i < subs().size(); i++) { e << (first ? "" : ", ") << jstr(subs()[i].name) << ": " << counts[i]; first = false; }
        e << "},\n  \"labels\": {"; first = true;
        for (auto& l : labels) { e << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
        e << "},\n  \"samples\": ["; first = true; std::set<uint32_t> seen;
        for (unsigned w = 0; w < W; w++) for (unsigned k = 0; k < slots[w].nsamples; k++) {
            if (!seen.insert(slots[w].samples[k].sub).second) continue;
            e << (first ? "" : ",") << "\n   " << jstr(std::string(subs()[slots[w].samples[k].sub].name) + ": " + slots[w].samples[k].text); first = false; }
        e << "]\n },\n \"assumptions\": ["; first = true;
        { std::istringstream as(g_assumptions); std::string l; while (std::getline(as, l)) if (!l.empty()) { e << (first ? "" : ", ") << jstr(l); first = false; } }
        e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    return violations ? 1 : 0;
}
} // namespace pbt

int main(int argc, char** argv) { return pbt::mainEntry(argc, argv); }
