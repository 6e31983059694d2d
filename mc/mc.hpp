// mc.hpp -- stateless exhaustive explorer over the real tlapack code.
//
// A harness is a function that obtains every piece of nondeterminism (option, shape, operand value,
// poison pattern, scheduling decision, ...) from mc::choose().  The engine enumerates, by depth-first
// re-execution, EVERY sequence of answers (no sampling, no time cap), runs the harness once per leaf
// and lets it compare the implementation with a reference model.  mc::body() separates the (cheap)
// choice phase from the (expensive) execution of the code under test; leaves are dealt to shards there.
#pragma once
#include <sys/mman.h>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <initializer_list>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Prune {};
struct Skip {};
struct Fail {
    std::string key, msg;
};

struct Step {
    const char* name;
    int n, v;
    long val;  // value shown to humans
};

struct Known {
    std::string harness, key;
    std::vector<std::pair<std::string, long>> when;
    std::string text;
    long hits = 0;
};

struct Progress {
    volatile int harness;
    volatile int depth;
    volatile int v[256];
};

struct Engine {
    // configuration
    int shard = 0, nshards = 1, tier = 0;
    const char* unit = "unit";
    std::vector<Known> known;
    FILE* out = nullptr;
    Progress* prog = nullptr;
    bool replaying = false;
    int leafCpuSeconds = 40;
    // current path
    std::vector<Step> path;
    size_t pos = 0;
    size_t bodyDepth = 0;
    bool inBody = false;
    long unitIndex = 0;       // leaves (at body()) seen so far in this harness
    size_t pending = (size_t)-1;
    size_t changedFrom = 0;   // depth of the first choice that differs from the previous execution
    // statistics of the current harness
    uint64_t states = 0, transitions = 0, leaves = 0, extraStates = 0, extraTrans = 0, checks = 0;
    uint64_t prefixStates = 0;
    std::unordered_set<uint64_t> outcomes;
    uint64_t outcome = 0;
    std::vector<std::string> samples;
    int unmatched = 0, maxUnmatched = 5;
    std::string curHarness;
    sigjmp_buf jb;
    volatile int jbActive = 0;
    char assertMsg[600];
};
inline Engine& E()
{
    static Engine e;
    return e;
}

typedef void (*Fn)();
struct Harness {
    const char* name;
    Fn fn;
};
inline std::vector<Harness>& registry()
{
    static std::vector<Harness> r;
    return r;
}
struct Reg {
    Reg(const char* n, Fn f) { registry().push_back({n, f}); }
};
#define MC_HARNESS(nm)                      \
    static void nm();                       \
    static mc::Reg mc_reg_##nm(#nm, nm);    \
    static void nm()

inline int tier() { return E().tier; }
inline bool thorough() { return E().tier > 0; }

/// One nondeterministic choice: every value 0..n-1 is explored.
inline int choose(const char* name, int n)
{
    Engine& e = E();
    if (n <= 0) throw Prune{};
    if (e.pos < e.path.size()) {
        Step& s = e.path[e.pos];
        if (e.replaying) { s.name = name; s.n = n; }
        if (s.n != n || strcmp(s.name, name) != 0 || s.v >= n) {
            fprintf(stderr, "mc: replay divergence at depth %zu: %s/%d vs %s/%d\n", e.pos, s.name, s.n, name, n);
            _exit(97);
        }
        s.val = s.v;
        e.pos++;
        return s.v;
    }
    if (e.replaying) {
        fprintf(stderr, "mc: replay path too short at %s\n", name);
        _exit(97);
    }
    e.path.push_back({name, n, 0, 0});
    e.pos++;
    return 0;
}
inline void note(long v)
{
    Engine& e = E();
    e.path[e.pos - 1].val = v;
}
template <class T>
inline T pick(const char* name, std::initializer_list<T> l)
{
    int i = choose(name, (int)l.size());
    T v = *(l.begin() + i);
    note((long)v);
    return v;
}
template <class T>
inline T pickv(const char* name, const std::vector<T>& l)
{
    int i = choose(name, (int)l.size());
    T v = l[i];
    note((long)v);
    return v;
}
inline int range(const char* name, int lo, int hi)  // inclusive
{
    if (hi < lo) throw Prune{};
    int v = lo + choose(name, hi - lo + 1);
    note(v);
    return v;
}
inline bool flag(const char* name) { return choose(name, 2) == 1; }
inline void require(bool c)
{
    if (!c) throw Prune{};
}
/// End of the choice phase of a leaf.
inline std::string describe();
inline void body()
{
    Engine& e = E();
    e.bodyDepth = e.pos;
    e.inBody = true;
    if (e.replaying) {
        printf("replaying %s: %s\n", e.curHarness.c_str(), describe().c_str());
        fflush(stdout);
    }
    bool fresh = e.changedFrom < e.bodyDepth || e.unitIndex == 0;
    if (fresh) {
        e.unitIndex++;
        size_t nn = e.bodyDepth - (e.changedFrom < e.bodyDepth ? e.changedFrom : e.bodyDepth);
        e.prefixStates += nn;
    }
    if (!e.replaying && (e.unitIndex - 1) % e.nshards != e.shard) throw Skip{};
    if (e.prog) {
        e.prog->depth = (int)e.path.size();
        for (size_t i = 0; i < e.path.size() && i < 256; ++i) e.prog->v[i] = e.path[i].v;
    }
}
inline void addStates(uint64_t s, uint64_t t)
{
    E().extraStates += s;
    E().extraTrans += t;
}
inline void mix(uint64_t h)
{
    uint64_t& o = E().outcome;
    o ^= h + 0x9e3779b97f4a7c15ull + (o << 6) + (o >> 2);
}
inline void mixd(double d)
{
    uint64_t u;
    memcpy(&u, &d, 8);
    mix(u);
}
[[noreturn]] inline void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void fail(const char* key, const char* fmt, ...)
{
    char buf[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Fail{key, buf};
}
#define MC_CHECK(cond, key, ...)                  \
    do {                                          \
        mc::E().checks++;                         \
        if (!(cond)) mc::fail(key, __VA_ARGS__);  \
    } while (0)

inline std::string describe()
{
    std::string s;
    char b[128];
    for (size_t i = 0; i < E().pos && i < E().path.size(); ++i) {
        auto& st = E().path[i];
        snprintf(b, sizeof b, "%s%s=%ld", i ? " " : "", st.name, st.val);
        s += b;
    }
    return s;
}
inline std::string pathStr()
{
    std::string s;
    for (size_t i = 0; i < E().path.size(); ++i) s += (i ? "," : "") + std::to_string(E().path[i].v);
    return s;
}
inline std::string jesc(const std::string& s)
{
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}
inline Known* matchKnown(const std::string& key)
{
    for (auto& k : E().known) {
        if (k.harness != E().curHarness) continue;
        if (!k.key.empty() && k.key != key) continue;
        bool ok = true;
        for (auto& w : k.when) {
            bool found = false;
            for (auto& s : E().path)
                if (w.first == s.name && w.second == s.val) found = true;
            if (!found) { ok = false; break; }
        }
        if (ok) return &k;
    }
    return nullptr;
}
inline void reportViolation(const std::string& key, const std::string& msg)
{
    Engine& e = E();
    if (Known* k = e.replaying ? nullptr : matchKnown(key)) {
        k->hits++;
        return;
    }
    e.unmatched++;
    fprintf(e.out, "{\"violation\":{\"unit\":\"%s\",\"harness\":\"%s\",\"path\":\"%s\",\"key\":\"%s\",\"where\":\"%s\",\"msg\":\"%s\"}}\n",
            e.unit, e.curHarness.c_str(), pathStr().c_str(), jesc(key).c_str(), jesc(describe()).c_str(), jesc(msg).c_str());
    fflush(e.out);
}

inline void armTimer(int s)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = s;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

/// Executes one leaf. Returns false if pruned/skipped.
inline bool runLeaf(Fn fn)
{
    Engine& e = E();
    e.pos = 0;
    e.inBody = false;
    e.bodyDepth = 0;
    e.outcome = 0;
    bool counted = false;
    if (sigsetjmp(e.jb, 0) == 0) {
        e.jbActive = 1;
        try {
            fn();
            counted = true;
        }
        catch (Prune&) {
        }
        catch (Skip&) {
        }
        catch (Fail& f) {
            counted = true;
            reportViolation(f.key, f.msg);
        }
        catch (std::exception& ex) {
            counted = true;
            reportViolation("exception", std::string("unexpected exception: ") + ex.what());
        }
        e.jbActive = 0;
    }
    else {
        e.jbActive = 0;
        counted = true;
        reportViolation("assert", std::string("assertion failed inside the library: ") + e.assertMsg);
    }
    if (counted) {
        e.leaves++;
        if (e.path.size() > e.bodyDepth) {
            size_t from = e.changedFrom > e.bodyDepth ? e.changedFrom : e.bodyDepth;
            e.states += e.path.size() - from;
        }
        if (e.outcomes.size() < 400000) e.outcomes.insert(e.outcome);
        if (e.samples.size() < 2 || (e.leaves & (e.leaves - 1)) == 0) {
            if (e.samples.size() >= 4) e.samples.erase(e.samples.begin() + 1);
            e.samples.push_back(describe());
        }
    }
    return counted;
}

inline void runHarness(const Harness& h, int idx)
{
    Engine& e = E();
    e.curHarness = h.name;
    e.path.clear();
    e.unitIndex = 0;
    e.changedFrom = 0;
    e.pending = 0;
    e.states = e.leaves = e.extraStates = e.extraTrans = e.checks = e.prefixStates = 0;
    e.outcomes.clear();
    e.samples.clear();
    e.unmatched = 0;
    if (e.prog) e.prog->harness = idx;
    uint64_t sinceArm = 0;
    armTimer(e.leafCpuSeconds);
    struct timeval tv0;
    gettimeofday(&tv0, nullptr);
    while (true) {
        if (runLeaf(h.fn)) {
            // re-arm the per-leaf CPU-time limit (cheaply: at most one leaf late)
            if ((++sinceArm & 15) == 0 || true) armTimer(e.leafCpuSeconds);
        }
        if (e.unmatched >= e.maxUnmatched) break;
        // the harness may have stopped early (prune): drop unexplored tail
        if (e.path.size() > e.pos) e.path.resize(e.pos);
        while (!e.path.empty() && e.path.back().v + 1 >= e.path.back().n) e.path.pop_back();
        if (e.path.empty()) break;
        e.path.back().v++;
        // a leaf that reached body() has been accounted for; pruned ones hand their change on
        e.pending = e.inBody ? e.path.size() - 1 : (e.pending < e.path.size() - 1 ? e.pending : e.path.size() - 1);
        e.changedFrom = e.pending;
    }
    armTimer(0);
    struct timeval tv1;
    gettimeofday(&tv1, nullptr);
    double wall = (tv1.tv_sec - tv0.tv_sec) + 1e-6 * (tv1.tv_usec - tv0.tv_usec);
    fprintf(e.out, "{\"stats\":{\"unit\":\"%s\",\"harness\":\"%s\",\"prefix_states\":%llu,\"states\":%llu,\"transitions\":%llu,\"leaves\":%llu,\"checks\":%llu,\"outcomes\":%zu,\"units\":%ld,\"complete\":%s,\"wall\":%.3f,\"samples\":[",
            e.unit, h.name, (unsigned long long)(e.prefixStates), (unsigned long long)(e.states + e.extraStates), (unsigned long long)e.extraTrans,
            (unsigned long long)e.leaves, (unsigned long long)e.checks, e.outcomes.size(), e.unitIndex, e.unmatched >= e.maxUnmatched ? "false" : "true", wall);
    for (size_t i = 0; i < e.samples.size(); ++i) fprintf(e.out, "%s\"%s\"", i ? "," : "", jesc(e.samples[i]).c_str());
    fprintf(e.out, "]}}\n");
    fflush(e.out);
}

// known-findings file: lines  "KNOWN-FINDING: property=<id> harness=<h> key=<k> when=<a=1;b=2> <text>"
inline void loadKnown(const char* file, const char* prop)
{
    FILE* f = fopen(file, "r");
    if (!f) return;
    char line[4000];
    while (fgets(line, sizeof line, f)) {
        if (strncmp(line, "KNOWN-FINDING: ", 15) != 0) continue;
        Known k;
        std::string p;
        char* s = line + 15;
        while (true) {
            while (*s == ' ') s++;
            if (strncmp(s, "property=", 9) != 0 && strncmp(s, "harness=", 8) != 0 && strncmp(s, "key=", 4) != 0 && strncmp(s, "when=", 5) != 0) break;
            char* eq = strchr(s, '=');
            std::string name(s, eq - s);
            char* end = eq + 1;
            while (*end && *end != ' ' && *end != '\n') end++;
            std::string val(eq + 1, end - eq - 1);
            s = end;
            if (name == "property") p = val;
            else if (name == "harness") k.harness = val;
            else if (name == "key") k.key = val;
            else {
                size_t i = 0;
                while (i < val.size()) {
                    size_t j = val.find(';', i);
                    if (j == std::string::npos) j = val.size();
                    std::string c = val.substr(i, j - i);
                    size_t q = c.find('=');
                    if (q != std::string::npos) k.when.push_back({c.substr(0, q), atol(c.c_str() + q + 1)});
                    i = j + 1;
                }
            }
        }
        k.text = s;
        while (!k.text.empty() && k.text.back() == '\n') k.text.pop_back();
        if (p == prop) E().known.push_back(k);
    }
    fclose(f);
}

inline int main_(int argc, char** argv)
{
    Engine& e = E();
    e.out = stdout;
    const char *only = nullptr, *replay = nullptr, *knownFile = nullptr, *prop = "";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&]() -> char* { return argv[++i]; };
        if (a == "--shard") { sscanf(nxt(), "%d/%d", &e.shard, &e.nshards); }
        else if (a == "--tier") e.tier = atoi(nxt());
        else if (a == "--only") only = nxt();
        else if (a == "--replay") replay = nxt();
        else if (a == "--unit") e.unit = nxt();
        else if (a == "--known") knownFile = nxt();
        else if (a == "--property") prop = nxt();
        else if (a == "--max-violations") e.maxUnmatched = atoi(nxt());
        else if (a == "--leaf-cpu") e.leafCpuSeconds = atoi(nxt());
        else if (a == "--out") { e.out = fopen(nxt(), "w"); }
        else if (a == "--progress") {
            int fd = open(nxt(), O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0)
                e.prog = (Progress*)mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (e.prog == MAP_FAILED) e.prog = nullptr;
        }
        else if (a == "--list") {
            for (auto& h : registry()) puts(h.name);
            return 0;
        }
    }
    if (knownFile) loadKnown(knownFile, prop);
    int idx = 0;
    for (auto& h : registry()) {
        if (!only || !strcmp(only, h.name)) {
            if (replay) {
                e.replaying = true;
                e.curHarness = h.name;
                for (const char* p = replay; *p;) {
                    char* q;
                    long v = strtol(p, &q, 10);
                    e.path.push_back({"?", 1 << 30, (int)v, v});
                    p = *q ? q + 1 : q;
                    if (q == p) break;
                }
                armTimer(e.leafCpuSeconds);
                runLeaf(h.fn);
                armTimer(0);
                printf("replay %s: %s\n", h.name, describe().c_str());
                return e.unmatched ? 1 : 0;
            }
            runHarness(h, idx);
        }
        idx++;
    }
    for (auto& k : e.known)
        if (k.hits) fprintf(e.out, "{\"known\":{\"harness\":\"%s\",\"key\":\"%s\",\"hits\":%ld,\"text\":\"%s\"}}\n", k.harness.c_str(), k.key.c_str(), k.hits, jesc(k.text).c_str());
    fprintf(e.out, "{\"done\":true}\n");
    fflush(e.out);
    return 0;
}
}  // namespace mc

// Library assertions (LegacyMatrix index monitors etc.) are turned into reported violations.
extern "C" inline void mc_assert_hook(const char* expr, const char* file, unsigned line, const char* fn)
{
    auto& e = mc::E();
    const char* b = strrchr(file, '/');
    snprintf(e.assertMsg, sizeof e.assertMsg, "%s:%u: %s (%.200s)", b ? b + 1 : file, line, expr, fn);
    if (e.jbActive) siglongjmp(e.jb, 1);
    fprintf(stderr, "assert: %s\n", e.assertMsg);
    abort();
}
#define MC_MAIN                                                                                        \
    extern "C" void __assert_fail(const char* a, const char* f, unsigned l, const char* fn) noexcept  \
    {                                                                                                  \
        mc_assert_hook(a, f, l, fn);                                                                   \
        abort();                                                                                       \
    }                                                                                                  \
    int main(int argc, char** argv) { return mc::main_(argc, argv); }
