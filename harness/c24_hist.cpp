// C24: every call history up to a depth over the routine alphabet (in forked processes, with different memory contents) gives the
// result of the same call made first in a fresh process; random vectors depend only on, and advance only, the caller's seed.
#include "c24_cases.hpp"
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <random>
using namespace c24;
typedef MC_T T;
typedef tl::real_type<T> R;

static const std::vector<Case>& CS()
{
    static std::vector<Case> c = cases<T>();
    return c;
}
struct Job {
    int i, n, s;
    bool operator<(const Job& o) const { return std::tie(i, n, s) < std::tie(o.i, o.n, o.s); }
};
__attribute__((noinline)) static void scribble(unsigned char c)
{
    volatile unsigned char b[200000];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = c;
}
static void call(const Job& j, Out& o)
{
    o.d.clear();
    try {
        CS()[j.i].f(j.n, j.s, o);
    } catch (const std::exception&) {
        o.d.assign(1, 4711);
    }
}
// runs f in a child process; its output numbers come back through shared memory
static Out inChild(std::function<void(Out&)> f, bool& ok)
{
    const size_t CAP = 1 << 16;
    static double* sh = (double*)mmap(0, CAP * sizeof(double), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh[0] = -1;
    fflush(0);
    pid_t p = fork();
    if (p == 0) {
        Out o;
        try {
            f(o);
        } catch (...) {
            _exit(3);
        }
        if (o.d.size() + 1 < CAP) {
            memcpy(sh + 1, o.d.data(), o.d.size() * sizeof(double));
            sh[0] = (double)o.d.size();
        }
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    ok = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[0] >= 0;
    Out o;
    if (ok) o.d.assign(sh + 1, sh + 1 + (size_t)sh[0]);
    return o;
}
static const Out& baseline(const Job& j)
{
    static std::map<Job, Out> memo;
    auto it = memo.find(j);
    if (it != memo.end()) return it->second;
    bool ok;
    Out o = inChild([&](Out& q) { call(j, q); }, ok);
    MC_CHECK(ok, "crash", "%s(n=%d,s=%d) alone in a fresh process does not return", CS()[j.i].name, j.n, j.s);
    return memo[j] = o;
}
static const int SIZES[] = {2, 3, 5, 8, 1};
static Job job(int i, int v) { return Job{i, v == 0 ? 3 : v == 1 ? 5 : v == 2 ? 4 : 2, v == 1 ? 6 : v == 3 ? 9 : 2}; }

MC_HARNESS(histories)
{
    int k = (int)CS().size();
    int j = mc::range("j", 0, k - 1), vj = mc::range("vj", 0, mc::thorough() ? 3 : 1);
    int fill = mc::pick("fill", {0, 0xFF, 0x3F});
    int d = mc::range("d", 0, 2);  // number of earlier calls
    if (d == 2 && !mc::thorough() && fill != 0xFF) throw mc::Prune{};
    mc::body();
    Job t = job(j, vj);
    const Out& ref = baseline(t);
    auto check = [&](const std::vector<Job>& pre) {
        bool ok;
        Out o = inChild(
            [&](Out& q) {
                if (fill) mallopt(M_PERTURB, fill);
                mallopt(M_MMAP_THRESHOLD, 1 << 30);
                Out w;
                for (auto& x : pre) call(x, w);
                scribble(fill ? fill ^ 0xFF ^ 0x0F : 0);
                call(t, q);
            },
            ok);
        mc::addStates(1, 1);
        std::string h;
        for (auto& x : pre) h += std::string(CS()[x.i].name) + "(n=" + std::to_string(x.n) + ",s=" + std::to_string(x.s) + "); ";
        MC_CHECK(ok, "crash", "history [%s] memory fill %02x: %s(n=%d,s=%d) does not return", h.c_str(), fill, CS()[t.i].name, t.n, t.s);
        MC_CHECK(o == ref, "history", "history [%s] memory fill %02x: %s(n=%d,s=%d) differs from the same call in a fresh process", h.c_str(), fill, CS()[t.i].name, t.n, t.s);
    };
    if (d == 0) check({});
    else if (d == 1) {
        for (int i = 0; i < k; ++i)
            for (int v = 0; v < 4; ++v) check({job(i, v)});
    }
    else {
        // two earlier calls: every pair of routines in the thorough tier, every pair containing the same routine otherwise
        for (int i = 0; i < k; ++i)
            for (int l = 0; l < k; ++l)
                if (mc::thorough() || i == j || l == j) check({job(i, 1), job(l, 2)});
    }
}
template <int idist, class S>
static void rnd(S& seed, Vx<T>& x)
{
    auto v = x.view();
    tl::larnv<idist>(seed, v);
}
template <class S>
static void draw(int idist, S& seed, Vx<T>& x)
{
    if (idist == 1) rnd<1>(seed, x);
    if (idist == 2) rnd<2>(seed, x);
    if (idist == 3) rnd<3>(seed, x);
    if (idist == 4) rnd<4>(seed, x);
    if (idist == 5) rnd<5>(seed, x);
}
template <class S>
static void larnvSeed(S s0)
{
    int idist = mc::range("idist", 1, tl::is_complex<T> ? 5 : 3), n = mc::pick("n", {0, 1, 2, 7, 64});
    std::vector<std::pair<int, S>> hist;
    int h = mc::range("h", 0, 2);
    int hd = h ? mc::range("hd", 1, 3) : 1;
    mc::body();
    Vx<T> a(n, 1), b(n, 2), c(9, 1);
    S s1 = s0;
    draw(idist, s1, a);
    MC_CHECK(s1 == (S)(s0 + 1), "seed", "idist=%d: seed %lld became %lld", idist, (long long)s0, (long long)s1);
    // an independent stream in between
    S other = h == 1 ? s0 : (S)(s0 + 17);
    if (h) {
        draw(hd, other, c);
        MC_CHECK(s1 == (S)(s0 + 1), "seed", "another stream changed this seed");
    }
    S s2 = s0;
    draw(idist, s2, b);
    MC_CHECK(s2 == s1, "seed", "seed after the same call differs");
    MC_CHECK(n == 0 || memcmp(a.v.data(), b.v.data(), n * sizeof(T)) == 0, "stream", "idist=%d n=%d seed %lld: same seed, different vector (n earlier draws: %d)", idist, n, (long long)s0, h);
    // documented range, and the definition: one distribution fed by the Mersenne Twister seeded with the given seed
    for (int i = 0; i < n; ++i) {
        double re, im = 0;
        { re = c24::re(a.v[i]); im = c24::im(a.v[i]); }
        double r2 = re * re + im * im, e = 8 * std::numeric_limits<R>::epsilon();
        bool ok = std::isfinite(re) && std::isfinite(im);
        if (idist == 1) ok = ok && re >= 0 && re <= 1 && im >= 0 && im <= 1;
        if (idist == 2) ok = ok && re >= -1 && re <= 1 && im >= -1 && im <= 1;
        if (idist == 4) ok = ok && r2 <= 1 + e;
        if (idist == 5) ok = ok && r2 <= 1 + e && r2 >= 1 - e;
        MC_CHECK(ok, "range", "idist=%d seed %lld: entry %d = (%g,%g) outside the documented range", idist, (long long)s0, i, re, im);
    }
    // the values vary over the vector, and a prefix does not depend on the length
    if (n == 64) {
        bool same = true;
        for (int i = 1; i < n; ++i) same = same && a.v[i] == a.v[0];
        MC_CHECK(!same, "range", "idist=%d seed %lld: constant vector", idist, (long long)s0);
        double m1 = 0, m2 = 0, k = tl::is_complex<T> ? 2 * n : n;
        for (int i = 0; i < n; ++i) {
            double re, im = 0;
            { re = c24::re(a.v[i]); im = c24::im(a.v[i]); }
            m1 += re + im;
            m2 += re * re + im * im;
        }
        m1 /= k; m2 /= k;
        // first two moments, at more than 6 standard deviations of the mean of k values
        double mu = idist == 1 ? 0.5 : 0, ms = idist == 1 ? 1. / 3 : idist == 2 ? 1. / 3 : idist == 3 ? 1 : idist == 4 ? 0.25 : 0.5;
        MC_CHECK(std::fabs(m1 - mu) < 8 / std::sqrt(k) && std::fabs(m2 - ms) < 8 * 1.5 / std::sqrt(k), "moments", "idist=%d seed %lld: mean %g mean square %g", idist, (long long)s0, m1, m2);
        Vx<T> p(7);
        S s3 = s0;
        draw(idist, s3, p);
        MC_CHECK(memcmp(a.v.data(), p.v.data(), 7 * sizeof(T)) == 0, "stream", "idist=%d: a shorter vector is not a prefix", idist);
    }
}
MC_HARNESS(larnv)
{
    int t = mc::range("t", 0, 2);
    long hi = mc::thorough() ? 300 : 40;
    long c = mc::range("c", 0, (int)hi + 3);
    long sp[4] = {2147483646, 123456789, 40013, 1000000007};
    long s = c < hi ? c : sp[c - hi];
    if (t == 0) larnvSeed<int>((int)s);
    if (t == 1) larnvSeed<size_t>((size_t)s);
    if (t == 2) larnvSeed<uint32_t>((uint32_t)(c == hi ? 4294967294u : s));
}
MC_MAIN
