// C24: two concurrent calls on disjoint data under every schedule with a bounded number of preemptions, at the granularity of
// scalar operations; each result must be bitwise the one of the isolated call.
#define MC_Y 1
#include "c24_cases.hpp"
using namespace c24;
typedef MC_T YT;

static const std::vector<Case>& CS()
{
    static std::vector<Case> c = cases<YT>();
    return c;
}
struct Job {
    int i, n, s;
};
static void call(const Job& j, Out& o, bool& threw)
{
    threw = false;
    o.d.clear();
    o.d.reserve(512);
    try {
        CS()[j.i].f(j.n, j.s, o);
    } catch (...) {
        threw = true;
    }
}
static std::pair<Out, bool> isolated(const Job& j, long& steps)
{
    std::pair<Out, bool> r;
    steps = ys::Sched::I().alone([&] { call(j, r.first, r.second); });
    return r;
}
static void explore(const Job& a, const Job& b, int bound, long maxSteps)
{
    int first = mc::range("first", 0, 1);
    mc::body();
    long la, lb;
    auto ra = isolated(a, la), rb = isolated(b, lb);
    if (getenv("C24V")) fprintf(stderr, "%s %d %ld\n", CS()[a.i].name, a.n, la);
    long la2;
    auto ra2 = isolated(a, la2);  // after another call: same result, same number of operations
    MC_CHECK(ra2.first == ra.first && ra2.second == ra.second && la2 == la, "history", "%s(n=%d) differs after %s(n=%d)", CS()[a.i].name, a.n, CS()[b.i].name, b.n);
    if (la + lb > maxSteps && bound > 1) bound = 1;
    std::pair<Out, bool> oa, ob;
    auto go = [&](const std::vector<long>& cuts) {
        ys::Sched::I().run([&] { call(a, oa.first, oa.second); }, [&] { call(b, ob.first, ob.second); }, first, cuts);
        mc::addStates(1, 1);
        bool ga = oa.first == ra.first && oa.second == ra.second, gb = ob.first == rb.first && ob.second == rb.second;
        if (!ga || !gb)
            mc::fail("interleaving", "%s(n=%d,s=%d) || %s(n=%d,s=%d), thread %d first, switches after scalar operations %ld %ld: result of %s differs from the isolated call", CS()[a.i].name, a.n, a.s, CS()[b.i].name, b.n, b.s, first, cuts[0], cuts.size() > 1 ? cuts[1] : 0L, ga ? CS()[b.i].name : CS()[a.i].name);
        return ga && gb;
    };
    long lf = first ? lb : la, tot = la + lb;
    for (long p = 1; p <= lf; ++p)
        if (!go({p})) return;
    if (bound > 1)
        for (long p = 1; p <= lf; ++p)
            for (long q = p + 1; q < tot; ++q)
                if (!go({p, q})) return;
}
MC_HARNESS(same)
{
    int k = (int)CS().size();
    int i = mc::range("i", 0, k - 1);
    int v = mc::range("v", 0, 3);
    Job a{i, v & 1 ? 3 : 2, 1}, b{i, v & 2 ? 3 : 2, 4};
    if (v == 3) b.n = mc::thorough() ? 5 : 4;
    explore(a, b, 2, mc::thorough() ? 900 : 260);
}
MC_HARNESS(cross)
{
    int k = (int)CS().size();
    int i = mc::range("i", 0, k - 1), j = mc::range("j", 0, k - 1);
    if (i == j) throw mc::Prune{};
    if (j < i && !mc::thorough()) throw mc::Prune{};
    explore(Job{i, 3, 2}, Job{j, 3, 5}, mc::thorough() ? 2 : 1, 160);
}
MC_MAIN
