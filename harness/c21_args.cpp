// C21: every option character (valid and invalid) x every base shape x every deviation of up to two operand dimensions; acceptance is
// compared with the table of documented requirements, rejected calls must leave every byte unchanged, and a build with the argument
// checks compiled out (linked into the same program under another namespace) must give bitwise the same results on valid calls.
#include "calltab_run.hpp"
using namespace crun;
extern "C" int c21_nd(int idx, Plain* p);  // runs case idx in the build without checks; 0 ok, 1 exception

MC_HARNESS(args)
{
    int d[40];
    char o[8];
    int bad;
    const Case& c = select(d, o, mc::thorough() ? 1 : 0, bad, false);
    // deviations of operand dimensions
    std::vector<int> co;
    for (size_t k = 0; k < c.kinds.size(); ++k) {
        co.push_back(2 * k);
        if (isMat(c.kinds[k])) co.push_back(2 * k + 1);
    }
    int maxDev = bad ? 0 : mc::thorough() ? 3 : 2, from = 0, ndev = 0;
    static const int del[] = {-1, 1, 2, -2};
    static const char* nmw[] = {"which dimension", "which dimension 2", "which dimension 3"};
    static const char* nmd[] = {"change", "change 2", "change 3"};
    for (int s = 0; s < maxDev; ++s) {
        int w = mc::choose(nmw[s], (int)co.size() - from + 1);
        if (w == 0) break;
        int i = from + w - 1;
        int dl = del[mc::choose(nmd[s], s == 0 ? 4 : 2)];
        d[co[i]] += dl;
        ++ndev;
        mc::require(d[co[i]] >= 0 && d[co[i]] <= 7);
        from = i + 1;
        if (from == (int)co.size()) break;
    }
    int want = c.ok(d, o);
    mc::require(want >= 0);
    if (bad) mc::require(want == 0);
    mc::body();
    Arena a(c, d, o);
    if (want == 1) c.prep(a.p);
    Arena before(a), nd(a);
    int got = 1;  // 1 accepted, 0 rejected by a check, 2 another exception
    std::string what;
    try {
        c.call(ctab::X{a.p}, o);
    } catch (const std::domain_error& e) {
        got = 0;
        what = e.what();
    } catch (const std::exception& e) {
        got = 2;
        what = e.what();
    }
    mc::mix((unsigned)(got * 2 + want));
    if (want == 0) {
        bool empty = false;
        for (int q : co) empty |= d[q] == 0;
        MC_CHECK(got != 1 || (c.quick && empty), "accepted", "%s: accepted although the documented requirements are violated", show(c, d, o).c_str());
        for (size_t k = 0; k < a.bufs.size(); ++k)
            MC_CHECK(a.bufs[k].mem == before.bufs[k].mem, "modified", "%s: rejected (%s) after operand %d had been modified", show(c, d, o).c_str(), what.c_str(), (int)k);
        return;
    }
    MC_CHECK(got != 0, "rejected", "%s: consistent call rejected: %s", show(c, d, o).c_str(), what.c_str());
    const int idx = &c - &ctab::TAB()[0];
    if (got == 1) {
        int g2 = c21_nd(idx, &nd.p);
        MC_CHECK(g2 == 0, "ndebug", "%s: throws only in the build without argument checks", show(c, d, o).c_str());
        for (size_t k = 0; k < a.bufs.size(); ++k)
            MC_CHECK(a.bufs[k].mem == nd.bufs[k].mem, "ndebug", "%s: operand %d differs between the builds with and without argument checks", show(c, d, o).c_str(), (int)k);
        MC_CHECK(a.p.nres == nd.p.nres && memcmp(a.p.res, nd.p.res, sizeof(double) * a.p.nres) == 0, "ndebug", "%s: returned values differ between the builds with and without argument checks", show(c, d, o).c_str());
    }
}
MC_MAIN
