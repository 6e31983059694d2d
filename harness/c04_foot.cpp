// C04: every option combination x every small shape of every routine in the call table. The call is executed twice on the same referenced
// data: once with arbitrary finite values and once with NaN in every location that is not referenced (opposite triangle, unit diagonal,
// imaginary part of a Hermitian diagonal, pure outputs, gaps between columns, rows or vector elements, memory around the view). All
// documented outputs and returned values must agree bit for bit, everything else must keep every bit.
#include "calltab_run.hpp"
using namespace crun;

static int runCase(const Case& c, Plain& p, const char* o)
{
    try {
        c.call(ctab::X{p}, o);
    } catch (const mc::Fail&) {
        throw;
    } catch (const std::exception&) {
        return 1;
    }
    return 0;
}
MC_HARNESS(footprint)
{
    int d[40];
    char o[8];
    int bad;
    const Case& c = select(d, o, mc::thorough() ? 4 : 2, bad, true);
    mc::require(c.ok(d, o) == 1);
    for (int i = 0; i < 40; ++i) mc::require(d[i] <= 15);
    int fam = mc::choose("data", mc::thorough() ? 3 : 2);
    mc::body();
    ctab::Foot f;
    c.foot(d, o, f);
    Arena a(c, d, o);
    if (fam)
        for (size_t k = 0; k < a.bufs.size(); ++k)
            if (a.bufs[k].kind != 'N')
                for (int i = 0; i < NEL; ++i) setEl(a.bufs[k], i, val(k + 3, i + 1000 * fam), val(k + 29, i + 1000 * fam));
    c.prep(a.p);
    Arena b(a);
    // masks over the whole buffer: -1 outside the view
    std::vector<std::vector<signed char>> rd(a.bufs.size()), wr(a.bufs.size());
    for (size_t k = 0; k < a.bufs.size(); ++k) {
        char kind = a.bufs[k].kind;
        if (kind == 'N') continue;
        rd[k].assign(NEL, 0);
        wr[k].assign(NEL, 0);
        int m = d[2 * k], n = isMat(kind) ? d[2 * k + 1] : 1;
        for (int j = 0; j < n; ++j)
            for (int i = 0; i < m; ++i) {
                rd[k][at(kind, i, j)] = f.rd[k] ? f.rd[k](i, j) : 1;
                wr[k][at(kind, i, j)] = f.wr[k] ? f.wr[k](i, j) : 0;
            }
        for (int i = 0; i < NEL; ++i)
            if (rd[k][i] != 1) poison(b.bufs[k], i, rd[k][i]);
    }
    Arena a0(a), b0(b);
    int ra = runCase(c, a.p, o), rb = runCase(c, b.p, o);
    MC_CHECK(ra == rb, "depends", "%s: ends differently when unreferenced data changes", show(c, d, o).c_str());
    for (size_t k = 0; k < a.bufs.size(); ++k) {
        char kind = a.bufs[k].kind;
        if (kind == 'N') continue;
        size_t es = a.bufs[k].es;
        auto where = [&](int idx) {
            int m = d[2 * k], n = isMat(kind) ? d[2 * k + 1] : 1;
            for (int j = 0; j < n; ++j)
                for (int i = 0; i < m; ++i)
                    if (at(kind, i, j) == idx) return "(" + std::to_string(i) + "," + std::to_string(j) + ")";
            return "outside the view (buffer index " + std::to_string(idx) + ")";
        };
        for (int i = 0; i < NEL; ++i) {
            const unsigned char *pa = a.bufs[k].mem.data() + i * es, *pb = b.bufs[k].mem.data() + i * es;
            if (wr[k][i] == 0) {
                MC_CHECK(memcmp(pa, a0.bufs[k].mem.data() + i * es, es) == 0 && memcmp(pb, b0.bufs[k].mem.data() + i * es, es) == 0, "written", "%s: operand %d element %s is not an output but was modified", show(c, d, o).c_str(), (int)k, where(i).c_str());
            } else if (wr[k][i] != 3) {
                MC_CHECK(memcmp(pa, pb, es) == 0, "depends", "%s: operand %d element %s depends on unreferenced data", show(c, d, o).c_str(), (int)k, where(i).c_str());
                uint64_t h = 0;
                memcpy(&h, pa, es < 8 ? es : 8);
                mc::mix(h);
            }
        }
    }
    MC_CHECK(a.p.nres == b.p.nres && memcmp(a.p.res, b.p.res, sizeof(double) * a.p.nres) == 0, "depends", "%s: the returned value depends on unreferenced data", show(c, d, o).c_str());
}
MC_MAIN
