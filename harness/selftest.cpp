// Engine self-test: counts a known tree and shows that failures and library assertions are reported.
#include "mc.hpp"
#include <cassert>
MC_HARNESS(selftest_count)
{
    int a = mc::choose("a", 3), b = mc::range("b", 0, 4);
    mc::require(b != 2);
    mc::body();
    mc::mix(a * 7 + b);
}
MC_HARNESS(selftest_fail)
{
    int a = mc::choose("a", 4);
    mc::body();
    if (a == 3) mc::fail("seeded", "expected");
}
MC_HARNESS(selftest_assert)
{
    int a = mc::choose("a", 4);
    mc::body();
    assert(a != 2);
}
MC_MAIN
