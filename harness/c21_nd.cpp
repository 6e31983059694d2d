// The same call table compiled with the argument checks removed, in namespaces of its own.
#define CT_NS tlapack_nd
#define CT_TAB ctab_nd
#include "calltab.hpp"
extern "C" int c21_nd(int idx, Plain* p)
{
    try {
        const auto& c = ctab::TAB()[idx];
        c.call(ctab::X{*p}, p->o);
    } catch (...) {
        return 1;
    }
    return 0;
}
