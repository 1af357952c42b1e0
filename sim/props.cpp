#include "core.hpp"
namespace sim
{
#define P(id) Scenario gen_##id(u64); void exec_##id(const Scenario&);
#ifdef SIM_THREADS
    P(c08)
#else
    P(c01) P(c02) P(c03) P(c04) P(c05) P(c06) P(c07) P(c09) P(c10) P(c11) P(c12) P(c13) P(c14) P(c15) P(c16) P(c17) P(c18)
#endif
#undef P
    const std::vector<Property>& properties()
    {
        static const std::vector<Property> p = {
#ifdef SIM_THREADS
            {"C08", gen_c08, exec_c08},
#else
            {"C01", gen_c01, exec_c01},
            {"C02", gen_c02, exec_c02},
            {"C03", gen_c03, exec_c03},
            {"C04", gen_c04, exec_c04},
            {"C05", gen_c05, exec_c05},
            {"C06", gen_c06, exec_c06},
            {"C07", gen_c07, exec_c07},
            {"C09", gen_c09, exec_c09},
            {"C10", gen_c10, exec_c10},
            {"C11", gen_c11, exec_c11},
            {"C12", gen_c12, exec_c12},
            {"C13", gen_c13, exec_c13},
            {"C14", gen_c14, exec_c14},
            {"C15", gen_c15, exec_c15},
            {"C16", gen_c16, exec_c16},
            {"C17", gen_c17, exec_c17},
            {"C18", gen_c18, exec_c18},
#endif
        };
        return p;
    }
}
