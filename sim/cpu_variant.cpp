// C14: the library built for other processors: its namespace is renamed (-Dunicode=...), and what it asks
// the processor is answered by the same simulated machine.
#include "scen_cpu.h"

#if defined(SIM_VARIANT_DETECTS)
namespace unicode::detail
{
size_t max_simd_size()
{
    return sim::cpu::boundWidth();
}
} // namespace unicode::detail
#endif

namespace sim::cpu
{
namespace
{
    struct Enlist
    {
        Variant v { SIM_VARIANT, call, variants };
        Enlist() { variants = &v; }
    } enlist;
} // namespace
} // namespace sim::cpu
