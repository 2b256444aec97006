#include "scen.h"
namespace sim
{
vector<Scenario> const& scenarios()
{
    static vector<Scenario> const all = [] {
        vector<Scenario> v;
        SIM_ADD(v);
        return v;
    }();
    return all;
}
} // namespace sim
