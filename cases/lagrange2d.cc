#include "specs.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
using namespace sim;
SIM_SPEC(L1, double, lagrange<1>(), OPT(conf = CONF_H1) OPT(rich = true))
SIM_SPEC(L2, double, lagrange<2>(), OPT(conf = CONF_H1) OPT(poly = 2))
SIM_SPEC(L3, double, lagrange<3>(), OPT(conf = CONF_H1) OPT(poly = 3))
SIM_SPEC(L4, double, lagrange<4>(), OPT(conf = CONF_H1) OPT(poly = 4))
SIM_SPEC(L0, double, lagrange<0>(),  OPT(poly = 0))
SIM_CASE(lagrange1_M2, M2, L1)
SIM_CASE(lagrange2_M2, M2, L2)
SIM_CASE(lagrange3_M2, M2, L3)
SIM_CASE(lagrange4_S2, S2, L4)
SIM_CASE(lagrange0_M2, M2, L0)
