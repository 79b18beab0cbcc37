#include "specs.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
using namespace sim;
SIM_SPEC(L3, double, lagrange<3>(), OPT(conf = CONF_H1) OPT(poly = 3))
SIM_SPEC(L1, double, lagrange<1>(), OPT(conf = CONF_H1))
SIM_SPEC(R1, double, refinedLagrange<1>(), OPT(conf = CONF_H1) OPT(projection = false))
SIM_SPEC(R0, double, refinedLagrange<0>(), OPT(projection = false) OPT(poly = 0))
SIM_SPEC(H2, double, hierarchicalLagrange<2>(), OPT(conf = CONF_H1) OPT(projection = false) OPT(poly = 2))
SIM_SPEC(HB1, double, hierarchicalLagrangeWithElementBubble<1>(), OPT(conf = CONF_H1) OPT(projection = false))
SIM_SPEC(HB2, double, hierarchicalLagrangeWithElementBubble<2>(), OPT(conf = CONF_H1) OPT(projection = false) OPT(poly = 2))
SIM_CASE(lagrange3_OneD, OneDEnv, L3)
SIM_CASE(lagrange1_Y3, YaspEnv<3>, L1)
SIM_CASE(refinedLagrange1_S2, S2, R1)
SIM_CASE(refinedLagrange0_S3, S3, R0)
SIM_CASE(hierarchicalLagrange2_S3, S3, H2)
SIM_CASE(hierarchicalBubble1_S2, S2, HB1)
SIM_CASE(hierarchicalBubble2_S3, S3, HB2)
