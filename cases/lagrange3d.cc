#include "specs.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
using namespace sim;
SIM_SPEC(L1, double, lagrange<1>(), OPT(conf = CONF_H1))
SIM_SPEC(L2, double, lagrange<2>(), OPT(conf = CONF_H1) OPT(poly = 2))
SIM_SPEC(L3, double, lagrange<3>(), OPT(conf = CONF_H1) OPT(poly = 3))
SIM_CASE(lagrange1_M3, M3, L1)
SIM_CASE(lagrange2_M3, M3, L2)
SIM_CASE(lagrange3_S3, S3, L3)
SIM_CASE(lagrange3_C3, C3, L3)
