#include "specs.hh"
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
using namespace sim;
template<int d> using V = Dune::FieldVector<double, d>;
SIM_SPEC(RT0_2, V<2>, raviartThomas<0>(), OPT(conf = CONF_DIV) OPT(poly = 0))
SIM_SPEC(RT1_2, V<2>, raviartThomas<1>(), OPT(orient = 1) OPT(conf = CONF_DIV))
SIM_SPEC(BDM1_2, V<2>, brezziDouglasMarini<1>(), OPT(orient = 1) OPT(conf = CONF_DIV))
SIM_SPEC(BDM2_2, V<2>, brezziDouglasMarini<2>(), OPT(orient = 1) OPT(conf = CONF_DIV) OPT(poly = 2))
SIM_CASE(raviartThomas0_M2, M2, RT0_2)
SIM_CASE(raviartThomas1_S2, S2, RT1_2)
SIM_CASE(raviartThomas1_C2, C2, RT1_2)
SIM_CASE(brezziDouglasMarini1_S2, S2, BDM1_2)
SIM_CASE(brezziDouglasMarini2_S2, S2, BDM2_2)
SIM_CASE(brezziDouglasMarini1_C2, C2, BDM1_2)
