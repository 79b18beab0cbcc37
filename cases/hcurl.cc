#include "specs.hh"
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
using namespace sim;
template<int d> using V = Dune::FieldVector<double, d>;
SIM_SPEC(RT0_3, V<3>, raviartThomas<0>(), OPT(conf = CONF_DIV) OPT(poly = 0))
SIM_SPEC(RT1_3, V<3>, raviartThomas<1>(), OPT(orient = 0) OPT(conf = CONF_DIV))
SIM_SPEC(N2, V<2>, (nedelec<1, 1>()), OPT(conf = CONF_CURL) OPT(poly = 0))
SIM_SPEC(N3, V<3>, (nedelec<1, 1>()), OPT(conf = CONF_CURL) OPT(poly = 0))
SIM_SPEC(RTk, double, rannacherTurek(), OPT(conf = CONF_CENTER))
SIM_CASE(raviartThomas0_C3, C3, RT0_3)
SIM_CASE(raviartThomas0_S3, S3, RT0_3)
SIM_CASE(raviartThomas0_M3, M3, RT0_3)
SIM_CASE(raviartThomas1_C3, C3, RT1_3)
SIM_CASE(nedelec_M2, M2, N2)
SIM_CASE(nedelec_S3, S3, N3)
SIM_CASE(nedelec_C3, C3, N3)
SIM_CASE(rannacherTurek_M2, M2, RTk)
SIM_CASE(rannacherTurek_C3, C3, RTk)
