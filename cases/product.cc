#include "specs.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
using namespace sim;
template<int d> using V = Dune::FieldVector<double, d>;
SIM_SPEC(PBL, V<3>, power<3>(lagrange<2>(), blockedLexicographic()), OPT(conf = CONF_H1) OPT(poly = 2))
SIM_SPEC(PBI, V<2>, power<2>(lagrange<2>(), blockedInterleaved()), OPT(conf = CONF_H1) OPT(poly = 2))
SIM_SPEC(PFL, V<2>, power<2>(lagrange<1>(), flatLexicographic()), OPT(conf = CONF_H1))
SIM_SPEC(PFI, V<3>, power<3>(lagrange<1>(), flatInterleaved()), OPT(conf = CONF_H1))
SIM_CASE(powerBlockedLexicographic_M2, M2, PBL)
SIM_CASE(powerBlockedInterleaved_M2, M2, PBI)
SIM_CASE(powerFlatLexicographic_M3, M3, PFL)
SIM_CASE(powerFlatInterleaved_M2, M2, PFI)
