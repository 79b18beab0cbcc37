#include "specs.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
using namespace sim;
template<int d> using V = Dune::FieldVector<double, d>;
SIM_SPEC(DBL, V<3>, power(lagrange<2>(), 3, blockedLexicographic()), OPT(conf = CONF_H1) OPT(poly = 2))
SIM_SPEC(DFI, V<2>, power(lagrange<1>(), 2, flatInterleaved()), OPT(conf = CONF_H1))
SIM_SPEC(DFL, V<2>, power(lagrange<1>(), 2, flatLexicographic()), OPT(conf = CONF_H1))
SIM_SPEC(DBI, V<2>, power(lagrange<2>(), 2, blockedInterleaved()), OPT(conf = CONF_H1) OPT(poly = 2))
SIM_CASE(dynamicPowerBlockedLexicographic_M2, M2, DBL)
SIM_CASE(dynamicPowerFlatInterleaved_S3, S3, DFI)
SIM_CASE(dynamicPowerFlatLexicographic_M2, M2, DFL)
SIM_CASE(dynamicPowerBlockedInterleaved_M2, M2, DBI)
