#include "specs.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/taylorhoodbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
using namespace sim;
template<int d> using V = Dune::FieldVector<double, d>;
template<class... T> using TV = Dune::TupleVector<T...>;
using TH = TV<V<2>, double>;
using LL = TV<double, double>;
using RTP = TV<V<2>, double>;
SIM_SPEC(TaylorHood, TH, taylorHood(), OPT(conf = CONF_H1))
SIM_SPEC(CBL, LL, composite(lagrange<2>(), lagrange<1>(), blockedLexicographic()), OPT(conf = CONF_H1))
SIM_SPEC(CFL, LL, composite(lagrange<1>(), lagrange<2>(), flatLexicographic()), OPT(conf = CONF_H1))
SIM_SPEC(Nested, TH, composite(power<2>(lagrange<2>(), blockedInterleaved()), lagrange<1>(), blockedLexicographic()), OPT(conf = CONF_H1))
SIM_SPEC(NestedFlat, TH, composite(power<2>(lagrange<2>(), flatInterleaved()), lagrange<1>(), flatLexicographic()), OPT(conf = CONF_H1))
SIM_SPEC(MixedRT, RTP, composite(raviartThomas<0>(), lagrange<0>(), blockedLexicographic()),  OPT(poly = 0))
SIM_SPEC(HermiteL, LL, composite(cubicHermite(), lagrange<1>(), flatLexicographic()), OPT(interpolation = false))
SIM_CASE(taylorHood_M2, M2, TaylorHood)
SIM_CASE(compositeBlocked_M2, M2, CBL)
SIM_CASE(compositeFlat_M2, M2, CFL)
SIM_CASE(compositeNested_M2, M2, Nested)
SIM_CASE(compositeNestedFlat_M2, M2, NestedFlat)
SIM_CASE(compositeRaviartThomas_M2, M2, MixedRT)
SIM_CASE(compositeHermite_S2, S2, HermiteL)
