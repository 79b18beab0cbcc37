#include "specs.hh"
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
using namespace sim;
#define DIFF OPT(needsDerivative = true)
SIM_SPEC(H, double, cubicHermite(), OPT(conf = CONF_HERMITE) DIFF OPT(poly = 3))
SIM_SPEC(HR, double, reducedCubicHermite(), OPT(conf = CONF_HERMITE) DIFF OPT(poly = 2))
SIM_SPEC(H1, double, cubicHermite(), OPT(conf = CONF_HERMITE) OPT(interpolation = false) OPT(poly = 3))
SIM_SPEC(A, double, argyris(), OPT(conf = CONF_C1) OPT(interpolation = false) OPT(poly = 5))
SIM_SPEC(M, double, morley(), OPT(conf = CONF_MORLEY) DIFF OPT(poly = 2))
SIM_CASE(cubicHermite_S1, S1, H1)
SIM_CASE(cubicHermite_S2, S2, H)
SIM_CASE(cubicHermite_S3, S3, H)
SIM_CASE(reducedCubicHermite_S2, S2, HR)
SIM_CASE(argyris_S2, S2, A)
SIM_CASE(morley_S2, S2, M)
