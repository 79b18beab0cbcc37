// flat products of composites whose parts have container descriptions of one type: arrays and vectors of different descriptions
#include "specs.hh"
#include <array>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
using namespace sim;
template<class... T> using TV = Dune::TupleVector<T...>;
using LL = TV<double, double>;
using TH = TV<Dune::FieldVector<double, 2>, double>;
template<std::size_t n> using LLA = std::array<LL, n>;
using A2 = LLA<2>;
using A3 = LLA<3>;
using AA = std::array<LLA<2>, 2>;
using B2 = std::array<TH, 2>;
#define D2 OPT(conf = CONF_H1) OPT(derivative = false)
SIM_SPEC(PAF, A2, power<2>(composite(lagrange<2>(), lagrange<1>(), blockedLexicographic()), flatLexicographic()), D2)
SIM_SPEC(PAI, A3, power<3>(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), flatInterleaved()), D2)
SIM_SPEC(DAF, A3, power(composite(lagrange<2>(), lagrange<1>(), blockedLexicographic()), 3, flatLexicographic()), D2)
SIM_SPEC(DAI, A2, power(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), 2, flatInterleaved()), D2)
SIM_SPEC(DAA, AA, power<2>(power(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), 2, flatLexicographic()), blockedInterleaved()), D2)
SIM_SPEC(DAB, AA, power(power(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), 2, flatInterleaved()), 2, flatLexicographic()), D2)
SIM_SPEC(DTF, B2, power(composite(power<2>(lagrange<1>(), blockedInterleaved()), lagrange<2>(), blockedLexicographic()), 2, flatLexicographic()), D2)
SIM_CASE(arrayFlatLexicographic_M2, M2, PAF)
SIM_CASE(arrayFlatInterleaved_M2, M2, PAI)
SIM_CASE(vectorFlatLexicographic_M2, M2, DAF)
SIM_CASE(vectorFlatInterleaved_M2, M2, DAI)
SIM_CASE(vectorBlockedInterleaved_M2, M2, DAA)
SIM_CASE(vectorVector_M2, M2, DAB)
SIM_CASE(tupleDynamic_M2, M2, DTF)
