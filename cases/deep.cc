// products of products: indices and sizes with several levels below a product
#include "specs.hh"
#include <array>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/dynamicpowerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
using namespace sim;
template<class... T> using TV = Dune::TupleVector<T...>;
using LL = TV<double, double>;
using TH = TV<Dune::FieldVector<double, 2>, double>;
using A2 = std::array<LL, 2>;
using B2 = std::array<TH, 2>;
using LLD = TV<LL, double>;
using M23 = Dune::FieldMatrix<double, 2, 3>;
SIM_SPEC(PCB, A2, power<2>(composite(lagrange<2>(), lagrange<1>(), blockedLexicographic()), blockedLexicographic()), OPT(conf = CONF_H1) OPT(derivative = false))
SIM_SPEC(PCF, B2, power<2>(composite(power<2>(lagrange<1>(), blockedInterleaved()), lagrange<2>(), blockedLexicographic()), flatLexicographic()), OPT(conf = CONF_H1) OPT(derivative = false))
SIM_SPEC(PCI, B2, power<2>(composite(power<2>(lagrange<2>(), blockedInterleaved()), lagrange<1>(), blockedLexicographic()), flatInterleaved()), OPT(conf = CONF_H1) OPT(derivative = false))
SIM_SPEC(PCBI, A2, power<2>(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), blockedInterleaved()), OPT(conf = CONF_H1) OPT(derivative = false))
SIM_SPEC(PPFB, M23, power<2>(power<3>(lagrange<1>(), flatLexicographic()), blockedInterleaved()), OPT(conf = CONF_H1) OPT(derivative = false))
SIM_SPEC(DPI, M23, power(power<3>(lagrange<1>(), blockedInterleaved()), 2, flatInterleaved()), OPT(conf = CONF_H1) OPT(derivative = false))
SIM_SPEC(CCF, LLD, composite(composite(lagrange<1>(), lagrange<2>(), blockedLexicographic()), lagrange<1>(), flatLexicographic()), OPT(conf = CONF_H1))
SIM_CASE(deepBlockedLexicographic_M2, M2, PCB)
SIM_CASE(deepFlatLexicographic_M2, M2, PCF)
SIM_CASE(deepFlatInterleaved_M2, M2, PCI)
SIM_CASE(deepBlockedInterleaved_M2, M2, PCBI)
SIM_CASE(deepPower_M2, M2, PPFB)
SIM_CASE(deepDynamic_M2, M2, DPI)
SIM_CASE(deepComposite_M2, M2, CCF)
