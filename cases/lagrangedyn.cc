#include "specs.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
using namespace sim;
// run-time order, fixed per simulated world
struct Order { int k; template<class Env> Order(Env&) : k(1 + (int)choose(4)) {} template<class Env> void remeshed(Env&, int) {} };
struct Order3 { int k; template<class Env> Order3(Env&) : k(1 + (int)choose(5)) {} template<class Env> void remeshed(Env&, int) {} };
SIM_SPEC(LD, double, lagrange(st.k), template<class Env> using State = Order; OPT(conf = CONF_H1) template<class St> static int polyOf(const St& st) { return st.k; })
SIM_SPEC(LD3, double, lagrange(st.k), template<class Env> using State = Order3; OPT(conf = CONF_H1) template<class St> static int polyOf(const St& st) { return st.k; })
SIM_SPEC(DG2, double, lagrangeDG<2>(), OPT(entityKeys = false) OPT(poly = 2))
SIM_SPEC(DGD, double, lagrangeDG(st.k), template<class Env> using State = Order; OPT(entityKeys = false) template<class St> static int polyOf(const St& st) { return st.k; })
SIM_CASE(lagrangeDynamic_M2, M2, LD)
SIM_CASE(lagrangeDynamic_S3, S3, LD3)
SIM_CASE(lagrangeDG2_M2, M2, DG2)
SIM_CASE(lagrangeDGDynamic_S2, S2, DGD)
SIM_CASE(lagrangeDG2_M3, M3, DG2)
