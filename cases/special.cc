#include "specs.hh"
#include <optional>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/bsplinebasis.hh>
#include <dune/functions/functionspacebases/periodicbasis.hh>
#include <dune/functions/functionspacebases/transformedindexbasis.hh>
using namespace sim;
using LL = Dune::TupleVector<double, double>;

// ---- B-splines on structured grids
template<class Env> std::vector<double> knots(Env& env, int view) {
  std::vector<double> k;
  int n = env.n0[0] << view;
  for (int i = 0; i <= n; ++i) k.push_back(env.lower[0] + i * (env.upper[0] - env.lower[0]) / n);
  return k;
}
template<class Env> auto bsplineFactory(Env& env, int view, unsigned order, bool open) {
  auto lower = env.lower, upper = env.upper;
  std::array<unsigned, Env::dim> n;
  for (int i = 0; i < Env::dim; ++i) n[i] = env.n0[i] << view;
  return [=](const auto& gv) { return DF::BSplinePreBasis<std::decay_t<decltype(gv)>>(gv, lower, upper, n, order, open); };
}
#define BSPN OPT(sameView = true) OPT(entityKeys = false) OPT(projection = false) OPT(interpolation = false) OPT(dofFunctionals = false)
#define BSP BSPN OPT(conf = CONF_H1)
SIM_SPEC(BS1, double, bSpline(knots(env, view), 2), BSP OPT(poly = 2))          // the factory gets a temporary
SIM_SPEC(BS2, double, bsplineFactory(env, view, 2, true), BSP OPT(poly = 2))
SIM_SPEC(BS3, double, bsplineFactory(env, view, 3, true), BSP OPT(poly = 3))
SIM_SPEC(BSk, double, bsplineFactory(env, view, 1 + env.n0[0] % 2, true), BSP)
// knot vectors that are not open: fewer functions near the boundary, and at least order + 1 elements
template<class Env> unsigned closedOrder(Env& env) { int n = 4; for (auto k : env.n0) n = std::min(n, k); return n - 1; }
SIM_SPEC(BSc, double, bsplineFactory(env, view, closedOrder(env), false), BSPN OPT(poly = -1))
SIM_SPEC(BSkc, double, bSpline(knots(env, view), closedOrder(env), false), BSPN OPT(poly = -1))
SIM_SPEC(BS0, double, bsplineFactory(env, view, 0, env.n0[0] % 2), BSPN OPT(poly = 0))
SIM_CASE(bsplineClosed_Y1, YaspEnv<1>, BSkc)
SIM_CASE(bsplineClosed_Y2, YaspEnv<2>, BSc)
SIM_CASE(bspline0_Y2, YaspEnv<2>, BS0)
SIM_CASE(bspline_Y3, YaspEnv<3>, BSk)
SIM_CASE(bspline2_Y1, YaspEnv<1>, BS1)
SIM_CASE(bspline2_Y2, YaspEnv<2>, BS2)
SIM_CASE(bspline3_Y2, YaspEnv<2>, BS3)

// ---- identified indices
template<class Env> auto identified(Env& env, int view) {
  auto raw = DF::BasisFactory::makeBasis(env.view(view), DF::BasisFactory::lagrange<2>());
  DF::BasisFactory::Experimental::PeriodicIndexSet s;
  std::vector<std::size_t> perm;
  for (std::size_t i = 0; i < raw.size(); ++i) perm.push_back(i);
  std::sort(perm.begin(), perm.end(), [&](auto a, auto b) { return mix(a, view + 5) < mix(b, view + 5); });
  std::size_t k = 0;
  int groups = 1 + raw.size() / 4;
  for (int g = 0; g < groups; ++g) {
    std::size_t n = 2 + mix(g, view) % 3;
    if (k + n > perm.size()) break;
    for (std::size_t a = 0; a < n; ++a) for (std::size_t b = a + 1; b < n; ++b) s.unifyIndexPair(perm[k + a], perm[k + b]);
    k += n;
  }
  return s;
}
#define PER OPT(updatable = false) OPT(entityKeys = false) OPT(injective = false) OPT(conf = CONF_H1) OPT(tight = false)
SIM_SPEC(PerFactory, double, Experimental::periodic(lagrange<2>(), identified(env, view)), PER OPT(poly = 2))
SIM_SPEC(PerBasis, double, Experimental::periodic(makeBasis(env.view(view), lagrange<2>()), identified(env, view)), PER OPT(poly = 2))
SIM_CASE(periodic_M2, M2, PerFactory)
SIM_CASE(periodicOfBasis_S2, S2, PerBasis)

// ---- transformed indices
struct Reverse { template<class MI, class PB> void operator()(MI& mi, const PB& pb) const { mi[0] = pb.size() - 1 - mi[0]; } };
struct FlatSize { template<class P, class PB> std::size_t operator()(const P& p, const PB& pb) const { return p.size() == 0 ? pb.size() : 0; } };
struct FlatDesc { template<class PB> auto operator()(const PB& pb) const { return DF::containerDescriptor(pb); } };
// i -> (i%2, i/2)
struct Split { template<class MI, class PB> void operator()(MI& mi, const PB&) const { auto i = mi[0]; mi.resize(2); mi[0] = i % 2; mi[1] = i / 2; } };
struct SplitSize { template<class P, class PB> std::size_t operator()(const P& p, const PB& pb) const { return p.size() == 0 ? 2 : p.size() == 1 ? (pb.size() + 1 - p[0]) / 2 : 0; } };
inline auto reversed() { return DF::BasisFactory::Experimental::indexTransformation(Reverse{}, FlatSize{}, FlatDesc{}, Dune::index_constant<1>(), Dune::index_constant<1>()); }
inline auto split() { return DF::BasisFactory::Experimental::indexTransformation(Split{}, SplitSize{}, Dune::index_constant<2>(), Dune::index_constant<2>()); }
SIM_SPEC(Rev, double, Experimental::transformIndices(lagrange<2>(), reversed()), OPT(conf = CONF_H1) OPT(poly = 2))
SIM_SPEC(Spl, double, Experimental::transformIndices(lagrange<2>(), split()), OPT(conf = CONF_H1) OPT(poly = 2))
SIM_CASE(transformedReverse_M2, M2, Rev)
SIM_CASE(transformedSplit_M3, M3, Spl)
