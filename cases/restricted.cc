#include "specs.hh"
#include <optional>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/restrictedbasis.hh>
using namespace sim;
using LL = Dune::TupleVector<double, double>;
using V2 = Dune::FieldVector<double, 2>;

// a random set of elements per view
template<class Env> struct Domains {
  using Sub = DF::Experimental::SubDomain<typename Env::GridView>;
  std::vector<std::unique_ptr<std::optional<Sub>>> sub;
  uint64_t seed;
  Domains(Env& env) {
    seed = choose(16);
    for (int v = 0; v < env.views(); ++v) { sub.push_back(std::make_unique<std::optional<Sub>>()); remeshed(env, v); }
  }
  void remeshed(Env& env, int v) {
    auto& s = *sub[v];
    s.emplace(env.view(v));
    int n = 0;
    for (int e = 0; e < env.elements(v); ++e)
      if (mix(e, seed * 8 + v) % 2 || (e + 1 == env.elements(v) && n == 0)) { s->insertElement(env.element(v, e)); ++n; }
  }
  const Sub& operator()(int v) const { return **sub[v]; }
};
namespace R = DF::Experimental::BasisFactory;
#define RES template<class Env> using State = Domains<Env>; OPT(sameView = true)
SIM_SPEC(RL2, double, R::restrict(lagrange<2>(), st(view)), RES OPT(poly = 2))
SIM_SPEC(RP, V2, R::restrict(power<2>(lagrange<2>(), flatInterleaved()), st(view)), RES OPT(poly = 2))
SIM_SPEC(RC, LL, composite(R::restrict(lagrange<2>(), st(view)), lagrange<1>(), blockedLexicographic()), RES)
SIM_SPEC(RCF, LL, composite(lagrange<1>(), R::restrict(lagrangeDG<1>(), st(view)), flatLexicographic()), RES OPT(entityKeys = false))
SIM_CASE(restricted_M2, M2, RL2)
SIM_CASE(restrictedPower_S2, S2, RP)
SIM_CASE(restrictedComposite_M2, M2, RC)
SIM_CASE(restrictedCompositeFlat_M3, M3, RCF)
