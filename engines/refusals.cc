// P18: what is not supported is refused, and refusing changes nothing
#include "common.hh"
#include "../sim/env.hh"
#include <array>
#include <memory>
#include <typeinfo>
#include <vector>
#include <dune/common/fmatrix.hh>
#include <dune/common/tuplevector.hh>
#include <dune/istl/bvector.hh>
#include <dune/functions/backends/containerfactory.hh>
#include <dune/functions/backends/istlvectorbackend.hh>
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/common/subdomain.hh>
#include <dune/functions/functionspacebases/argyrisbasis.hh>
#include <dune/functions/functionspacebases/brezzidouglasmarinibasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/cubichermitebasis.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangebasis.hh>
#include <dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/morleybasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/rannacherturekbasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/refinedlagrangebasis.hh>
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
namespace sim {
namespace {
namespace DF = Dune::Functions;
namespace BF = Dune::Functions::BasisFactory;

// runs f; what may come out is an exception of Dune (a refusal) or an injected one
enum class Out { DONE, REFUSED, FAULT };
template<class F> Out request(Plan& p, F&& f) {
  stackGarbage();
  try { Armed a(p); f(); }
  catch (InjectedFault&) { return Out::FAULT; }
  catch (std::bad_alloc&) { return Out::FAULT; }
  catch (Dune::Exception& e) { rec->comparisons++; return Out::REFUSED; }
  catch (std::exception& e) { violation("wrong-exception", std::string("a request fails with ") + e.what()); }
  return Out::DONE;
}
template<class F> void mustRefuse(const std::string& what, F&& f) {
  Plan p;
  event("unsupported: %s", what.c_str());
  if (request(p, f) != Out::REFUSED) violation("not-refused", what + " is not supported, but is not refused");
}

// ------------------------------------------------ spaces on unsuitable grids
template<class Env> struct Types { int simplex = 0, cube = 0, other = 0, total = 0; };
template<class GV> Types<GV> typesOf(const GV& gv) {
  Types<GV> t;
  for (auto type : gv.indexSet().types(0)) { ++t.total; (type.isSimplex() ? t.simplex : type.isCube() ? t.cube : t.other)++; }
  return t;
}
template<class B> void show(const B& b, Obs& o) {
  o.d("value", (double)(b.size())); o.d("value", (double)(b.dimension()));
  auto lv = b.localView();
  std::vector<typename std::decay_t<decltype(lv.tree().finiteElement().localBasis())>::Traits::RangeType> y;
  for (auto&& e : Dune::elements(b.gridView())) {
    lv.bind(e);
    o.d("value", (double)(lv.size()));
    for (std::size_t i = 0; i < lv.size(); ++i) o.d("value", (double)(lv.index(i)[0]));
    lv.tree().finiteElement().localBasis().evaluateFunction(Dune::referenceElement(e.geometry()).position(0, 0), y);
    for (auto& v : y) for (auto& c : v) o.d("value", double(c));
  }
}
template<class Env, class Make, class Ok>
void spaceHistory(const char* name, Make make, Ok ok) {
  Env env;
  using B = decltype(make(env.view(0)));
  std::unique_ptr<B> b;
  int at = -1;                       // the view the basis lives on
  std::array<int, 2> gen{};          // and the state this view had then
  int bgen = 0;
  int steps = 4 + choose(10);
  for (int s = 0; s < steps; ++s) {
    int v = choose(2), op = choose(4);
    if (op == 0) { uint64_t seed = choose(64); event("remesh view %d seed %d", v, (int)seed); env.remesh(v, seed); gen[v]++; continue; }
    bool fine = ok(typesOf(env.view(v)));
    Plan p;
    bool live = b && gen[at] == bgen;
    Obs before;
    if (live) show(*b, before);
    choosePlan(p, ALLFAULTS, 1, 6, Plan{});
    if (op == 1 || !b) {
      event("build %s on view %d, %s", name, v, fine ? "supported" : "not supported");
      std::unique_ptr<B> n;
      auto o = request(p, [&] { n = std::make_unique<B>(make(env.view(v))); });
      if (o == Out::FAULT) continue;
      if (fine != (o == Out::DONE)) violation(fine ? "refused" : "not-refused", fmt("%s on a grid with %s element types is %s", name, fine ? "supported" : "unsupported", fine ? "refused" : "accepted"));
      if (live) { Obs after; show(*b, after); auto d = before.diff(after); if (!d.empty()) violation("changed", fmt("building another %s changes a basis: %s", name, d.c_str())); }
      if (n) { b = std::move(n); at = v; bgen = gen[v]; }
    }
    else {
      event("update %s to view %d, %s", name, v, fine ? "supported" : "not supported");
      auto o = request(p, [&] { b->update(env.view(v)); });
      if (o == Out::FAULT) { b.reset(); continue; }
      if (fine != (o == Out::DONE)) violation(fine ? "refused" : "not-refused", fmt("the update of %s to a grid with %s element types is %s", name, fine ? "supported" : "unsupported", fine ? "refused" : "accepted"));
      if (o == Out::DONE) { at = v; bgen = gen[v]; }
      else if (live) { Obs after; show(*b, after); auto d = before.diff(after); if (!d.empty()) violation("changed", fmt("a refused update of %s changes it: %s", name, d.c_str())); }
    }
    if (b && gen[at] == bgen) {
      Obs x, y;
      show(*b, x); show(make(env.view(at)), y);
      auto d = x.diff(y);
      if (!d.empty()) violation("wrong-basis-state", fmt("%s differs from a new one: %s", name, d.c_str()));
      rec->comparisons++;
    }
  }
}
template<class F> auto maker(F f) { return [f](const auto& gv) { return DF::BasisFactory::makeBasis(gv, f); }; }

void spaces() {
  auto simplices = [](auto t) { return t.cube + t.other == 0; };
  auto one = [](auto t) { return t.total <= 1; };
  auto both = [](auto t) { return t.other == 0; };
  switch (choose(12)) {
    case 0: spaceHistory<M2>("RT<1>", maker(BF::raviartThomas<1>()), one); break;
    case 1: spaceHistory<M2>("BDM<1>", maker(BF::brezziDouglasMarini<1>()), one); break;
    case 2: spaceHistory<M2>("HierarchicalLagrange<1>", maker(BF::hierarchicalLagrange<1>()), simplices); break;
    case 3: spaceHistory<M2>("HierarchicalLagrange<2>", maker(BF::hierarchicalLagrange<2>()), simplices); break;
    case 4: spaceHistory<M2>("HierarchicalLagrangeWithElementBubble<1>", maker(BF::hierarchicalLagrangeWithElementBubble<1>()), simplices); break;
    case 5: spaceHistory<M2>("HierarchicalLagrangeWithElementBubble<2>", maker(BF::hierarchicalLagrangeWithElementBubble<2>()), simplices); break;
    case 6: spaceHistory<M2>("RefinedLagrange<1>", maker(BF::refinedLagrange<1>()), simplices); break;
    case 7: spaceHistory<M2>("RefinedLagrange<0>", maker(BF::refinedLagrange<0>()), simplices); break;
    case 8: spaceHistory<M3>("RannacherTurek", maker(BF::rannacherTurek()), both); break;
    case 9: spaceHistory<M3>("Nedelec", maker(BF::nedelec<1, 1, double>()), both); break;
    case 10: { unsigned k = 1 + choose(4); spaceHistory<M3>(fmt("Lagrange(%u)", k).c_str(), maker(BF::lagrange(k)), [k](auto t) { return k <= 2 || t.other == 0; }); break; }
    default: spaceHistory<M3>("Lagrange<3>", maker(BF::lagrange<3>()), both); break;
  }
}
RegisterEngine e1("P18", "spaces on unsuitable grids", 3, spaces);

// ------------------------------------------------ run-time orders
void orders() {
  C3 env;
  env.remesh(0, 0);
  int n = 1 + choose(3);
  for (int i = 0; i < n; ++i) {
    unsigned k = 14 + choose(8);
    if (k > 17) mustRefuse(fmt("Lagrange of order %u in 3d", k), [&] { DF::BasisFactory::makeBasis(env.view(0), BF::lagrange(k)); });
    else { auto b = DF::BasisFactory::makeBasis(env.view(0), BF::lagrange(k)); if (b.dimension() != std::size_t(k + 1) * (k + 1) * (k + 1)) violation("wrong-basis-state", fmt("Lagrange of order %u has dimension %zu on one cube", k, (size_t)b.dimension())); rec->comparisons++; }
    unsigned o = choose(4);
    mustRefuse(fmt("a run-time order %u for the compile-time order 2", o), [&] { DF::LagrangePreBasis<C3::GridView, 2>(env.view(0), o); });
  }
}
RegisterEngine e2("P18", "run-time orders", 1, orders);

// ------------------------------------------------ derivatives that do not exist
template<class LB> void partials(const char* name, const LB& lb, unsigned highest) {
  constexpr int d = LB::Traits::dimDomain;
  std::vector<typename LB::Traits::RangeType> v;
  typename LB::Traits::DomainType x(0.25);
  for (int q = 1 + choose(4); q > 0; --q) {
    std::array<unsigned, d> o{};
    unsigned n = choose(highest + 4);
    for (unsigned i = 0; i < n; ++i) o[choose(d)]++;
    Plan p;
    event("partial derivative of order %u of %s", n, name);
    auto r = request(p, [&] { lb.partial(o, x, v); });
    if ((r == Out::DONE) != (n <= highest)) violation(n <= highest ? "refused" : "not-refused", fmt("the partial derivative of order %u of %s is %s", n, name, r == Out::DONE ? "returned" : "refused"));
  }
}
template<class Env, class F> void partialsOf(const char* name, F f, unsigned highest) {
  Env env;
  auto b = DF::BasisFactory::makeBasis(env.view(0), f);
  auto lv = b.localView();
  lv.bind(env.element(0, choose(env.elements(0))));
  partials(name, lv.tree().finiteElement().localBasis(), highest);
}
template<class X, class T> int use(const X&, const T&) { return 0; }

void derivatives() {
  switch (choose(8)) {
    case 0: partialsOf<S2>("the Hermite element", BF::cubicHermite(), 2); break;
    case 1: partialsOf<S2>("the reduced Hermite element", BF::reducedCubicHermite(), 2); break;
    case 2: partialsOf<S2>("the Morley element", BF::morley(), 2); break;
    case 3: partialsOf<S2>("the Argyris element", BF::argyris(), 2); break;
    case 4: partialsOf<S2>("the Raviart-Thomas element", BF::raviartThomas<0>(), 1); break;
    case 5: partialsOf<M2>("the Nedelec element", BF::nedelec<1, 1, double>(), 1); break;
    default: {
      S2 env;
      auto gv = env.view(0);
      auto b = DF::BasisFactory::makeBasis(gv, BF::lagrange<2>());
      std::vector<double> c(b.dimension());
      for (auto& x : c) x = 0.25 * choose(9);
      auto f = DF::makeDiscreteGlobalBasisFunction<double>(b, c);
      auto e = env.element(0, choose(env.elements(0)));
      using X = Dune::FieldVector<double, 2>;
      X x(0.3);
      auto df = derivative(f);
      auto lf = localFunction(f);
      auto ldf = localFunction(df);
      auto g = DF::makeComposedGridFunction([](double y) { return y * y; }, f);
      auto lg = localFunction(g);
      DF::FaceNormalGridFunction<typename S2::GridView> nrm(gv);
      auto ln = localFunction(nrm);
      auto plain = DF::makeAnalyticGridViewFunction([](const X& y) { return y[0] * y[1]; }, gv);
      DF::GridViewFunction<double(X), typename S2::GridView> eg(plain), ed(f);
      DF::DifferentiableFunction<double(X)> erased = [](const X& y) { return y[0] - y[1]; };
      auto fromCallables = DF::makeDifferentiableFunctionFromCallables(DF::SignatureTag<double(X)>(), [](const X& y) { return y[0] + y[1]; });
      lf.bind(e); ldf.bind(e); lg.bind(e); ln.bind(e);
      auto le = localFunction(eg);
      le.bind(e);
      auto values = [&] {
        Obs o;
        o.d("value", (double)(lf(x))); for (auto v : ldf(x)) o.d("value", double(v));
        o.d("value", (double)(lg(x))); for (auto v : ln(x)) o.d("value", double(v));
        o.d("value", (double)(le(x))); o.d("value", (double)(erased(x))); o.d("value", (double)(fromCallables(x)));
        o.d("value", (double)(lf.bound())); o.d("value", (double)(ldf.bound())); o.d("value", (double)(le.bound()));
        return o;
      };
      auto before = values();
      for (int q = 2 + choose(6); q > 0; --q) {
        switch (choose(9)) {
          case 0: mustRefuse("the second derivative of a discrete function", [&] { use(derivative(df), 0); }); break;
          case 1: mustRefuse("the second derivative of a local function", [&] { use(derivative(ldf), 0); }); break;
          case 2: mustRefuse("the derivative of a composed function", [&] { use(derivative(g), 0); }); break;
          case 3: mustRefuse("the derivative of a composed local function", [&] { use(derivative(lg), 0); }); break;
          case 4: mustRefuse("the derivative of the face normal", [&] { use(derivative(nrm), 0); }); break;
          case 5: mustRefuse("the derivative of a local face normal", [&] { use(derivative(ln), 0); }); break;
          case 6: mustRefuse("the derivative of a type-erased function without one", [&] { use(derivative(erased), 0); }); break;
          case 7: mustRefuse("the derivative of a callable given alone", [&] { use(derivative(fromCallables), 0); }); break;
          default: mustRefuse("the second derivative of a type-erased discrete function", [&] { auto d1 = derivative(ed); use(derivative(d1), 0); }); break;
        }
        auto d = before.diff(values());
        if (!d.empty()) violation("changed", "a refused request changes the values of functions: " + d);
        rec->comparisons++;
      }
    }
  }
}
RegisterEngine e3("P18", "derivatives that do not exist", 2, derivatives);

// ------------------------------------------------ vectors and sub-domains
void vectors() {
  M2 env;
  auto gv = env.view(0);
  using namespace BF;
  for (int q = 1 + choose(4); q > 0; --q) switch (choose(5)) {
    case 0: {
      auto b = makeBasis(gv, power<2>(lagrange<1>(), blockedInterleaved()));
      Dune::BlockVector<Dune::FieldVector<double, 3>> v(choose(4));
      mustRefuse("resizing blocks of three for a basis with blocks of two", [&] { DF::istlVectorBackend(v).resize(b); });
      Dune::BlockVector<Dune::FieldVector<double, 2>> w(choose(4));
      DF::istlVectorBackend(w).resize(b);
      if (w.size() != b.size()) violation("wrong-size", "a vector has not been resized");
      break;
    }
    case 1: {
      auto b = makeBasis(gv, power<2>(lagrange<1>(), blockedLexicographic()));
      std::vector<double> v(choose(4));
      mustRefuse("resizing a flat vector for a blocked basis", [&] { DF::istlVectorBackend(v).resize(b); });
      break;
    }
    case 2: {
      auto b = makeBasis(gv, lagrange<1>());
      std::vector<std::vector<double>> v(choose(4));
      mustRefuse("resizing a nested vector whose blocks have no size for a flat basis", [&] { DF::istlVectorBackend(v).resize(b); });
      break;
    }
    case 3:
      mustRefuse("a vector for an unknown container", [&] { DF::makeContainer<double>(DF::ContainerDescriptors::Unknown{}); });
      break;
    default: {
      DF::Experimental::SubDomain<typename M2::GridView> sub(gv);
      std::vector<bool> in(env.elements(0));
      std::set<long> vertices;
      for (int i = 0; i < env.elements(0); ++i) if ((in[i] = choose(2))) {
        auto e = env.element(0, i);
        sub.insertElement(e);
        for (int k = 0; k < (int)e.subEntities(2); ++k) vertices.insert(gv.indexSet().subIndex(e, k, 2));
      }
      auto sgv = sub.gridView();
      for (int i = 0; i < env.elements(0); ++i) {
        auto e = env.element(0, i);
        if (!in[i]) mustRefuse("the index of an element outside of a sub-domain", [&] { use(sgv.indexSet().index(e), 0); });
        else use(sgv.indexSet().index(e), 0);
        for (int k = 0; k < (int)e.subEntities(2); ++k)
          if (!vertices.count(gv.indexSet().subIndex(e, k, 2))) mustRefuse("the index of a vertex outside of a sub-domain", [&] { use(sgv.indexSet().subIndex(e, k, 2), 0); });
          else use(sgv.indexSet().subIndex(e, k, 2), 0);
        rec->comparisons++;
      }
    }
  }
}
RegisterEngine e4("P18", "vectors and sub-domains", 2, vectors);

} // namespace
} // namespace sim
