// Grid functions that do not come from a discrete space.
#pragma once
#include "specs.hh"
#include "gfworld.hh"
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/gridfunctions/facenormalgridfunction.hh>
using namespace sim;
namespace {

// callables with the salt on the heap, of different sizes
template<int d, int pad> struct SmoothDDF {
  std::vector<long> salt; char room[pad];
  explicit SmoothDDF(long s) : salt(1, s) {}
  Dune::FieldMatrix<double, d, d> operator()(const Dune::FieldVector<double, d>&) const { callbackPoint(); Dune::FieldMatrix<double, d, d> r; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) r[i][j] = smoothDD(d, (int)salt[0], i, j); return r; }
};
template<int d, int pad> struct SmoothDF {
  std::vector<long> salt; char room[pad];
  explicit SmoothDF(long s) : salt(1, s) {}
  Dune::FieldVector<double, d> operator()(const Dune::FieldVector<double, d>& x) const { callbackPoint(); Dune::FieldVector<double, d> r; for (int j = 0; j < d; ++j) r[j] = smoothD(x, (int)salt[0], 0, j); return r; }
  friend SmoothDDF<d, pad> derivative(const SmoothDF& f) { callbackPoint(); return SmoothDDF<d, pad>(f.salt[0]); }
};
template<int d, int pad> struct SmoothF {
  std::vector<long> salt; char room[pad];
  explicit SmoothF(long s) : salt(1, s) {}
  double operator()(const Dune::FieldVector<double, d>& x) const { callbackPoint(); return smooth(x, (int)salt[0], 0); }
  friend SmoothDF<d, pad> derivative(const SmoothF& f) { callbackPoint(); return SmoothDF<d, pad>(f.salt[0]); }
};
template<int d> struct VectorF {
  std::vector<long> salt;
  explicit VectorF(long s) : salt(1, s) {}
  Dune::FieldVector<double, 2> operator()(const Dune::FieldVector<double, d>& x) const { callbackPoint(); return {smooth(x, (int)salt[0], 1), smooth(x, (int)salt[0], 2)}; }
};
struct Outer { std::vector<long> salt; double operator()(double a, double b, const Dune::FieldVector<double, 2>& c) const { callbackPoint(); return salt[0] + 2 * a - 3 * b + c[0] * c[1]; } };

template<class E> struct FEnv : E { using Global = Dune::FieldVector<double, E::dim>; };

template<class Env> void smoothValue(const Dune::FieldVector<double, Env::dim>& y, int salt, int order, Obs& o) {
  constexpr int d = Env::dim;
  if (order == 0) o.d("value", smooth(y, salt, 0));
  if (order == 1) for (int j = 0; j < d; ++j) o.d("value", smoothD(y, salt, 0, j));
  if (order == 2) for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o.d("value", smoothDD(d, salt, i, j));
}

template<class Env, int pad> struct AnalyticKind : GFKind<Env> {
  static constexpr GFOpt Q{.der = 2, .erase = true};
  std::string name() const override { return "analytic function"; }
  std::vector<int> variants() const override { return gfVariants<Q>(); }
  bool followsGrid() const override { return true; }
  std::unique_ptr<Source> make(Env& env, int v, int s) override {
    auto f = DF::makeAnalyticGridViewFunction(SmoothF<Env::dim, pad>(s), env.view(v));
    return std::make_unique<GFSource<Env, typename Env::GridView, decltype(f), Q>>(&env, nullptr, std::move(f));
  }
  void value(Env& env, int v, int e, int s, int order, const Dune::FieldVector<double, Env::dim>& x, Obs& o) override { smoothValue<Env>(env.element(v, e).geometry().global(x), s, order, o); }
};
// by reference, without derivative, through makeGridViewFunction
template<class Env> struct AnalyticRefKind : GFKind<Env> {
  static constexpr GFOpt Q{.der = 0, .erase = true};
  std::string name() const override { return "analytic function by reference"; }
  std::vector<int> variants() const override { return gfVariants<Q>(); }
  bool followsGrid() const override { return true; }
  std::unique_ptr<Source> make(Env& env, int v, int s) override {
    auto g = std::make_shared<const VectorF<Env::dim>>(s);
    auto f = DF::makeGridViewFunction(DF::makeGridViewFunction(std::cref(*g), env.view(v)), env.view(v));
    return std::make_unique<GFSource<Env, typename Env::GridView, decltype(f), Q>>(&env, g, std::move(f));
  }
  void value(Env& env, int v, int e, int s, int, const Dune::FieldVector<double, Env::dim>& x, Obs& o) override {
    auto y = env.element(v, e).geometry().global(x);
    o.d("value", smooth(y, s, 1)); o.d("value", smooth(y, s, 2));
  }
};
// outer(analytic, analytic, analytic vector)
template<class Env, bool refs> struct ComposedKind : GFKind<Env> {
  static constexpr GFOpt Q{.der = 0, .erase = true, .free = false, .asg = false};
  std::string name() const override { return refs ? "composition of references" : "composition"; }
  std::vector<int> variants() const override { return gfVariants<Q>(); }
  bool followsGrid() const override { return true; }
  std::unique_ptr<Source> make(Env& env, int v, int s) override {
    constexpr int d = Env::dim;
    auto a = DF::makeAnalyticGridViewFunction(SmoothF<d, 8>(s), env.view(v));
    auto b = DF::makeAnalyticGridViewFunction(SmoothF<d, 100>(s + 1), env.view(v));
    auto c = DF::makeAnalyticGridViewFunction(VectorF<d>(s + 2), env.view(v));
    if constexpr (refs) {
      struct Kept { decltype(a) fa; decltype(b) fb; decltype(c) fc; };
      auto k = std::make_shared<Kept>(Kept{a, b, c});
      auto f = DF::makeComposedGridFunction(Outer{std::vector<long>(1, s)}, std::cref(k->fa), k->fb, std::ref(k->fc));
      return std::make_unique<GFSource<Env, typename Env::GridView, decltype(f), Q>>(&env, k, std::move(f));
    } else {
      auto f = DF::makeComposedGridFunction(Outer{std::vector<long>(1, s)}, a, std::move(b), std::move(c));
      return std::make_unique<GFSource<Env, typename Env::GridView, decltype(f), Q>>(&env, nullptr, std::move(f));
    }
  }
  void value(Env& env, int v, int e, int s, int, const Dune::FieldVector<double, Env::dim>& x, Obs& o) override {
    auto y = env.element(v, e).geometry().global(x);
    o.d("value", s + 2 * smooth(y, s, 0) - 3 * smooth(y, s + 1, 0) + smooth(y, s + 2, 1) * smooth(y, s + 2, 2));
  }
};
// values of different callables behind one type
template<class Env> struct ErasedKind : GFKind<Env> {
  static constexpr GFOpt Q{.der = 1, .erase = true};
  using Domain = typename Env::Global;
  using F = DF::GridViewFunction<double(Domain), typename Env::GridView>;
  std::string name() const override { return "type-erased function"; }
  std::vector<int> variants() const override { return gfVariants<Q>(); }
  auto basis(Env& env, int v) { using namespace BF; return makeBasis(env.view(v), lagrange<1>()); }
  std::unique_ptr<Source> make(Env& env, int v, int s) override {
    F f;
    if (s % 3 == 0) f = DF::makeAnalyticGridViewFunction(SmoothF<Env::dim, 1>(s), env.view(v));
    else if (s % 3 == 1) f = F(DF::makeAnalyticGridViewFunction(SmoothF<Env::dim, 200>(s), env.view(v)));
    else { auto g = DF::makeDiscreteGlobalBasisFunction<double>(basis(env, v), HashVec(s)); f = g; }
    return std::make_unique<GFSource<Env, typename Env::GridView, F, GFOpt{.der = 1, .erase = true, .search = false}>>(&env, nullptr, std::move(f));
  }
  void value(Env& env, int v, int e, int s, int order, const Dune::FieldVector<double, Env::dim>& x, Obs& o) override {
    if (s % 3 < 2) { smoothValue<Env>(env.element(v, e).geometry().global(x), s, order, o); return; }
    auto b = basis(env, v);
    auto lv = b.localView();
    auto el = env.element(v, e);
    lv.bind(el);
    auto& lb = lv.tree().finiteElement().localBasis();
    std::vector<Dune::FieldVector<double, 1>> val;
    std::vector<Dune::FieldMatrix<double, 1, Env::dim>> jac;
    lb.evaluateFunction(x, val);
    lb.evaluateJacobian(x, jac);
    double y = 0;
    Dune::FieldVector<double, Env::dim> g(0.0), t;
    auto J = el.geometry().jacobianInverseTransposed(x);
    for (std::size_t i = 0; i < lv.size(); ++i) {
      double c = hashValue(hashIndex(lv.index(i), (uint64_t)s));
      y += c * val[i][0];
      J.mv(jac[i][0], t);
      g.axpy(c, t);
    }
    if (order == 0) o.d("value", y); else for (int j = 0; j < Env::dim; ++j) o.d("value", g[j]);
  }
};
template<class Env> struct NormalKind : GFKind<Env> {
  static constexpr GFOpt Q{.der = 0, .erase = true, .free = true, .asg = true, .search = false};
  std::string name() const override { return "face normal function"; }
  std::vector<int> variants() const override { return gfVariants<Q>(); }
  bool followsGrid() const override { return true; }
  std::unique_ptr<Source> make(Env& env, int v, int) override {
    return std::make_unique<GFSource<Env, typename Env::GridView, DF::FaceNormalGridFunction<typename Env::GridView>, Q>>(&env, nullptr, DF::FaceNormalGridFunction<typename Env::GridView>(env.view(v)));
  }
  // outer normal of the closest face of the reference element, transformed as a covector
  void value(Env& env, int v, int e, int, int, const Dune::FieldVector<double, Env::dim>& x, Obs& o) override {
    constexpr int d = Env::dim;
    auto geo = env.element(v, e).geometry();
    auto re = Dune::referenceElement<double, d>(geo.type());
    int best = 0;
    double bd = 1e9;
    for (int f = 0; f < re.size(1); ++f) {
      auto n = re.integrationOuterNormal(f);
      double len = n.two_norm(), dist = 0;
      auto p = re.position(re.subEntity(f, 1, 0, d), d);   // a corner of the face
      for (int i = 0; i < d; ++i) dist += n[i] / len * (p[i] - x[i]);
      if (dist < bd - 1e-12) { bd = dist; best = f; }
    }
    auto n = re.integrationOuterNormal(best);
    Dune::FieldVector<double, d> w;
    geo.jacobianInverseTransposed(x).mv(n, w);
    double len = 0;
    for (int i = 0; i < d; ++i) len += w[i] * w[i];
    for (int i = 0; i < d; ++i) o.d("value", w[i] / std::sqrt(len));
  }
};

template<class E> std::unique_ptr<World> gridFunctions() {
  using Env = FEnv<E>;
  auto w = std::make_unique<GFWorld<Env>>();
  w->ks.push_back(std::make_unique<AnalyticKind<Env, 1>>());
  w->ks.push_back(std::make_unique<AnalyticKind<Env, 150>>());
  w->ks.push_back(std::make_unique<AnalyticRefKind<Env>>());
  w->ks.push_back(std::make_unique<ComposedKind<Env, false>>());
  w->ks.push_back(std::make_unique<ComposedKind<Env, true>>());
  w->ks.push_back(std::make_unique<ErasedKind<Env>>());
  w->ks.push_back(std::make_unique<NormalKind<Env>>());
  return w;
}
#define SIM_FCASE(NAME, ENV, ...) RegisterCase r_##NAME({#NAME, C_FUNCTION, [] { return gridFunctions<ENV>(); }, 2});
} // namespace
