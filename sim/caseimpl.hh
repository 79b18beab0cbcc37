// Turns one (grid, space) pair into a World.
#pragma once
// What a build of the catalog offers; every check compiles what it needs.
#ifndef SIM_F
#define SIM_F 0x1ff
#endif

#include "iface.hh"
#include "env.hh"
#include "observe.hh"
#include <set>
#include <dune/common/indices.hh>
#include <dune/common/classname.hh>
#include <dune/geometry/quadraturerules.hh>
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/containerdescriptors.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
#include <dune/functions/gridfunctions/composedgridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
#if SIM_F & 16
#include <dune/functions/functionspacebases/boundarydofs.hh>
#endif
#if SIM_F & 32
#include <dune/functions/backends/istlvectorfactory.hh>
#include <dune/functions/backends/containerfactory.hh>
#endif
#if SIM_F & 256
#include "shapes.hh"
#endif
#include <dune/functions/backends/istlvectorbackend.hh>

namespace sim {
namespace DF = Dune::Functions;
enum : unsigned { X_FUNC = 1, X_NUM = 2, X_CONF = 4, X_INTERP = 8, X_TRAV = 16, X_CONT = 32, X_EXPECT = 64, X_VIEWS = 128, X_SHAPE = 256 };
constexpr bool has(unsigned f) { return (SIM_F) & f; }

// ------------------------------------------------------------- user containers
inline double hashValue(uint64_t h) { return double(int64_t(h >> 40) - (1 << 23)) / double(1 << 23); }
template<class MI> uint64_t hashIndex(const MI& mi, uint64_t salt) {
  uint64_t h = mix(salt, 17);
  for (std::size_t k = 0; k < mi.size(); ++k) h = mix(h, mi[k] + 1);
  return h;
}
// coefficients computed from the index; contents on the heap so that a
// destroyed vector is recognised
struct HashVec {
  using value_type = double;
  std::vector<long> salt;
  explicit HashVec(long s) : salt(1, s) {}
  template<class MI> double operator[](const MI& mi) const { backendPoint(); return hashValue(hashIndex(mi, (uint64_t)salt[0])); }
};
struct HashVec2 {
  using value_type = Dune::FieldVector<double, 2>;
  std::vector<long> salt;
  explicit HashVec2(long s) : salt(1, s) {}
  template<class MI> value_type operator[](const MI& mi) const { backendPoint(); return {hashValue(hashIndex(mi, (uint64_t)salt[0])), hashValue(hashIndex(mi, (uint64_t)salt[0] + 1000))}; }
};
template<class MI> Index toIndex(const MI& mi) { Index r; for (std::size_t k = 0; k < mi.size(); ++k) r.push_back(mi[k]); return r; }
struct MapVec {
  using value_type = double;
  Store* s;
  template<class B> void resize(const B&) { backendPoint(); }
  template<class MI> double& operator[](const MI& mi) { backendPoint(); return (*s)[toIndex(mi)]; }
  template<class MI> const double& operator[](const MI& mi) const { backendPoint(); return (*s)[toIndex(mi)]; }
};
struct MaskVec {
  const std::map<Index, bool>* m;
  template<class MI> bool operator[](const MI& mi) const { if (!m) return true; auto it = m->find(toIndex(mi)); return it == m->end() ? false : it->second; }
};

// ------------------------------------------------------------- test functions
template<class X> double smooth(const X& x, int salt, int comp) {
  double r = 0.1 * (salt % 7) + 0.25 * comp;
  for (std::size_t i = 0; i < x.size(); ++i) r += (0.5 + 0.3 * i + 0.1 * comp) * x[i] + 0.2 * (1 + salt % 3) * x[i] * x[(i + 1) % x.size()];
  return r;
}
template<class X> double smoothD(const X& x, int salt, int comp, int j) {
  std::size_t n = x.size();
  double r = 0.5 + 0.3 * j + 0.1 * comp, c = 0.2 * (1 + salt % 3);
  for (std::size_t i = 0; i < n; ++i) { if ((int)i == j) r += c * x[(i + 1) % n]; if ((int)((i + 1) % n) == j) r += c * x[i]; }
  return r;
}
inline double smoothDD(int n, int salt, int a, int b) {
  double r = 0, c = 0.2 * (1 + salt % 3);
  for (int i = 0; i < n; ++i) { int k = (i + 1) % n; if (i == a && k == b) r += c; if (k == a && i == b) r += c; }
  return r;
}
template<class R, class X> void fillRange(R& r, const X& x, int salt, int& comp) {
  if constexpr (std::is_arithmetic_v<R>) r = smooth(x, salt, comp++);
  else if constexpr (isTupleLike<R>::value) { Dune::Hybrid::forEach(std::make_index_sequence<std::tuple_size_v<R>>{}, [&](auto i) { fillRange(r[i], x, salt, comp); }); }
  else for (std::size_t i = 0; i < r.size(); ++i) fillRange(r[i], x, salt, comp);
}

// ------------------------------------------------------------- specs
enum Conf { CONF_NONE, CONF_H1, CONF_C1, CONF_DIV, CONF_CURL, CONF_FACEMEAN, CONF_CENTER, CONF_HERMITE, CONF_MORLEY };
struct NoState { template<class Env> NoState(Env&) {} template<class Env> void remeshed(Env&, int) {} };
template<class R> struct SpecBase {
  using Range = R;
  template<class Env> using State = NoState;
  static constexpr bool derivative = !isTupleLike<R>::value; // the function has a derivative type
  static constexpr bool rich = false;         // also composed, type-erased functions and unmasked interpolation
  static constexpr bool updatable = true;
  static constexpr bool sameView = false;     // update only along with the view it was built on
  static constexpr bool interpolation = true; // offers (nodal) interpolation
  static constexpr bool dofFunctionals = true;
  static constexpr bool projection = true;
  static constexpr bool needsDerivative = false;
  static constexpr bool memberInterpolation = true; // members of the space can be interpolated
  static constexpr bool entityKeys = true;    // local keys describe which grid entity carries the DOF
  static constexpr bool injective = true;     // distinct indices within an element
  static constexpr bool onto = true;          // every index is used by some element
  static constexpr bool descriptor = true;
  static constexpr bool tight = true;         // elements sharing a degree of freedom agree about its value
  static constexpr int orient = 2;            // grids: 0 aligned, 1 positively oriented, 2 arbitrarily oriented elements
  static constexpr Conf conf = CONF_NONE;
  static constexpr int poly = 1;              // polynomials of this order are in the space on each element
};

// ------------------------------------------------------------- bindables
template<class Env, class Impl> struct BindableBase : Bindable {
  Env* env;
  explicit BindableBase(Env* e) : env(e) {}
};

template<class Env, class LV, bool interp>
struct LocalViewB : Bindable {
  Env* env;
  std::shared_ptr<const void> keep;
  LV lv;
  LocalViewB(Env* e, std::shared_ptr<const void> k, LV&& l) : env(e), keep(k), lv(std::move(l)) {}
  LocalViewB(const LocalViewB&) = default;
  LocalViewB(LocalViewB&&) = default;
  void bind(int v, int i) override { lv.bind(env->element(v, i)); }
  void unbind() override { lv.unbind(); }
  bool bound() const override { return lv.bound(); }
  void observe(Obs& o) const override { observeLocalView(o, lv, [&](auto&& e) { return env->indexOf(e); }, interp); }
  std::unique_ptr<Bindable> copy() const override { return std::make_unique<LocalViewB>(*this); }
  std::unique_ptr<Bindable> move() override { return std::make_unique<LocalViewB>(std::move(*this)); }
  bool assign(const Bindable& o) override {
    if constexpr (std::is_copy_assignable_v<LV>) { auto& x = static_cast<const LocalViewB&>(o); lv = x.lv; keep = x.keep; return true; }
    return false;
  }
  bool moveAssign(Bindable& o) override {
    if constexpr (std::is_move_assignable_v<LV>) { auto& x = static_cast<LocalViewB&>(o); lv = std::move(x.lv); keep = x.keep; return true; }
    return false;
  }
};

template<class LF, class X> void observeFunction(Obs& o, const LF& lf, const X&) {
  constexpr int dim = X::dimension;
  for (int p = 0; p < 2; ++p) putValue(o, "value", lf, samplePoint<dim>(p));
}

template<class Env, class LF, bool assignable>
struct LocalFunctionB : Bindable {
  Env* env;
  std::shared_ptr<const void> keep;
  LF lf;
  std::function<std::unique_ptr<Bindable>(const LF&)> der;
  int derVariant = -1;
  LocalFunctionB(Env* e, LF&& l) : env(e), lf(std::move(l)) {}
  LocalFunctionB(const LocalFunctionB&) = default;
  LocalFunctionB(LocalFunctionB&& o) : env(o.env), keep(o.keep), lf(std::move(o.lf)), der(o.der), derVariant(o.derVariant) {}
  void bind(int v, int i) override { lf.bind(env->element(v, i)); }
  void unbind() override { lf.unbind(); }
  bool bound() const override { return lf.bound(); }
  void observe(Obs& o) const override {
    o.i("bound", lf.bound());
    o.i("element", env->indexOf(lf.localContext()));
    for (int p = 0; p < 2; ++p) putValue(o, "value", lf, samplePoint<Env::dim>(p));
  }
  std::unique_ptr<Bindable> copy() const override { return std::make_unique<LocalFunctionB>(*this); }
  std::unique_ptr<Bindable> move() override { return std::make_unique<LocalFunctionB>(std::move(*this)); }
  bool assign(const Bindable& o) override {
    if constexpr (assignable) { auto& x = static_cast<const LocalFunctionB&>(o); lf = x.lf; keep = x.keep; der = x.der; return true; }
    return false;
  }
  bool moveAssign(Bindable& o) override {
    if constexpr (assignable) { auto& x = static_cast<LocalFunctionB&>(o); lf = std::move(x.lf); keep = x.keep; der = x.der; return true; }
    return false;
  }
  std::unique_ptr<Bindable> derived() const override { if (der) return der(lf); return {}; }
  int derivedVariant() const override { return derVariant; }
};
template<bool assignable, class Env, class LF> auto makeLFB(Env* e, LF lf) { return std::make_unique<LocalFunctionB<Env, LF, assignable>>(e, std::move(lf)); }

// ------------------------------------------------------------- basis sources
template<class Basis> void observeSizes(Obs& o, const Basis& b, typename Basis::SizePrefix& p, int& budget) {
  auto n = b.size(p);
  o.i("size(prefix)", (long long)n);
  if (p.size() >= Basis::PreBasis::maxMultiIndexSize) return;
  for (std::size_t i = 0; i < n && budget > 0; ++i) {
    --budget;
    p.push_back(i);
    observeSizes(o, b, p, budget);
    p.pop_back();
  }
}
template<class D> void observeDescriptor(Obs& o, const D& d) {
  if constexpr (std::is_same_v<D, DF::ContainerDescriptors::Unknown>) o.i("descriptor", -1);
  else if constexpr (std::is_same_v<D, DF::ContainerDescriptors::Value>) o.i("descriptor", 0);
  else if constexpr (isTupleLike<D>::value) {
    o.i("descriptor", (long long)std::tuple_size_v<D>);
    Dune::Hybrid::forEach(std::make_index_sequence<std::tuple_size_v<D>>{}, [&](auto i) { observeDescriptor(o, d[i]); });
  } else {
    o.i("descriptor", (long long)d.size());
    for (std::size_t i = 0; i < d.size() && i < 4; ++i) observeDescriptor(o, d[i]);
  }
}
template<class Basis> void observeBasis(Obs& o, const Basis& b, int view) {
  o.i("dimension", (long long)b.dimension());
  o.i("size", (long long)b.size());
  o.i("gridView", view);
  typename Basis::SizePrefix p;
  int budget = 400;
  observeSizes(o, b, p, budget);
  o.i("maxSize", (long long)b.preBasis().maxNodeSize());
  observeDescriptor(o, b.containerDescriptor());
}

template<class Env, class Spec> struct BasisWorld;

template<class Env, class Spec>
struct BasisTraits {
  using State = typename Spec::template State<Env>;
  using Basis = decltype(DF::BasisFactory::makeBasis(std::declval<typename Env::GridView>(), Spec::factory(std::declval<Env&>(), std::declval<State&>(), 0)));
  using LV = typename Basis::LocalView;
  static constexpr bool leaf = [] { if constexpr (requires { std::integral_constant<std::size_t, LV::Tree::degree()>(); }) return LV::Tree::degree() == 0; else return false; }();
  static constexpr bool assignableView = std::is_copy_assignable_v<LV>;
};

template<class Env, class Spec>
struct BasisSource : Source {
  using T = BasisTraits<Env, Spec>;
  using Basis = typename T::Basis;
  BasisWorld<Env, Spec>* w;
  Basis basis;
  BasisSource(BasisWorld<Env, Spec>* w_, int v) : w(w_), basis(DF::BasisFactory::makeBasis(w->env.view(v), Spec::factory(w->env, w->state, v))) { view = v; }
  BasisSource(const BasisSource&) = default;
  BasisSource(BasisSource&&) = default;
  int variants() const override { return !has(X_VIEWS) ? 0 : T::leaf ? 1 : 3; }
  std::string variantName(int v) const override { return v == 0 ? "localView" : v == 1 ? "localView of first component" : "localView of last component"; }
  template<class LV> std::unique_ptr<Bindable> wrap(LV lv, std::shared_ptr<const void> keep) const {
    return std::make_unique<LocalViewB<Env, LV, Spec::dofFunctionals>>(&w->env, keep, std::move(lv));
  }
  std::unique_ptr<Bindable> make(int v) const override {
    if constexpr (!has(X_VIEWS)) return {};
    else {
    if constexpr (!T::leaf) {
      auto sub = [&](auto i) {
        auto sb = DF::subspaceBasis(basis, i);
        auto p = std::make_shared<decltype(sb)>(sb);
        return wrap(p->localView(), p);
      };
      if (v == 1) return sub(Dune::Indices::_0);
      if (v == 2) {
        if constexpr (requires { std::integral_constant<std::size_t, T::LV::Tree::degree()>(); })
          return sub(Dune::index_constant<T::LV::Tree::degree() - 1>());
        else
          return sub(basis.localView().tree().degree() - 1);
      }
    }
    return wrap(basis.localView(), nullptr);
    }
  }
  void observeGlobal(Obs& o) const override { observeBasis(o, basis, w->env.viewOf(basis.gridView())); }
  std::unique_ptr<Source> copy() const override { return std::make_unique<BasisSource>(*this); }
  std::unique_ptr<Source> move() override { return std::make_unique<BasisSource>(std::move(*this)); }
  bool assign(const Source& o) override {
    if constexpr (std::is_copy_assignable_v<Basis>) { basis = static_cast<const BasisSource&>(o).basis; view = o.view; return true; }
    return false;
  }
  bool moveAssign(Source& o) override {
    if constexpr (std::is_move_assignable_v<Basis>) { basis = std::move(static_cast<BasisSource&>(o).basis); view = o.view; return true; }
    return false;
  }
  bool update(int v) override {
    if constexpr (Spec::updatable) {
      basis.update(w->env.view(v));
      view = v;
      return true;
    }
    return false;
  }
};

struct Shift { template<class V> auto operator()(const V& v) const { callbackPoint(); auto r = v; r *= 2.0; return r; } double operator()(double v) const { callbackPoint(); return 2.0 * v + 1.0; } };

template<class R> struct LastRange { using type = R; };
template<class K, int n> struct LastRange<Dune::FieldVector<K, n>> { using type = K; };
template<class K, int n, int m> struct LastRange<Dune::FieldMatrix<K, n, m>> { using type = Dune::FieldVector<K, m>; };
template<class T, std::size_t n> struct LastRange<std::array<T, n>> { using type = T; };
template<class... A> struct LastRange<Dune::TupleVector<A...>> { using type = std::tuple_element_t<sizeof...(A) - 1, std::tuple<A...>>; };

template<class Basis> auto lastComponent(const Basis& b) {
  if constexpr (requires { std::integral_constant<std::size_t, Basis::LocalView::Tree::degree()>(); })
    return DF::subspaceBasis(b, Dune::index_constant<Basis::LocalView::Tree::degree() - 1>());
  else
    return DF::subspaceBasis(b, std::size_t(b.localView().tree().degree() - 1));
}

// Discrete functions. Mode 0: on the basis, mode 1: on its last component,
// mode 2: with vector valued coefficients.
// refs: the function references basis and coefficients kept elsewhere.
enum { LF, DLF, COMPOSED, ERASED, DERASED };
template<class Env, class Spec, int Mode>
struct FunctionSource : Source {
  using T = BasisTraits<Env, Spec>;
  using Basis = typename T::Basis;
  using Range = std::conditional_t<Mode == 1, typename LastRange<typename Spec::Range>::type, std::conditional_t<Mode == 2, Dune::FieldVector<double, 2>, typename Spec::Range>>;
  using Vec = std::conditional_t<Mode == 2, HashVec2, HashVec>;
  static constexpr bool differentiable = Mode == 1 ? Spec::derivative && !isTupleLike<Range>::value : Spec::derivative;
  static constexpr bool rich = Spec::rich && Mode == 0;
  BasisWorld<Env, Spec>* w;
  bool refs;
  std::shared_ptr<Basis> basis;
  std::shared_ptr<Vec> coeff;
  static Basis makeB(BasisWorld<Env, Spec>* w, int v) { return DF::BasisFactory::makeBasis(w->env.view(v), Spec::factory(w->env, w->state, v)); }
  static auto build(BasisWorld<Env, Spec>* w, Basis* b, Vec* c, int v, int s) {
    if constexpr (Mode == 1) return DF::makeDiscreteGlobalBasisFunction<Range>(lastComponent(*b), Vec(s));
    else if (c) return DF::makeDiscreteGlobalBasisFunction<Range>(*b, *c);
    else return DF::makeDiscreteGlobalBasisFunction<Range>(makeB(w, v), Vec(s));
  }
  using F = decltype(build(nullptr, nullptr, nullptr, 0, 0));
  F f;
  FunctionSource(BasisWorld<Env, Spec>* w_, int v, int s, bool r)
    : w(w_), refs(r), basis(r || Mode == 1 ? std::make_shared<Basis>(makeB(w_, v)) : nullptr), coeff(r ? std::make_shared<Vec>(s) : nullptr), f(build(w_, basis.get(), coeff.get(), v, s)) { view = v; salt = s; }
  FunctionSource(const FunctionSource&) = default;
  FunctionSource(FunctionSource&&) = default;
  static constexpr bool erasable = rich && differentiable;
  static std::vector<int> list() { std::vector<int> r{LF}; if (differentiable) r.push_back(DLF); if (rich) r.push_back(COMPOSED); if (erasable) { r.push_back(ERASED); r.push_back(DERASED); } return r; }
  int variants() const override { return (int)list().size(); }
  std::string variantName(int v) const override { static const char* n[] = {"local function", "local derivative", "composed local function", "type-erased local function", "type-erased local derivative"}; return n[list()[v]]; }
  bool survives() const override { return !refs; }
  std::unique_ptr<Bindable> make(int v) const override {
    constexpr bool as = T::assignableView;
    Env* env = &w->env;
    int k = list()[v];
    std::shared_ptr<const void> keep;
    if (Mode == 1) keep = basis;
    if constexpr (rich)
      if (k == COMPOSED) {   // its local functions refer to the composed function
        auto g = std::make_shared<decltype(DF::makeComposedGridFunction(Shift{}, f))>(DF::makeComposedGridFunction(Shift{}, f));
        auto b = makeLFB<false>(env, localFunction(*g));
        b->keep = g;
        return b;
      }
    if constexpr (differentiable)
      if (k == DLF) { auto b = makeLFB<as>(env, localFunction(derivative(f))); b->keep = keep; return b; }
    if constexpr (erasable) {
      using Erased = DF::GridViewFunction<Range(typename F::Domain), typename Env::GridView>;
      using ELF = std::decay_t<decltype(localFunction(std::declval<const Erased&>()))>;
      if (k == ERASED) {
        Erased g = f;
        auto b = makeLFB<true>(env, localFunction(g));
        b->der = [env](const ELF& lf) -> std::unique_ptr<Bindable> { return makeLFB<true>(env, derivative(lf)); };
        b->derVariant = 4;
        return b;
      }
      if (k == DERASED) { Erased g = f; return makeLFB<true>(env, localFunction(derivative(g))); }
    }
    auto b = makeLFB<as>(env, localFunction(f));
    b->keep = keep;
    if constexpr (differentiable) {
      using FLF = std::decay_t<decltype(localFunction(f))>;
      b->der = [env, keep](const FLF& lf) -> std::unique_ptr<Bindable> { auto r = makeLFB<as>(env, derivative(lf)); r->keep = keep; return r; };
      b->derVariant = 1;
    }
    return b;
  }
  void observeGlobal(Obs& o) const override {
    if constexpr (Mode == 1) observeBasis(o, f.basis().rootBasis(), w->env.viewOf(f.basis().gridView()));
    else observeBasis(o, f.basis(), w->env.viewOf(f.basis().gridView()));
  }
  std::unique_ptr<Source> copy() const override { if (refs) return nullptr; return std::make_unique<FunctionSource>(*this); }
  std::unique_ptr<Source> move() override { if (refs) return nullptr; return std::make_unique<FunctionSource>(std::move(*this)); }
  bool assign(const Source& o) override { if (refs) return false; auto& x = static_cast<const FunctionSource&>(o); f = x.f; basis = x.basis; view = o.view; salt = o.salt; return true; }
  bool moveAssign(Source& o) override { if (refs) return false; auto& x = static_cast<FunctionSource&>(o); f = std::move(x.f); basis = x.basis; view = o.view; salt = o.salt; return true; }
  bool update(int v) override {
    if constexpr (Spec::updatable) {
      if (!refs || v != view) return false;
      basis->update(w->env.view(v));
      return true;
    }
    return false;
  }
  bool setSalt(int s) override { if (!refs) return false; coeff->salt[0] = s; salt = s; return true; }
  // evaluation in global coordinates, at a point inside of the given element
  bool evaluateAt(int e, int p, Obs& o) const override {
    if constexpr (Env::searchable) {
      w->env.searchFrom(view);
      auto geo = w->env.element(view, e).geometry();
      putValue(o, "value", f, geo.global(samplePoint<Env::dim>(p)));
      return true;
    }
    return false;
  }
};

// ------------------------------------------------------------- the world
template<class Env_, class Spec>
struct BasisWorld : World {
  using Env = Env_;
  using T = BasisTraits<Env, Spec>;
  using Basis = typename T::Basis;
  static constexpr int dim = Env::dim;
  Env env{Spec::orient};
  typename T::State state{env};
  int views() const override { return env.views(); }
  int elements(int v) const override { return env.elements(v); }
  bool canRemesh() const override { return Env::remeshable && Spec::updatable; }
  void doRemesh(int v, uint64_t seed) override { env.remesh(v, seed); state.remeshed(env, v); }
  bool isBasis() const override { return true; }
  int kinds() const override { return !has(X_FUNC) ? 1 : !T::leaf || Spec::rich ? 4 : 3; }
  std::string kindName(int k) const override { return k == 0 ? "basis" : k == 1 ? "owning function" : k == 2 ? "referencing function" : T::leaf ? "function with vector coefficients" : "function of the last component"; }
  bool kindSurvives(int k) const override { return k == 1 || k == 3; }
  static constexpr int mode3 = T::leaf ? 2 : 1;
  std::unique_ptr<Source> make(int k, int v, int s) override {
    if (k == 0) return std::make_unique<BasisSource<Env, Spec>>(this, v);
    if constexpr (has(X_FUNC)) {
      if constexpr (!T::leaf || Spec::rich)
        if (k == 3) return std::make_unique<FunctionSource<Env, Spec, mode3>>(this, v, s, false);
      return std::make_unique<FunctionSource<Env, Spec, 0>>(this, v, s, k == 2);
    }
    return {};
  }
  bool updatable(int k) const override { return Spec::updatable && (k == 0 || k == 2); }
  bool sameViewOnly() const override { return Spec::sameView; }
  // values from a local view that has been bound exactly once, the coefficients, and the geometry
  bool expected(int k, int variant, int v, int e, int salt, Obs& o) override {
    if constexpr (has(X_EXPECT) && has(X_FUNC)) {
      if (k == 0) return false;
      bool der = false, comp = false;
      int mode = 0;
      auto pick = [&](auto list) { der = list[variant] == DLF || list[variant] == DERASED; comp = list[variant] == COMPOSED; };
      if (k < 3) pick(FunctionSource<Env, Spec, 0>::list());
      else if constexpr (!T::leaf || Spec::rich) { pick(FunctionSource<Env, Spec, mode3>::list()); mode = mode3; }
      Basis b = DF::BasisFactory::makeBasis(env.view(v), Spec::factory(env, state, v));
      auto el = env.element(v, e);
      auto lv = b.localView();
      lv.bind(el);
      o.i("bound", 1);
      o.i("element", env.indexOf(el));
      auto geo = el.geometry();
      for (int p = 0; p < 2; ++p) {
        auto x = samplePoint<dim>(p);
        auto J = geo.jacobianInverseTransposed(x);
        std::size_t last = 0;
        if (mode == 1) Dune::TypeTree::forEachLeafNode(lv.tree(), [&](auto&&, auto&& path) { last = std::max<std::size_t>(last, path[Dune::Indices::_0]); });
        Dune::TypeTree::forEachLeafNode(lv.tree(), [&](auto&& node, auto&& path) {
          if (mode == 1) { if constexpr (!T::leaf) if (std::size_t(path[Dune::Indices::_0]) != last) return; }
          using FE = typename std::decay_t<decltype(node)>::FiniteElement;
          using LT = typename FE::Traits::LocalBasisType::Traits;
          constexpr int r = LT::dimRange;
          int copies = mode == 2 ? 2 : 1;
          for (int q = 0; q < copies; ++q) {
            double val[r] = {}, grad[r][dim] = {};
            if (!node.empty()) {
              std::vector<typename LT::RangeType> val0;
              std::vector<typename LT::JacobianType> jac0;
              auto& lb = node.finiteElement().localBasis();
              lb.evaluateFunction(x, val0);
              if (der) if constexpr (Spec::derivative) lb.evaluateJacobian(x, jac0);
              for (std::size_t i = 0; i < node.size(); ++i) {
                auto mi = lv.index(node.localIndex(i));
                double c = hashValue(hashIndex(mi, (uint64_t)(salt + 1000 * q)));
                for (int a = 0; a < r; ++a) {
                  val[a] += c * val0[i][a];
                  if (der) { Dune::FieldVector<double, dim> ref, g; for (int m = 0; m < dim; ++m) ref[m] = jac0[i][a][m]; J.mv(ref, g); for (int d = 0; d < dim; ++d) grad[a][d] += c * g[d]; }
                }
              }
            }
            for (int a = 0; a < r; ++a) {
              if (der) for (int d = 0; d < dim; ++d) o.d("value", grad[a][d]);
              else o.d("value", !comp ? val[a] : std::is_same_v<typename Spec::Range, double> ? 2 * val[a] + 1 : 2 * val[a]);
            }
          }
        });
      }
      return true;
    }
    return false;
  }
  static const Basis& basisOf(const Source& s) { return static_cast<const BasisSource<Env, Spec>&>(s).basis; }

  // ---- numbering
  std::string checkNumbering(const Source& s) override {
    if constexpr (!has(X_NUM)) return "";
    else {
    const Basis& b = basisOf(s);
    int v = s.view;
    std::set<Index> used;
    std::map<std::tuple<Index, int, long>, std::set<Index>> onEntity;   // (node, codim, entity) -> {index}
    std::map<Index, std::tuple<int, long, Index>> home;
    std::map<std::pair<int, long>, int> seen;
    auto lv = b.localView();
    std::size_t maxSeen = 0;
    for (int e = 0; e < env.elements(v); ++e) {
      auto el = env.element(v, e);
      lv.bind(el);
      if (lv.size() > lv.maxSize()) return fmt("element %d: local size %zu exceeds the maximal size %zu", e, (size_t)lv.size(), (size_t)lv.maxSize());
      maxSeen = std::max<std::size_t>(maxSeen, lv.size());
      std::set<Index> mine;
      for (std::size_t i = 0; i < lv.size(); ++i) {
        auto mi = toIndex(lv.index(i));
        if (!mine.insert(mi).second && Spec::injective) return fmt("element %d: two local degrees of freedom have the same global index %s", e, str(mi).c_str());
        used.insert(mi);
        typename Basis::SizePrefix p;
        for (auto x : mi) {
          auto n = b.size(p);
          if (x >= n) return fmt("element %d: index %s is outside of the range [0,%zu)", e, str(mi).c_str(), (size_t)n);
          p.push_back(x);
        }
        if (b.size(p) != 0) return fmt("element %d: index %s is only a prefix: its size is %zu", e, str(mi).c_str(), (size_t)b.size(p));
      }
      // the local numbering is a bijection onto [0,size)
      std::vector<int> hit(lv.size(), 0);
      std::string err;
      std::map<std::tuple<Index, int, long>, std::set<Index>> here;
      std::vector<Index> nodes;
      Dune::TypeTree::forEachLeafNode(lv.tree(), [&](auto&& node, auto&& path) {
        if (node.empty()) return;
        Index np;
        Dune::Hybrid::forEach(Dune::range(Dune::Hybrid::size(path)), [&](auto i) { np.push_back((unsigned long)std::size_t(path[i])); });
        nodes.push_back(np);
        auto& fe = node.finiteElement();
        if (fe.size() != node.size()) err = fmt("element %d: a leaf of size %zu has a finite element of size %zu", e, (size_t)node.size(), (size_t)fe.size());
        for (std::size_t i = 0; i < node.size(); ++i) {
          auto li = node.localIndex(i);
          if (li >= lv.size()) { err = fmt("element %d: local index %zu out of range", e, (size_t)li); return; }
          hit[li]++;
          if constexpr (Spec::entityKeys) {
            auto key = fe.localCoefficients().localKey(i);
            int c = (int)key.codim();
            if (c > dim) { err = "codim of a local key out of range"; return; }
            long no = env.subEntityNo(el, (int)key.subEntity(), c);
            auto mi = toIndex(lv.index(li));
            here[{np, c, no}].insert(mi);
            auto [it, fresh] = home.emplace(mi, std::make_tuple(c, no, np));
            if (!fresh && it->second != std::make_tuple(c, no, np)) err = fmt("index %s is used for degrees of freedom on different grid entities or components (element %d)", str(mi).c_str(), e);
          }
        }
      });
      if (!err.empty()) return err;
      for (std::size_t i = 0; i < hit.size(); ++i) if (hit[i] != 1) return fmt("element %d: local index %zu occurs %d times in the tree", e, i, hit[i]);
      if constexpr (Spec::entityKeys) {
        auto re = Dune::referenceElement<double, dim>(el.type());
        for (auto& np : nodes)
          for (int c = 0; c <= dim; ++c)
            for (int i = 0; i < re.size(c); ++i) {
              auto key = std::make_tuple(np, c, env.subEntityNo(el, i, c));
              auto it = onEntity.find(key);
              if (it == onEntity.end()) onEntity[key] = here[key];
              else if (it->second != here[key]) return fmt("elements sharing a grid entity (codim %d) disagree about the indices on it (element %d)", c, e);
            }
      }
    }
    if (used.size() != b.dimension()) if (Spec::onto) return fmt("%zu indices are in use, but the dimension is %zu", used.size(), (size_t)b.dimension());
    if constexpr (Spec::onto) {
      // complete index tree: every prefix has exactly the children 0..size-1
      std::map<Index, std::set<unsigned long>> children;
      for (auto& mi : used) { Index p; for (auto x : mi) { children[p].insert(x); p.push_back(x); } }
      for (auto& [p, c] : children) {
        typename Basis::SizePrefix sp;
        for (auto x : p) sp.push_back(x);
        if (c.size() != b.size(sp)) return fmt("prefix %s has %zu children in use, but its size is %zu", str(p).c_str(), c.size(), (size_t)b.size(sp));
      }
    }
    if constexpr (Spec::descriptor) {
      std::string err = checkDescriptor(b.containerDescriptor(), b, {});
      if (!err.empty()) return err;
    }
    if (env.viewOf(b.gridView()) != v) return fmt("the basis reports grid view %d, but lives on %d", env.viewOf(b.gridView()), v);
    return "";
    }
  }
  static std::string str(const Index& i) { std::string r = "("; for (auto x : i) r += std::to_string(x) + ","; if (r.size() > 1) r.pop_back(); return r + ")"; }
  template<class D> static std::string checkDescriptor(const D& d, const Basis& b, Index p) {
    typename Basis::SizePrefix sp;
    for (auto x : p) sp.push_back(x);
    if constexpr (std::is_same_v<D, DF::ContainerDescriptors::Unknown>) return "";
    else {
      std::size_t n = p.size() > Basis::PreBasis::maxMultiIndexSize ? 0 : b.size(sp);
      if constexpr (std::is_same_v<D, DF::ContainerDescriptors::Value>) {
        if (n != 0) return fmt("the container descriptor ends at prefix %s, but its size is %zu", str(p).c_str(), n);
        return "";
      } else {
        if ((std::size_t)d.size() != n) return fmt("the container descriptor says size %zu for prefix %s, the basis says %zu", (size_t)d.size(), str(p).c_str(), n);
        std::string err;
        if constexpr (isTupleLike<D>::value) {
          Dune::Hybrid::forEach(std::make_index_sequence<std::tuple_size_v<D>>{}, [&](auto i) { if (err.empty()) { Index q = p; q.push_back(i); err = checkDescriptor(d[i], b, q); } });
        } else
          for (std::size_t i = 0; i < (std::size_t)d.size() && err.empty(); ++i) { Index q = p; q.push_back(i); err = checkDescriptor(d[i], b, q); }
        return err;
      }
    }
  }

  // ---- shape functions
  std::string checkShapeFunctions(const Source& s, int salt) override {
#if SIM_F & 256
    const Basis& b = basisOf(s);
    auto lv = b.localView();
    int n = env.elements(s.view), poly = Spec::poly;
    if constexpr (requires { Spec::polyOf(state); }) poly = Spec::polyOf(state);
    std::string err;
    for (int k = 0; k < 3 && k < n; ++k) {
      auto el = env.element(s.view, int(mix(salt, k) % n));
      lv.bind(el);
      Dune::TypeTree::forEachLeafNode(lv.tree(), [&](auto&& node, auto&& path) {
        if (node.empty() || !err.empty()) return;
        err = checkShapes(node.finiteElement(), node.size(), el.geometry().affine(), poly, salt, k == 0);
        if (!err.empty()) err = fmt("element %d: ", env.indexOf(el)) + err;
      });
    }
    return err;
#else
    return "";
#endif
  }

  // ---- conformity of the functions in the space
  std::string checkConforming(const Source& s, int salt) override {
    if constexpr (!has(X_CONF) || Spec::conf == CONF_NONE || dim < 1) return "";
    else {
      const Basis& b = basisOf(s);
      HashVec c(salt);
      auto f = DF::makeDiscreteGlobalBasisFunction<typename Spec::Range>(b, c);
      auto in = localFunction(f), out = localFunction(f);
      auto gv = env.view(s.view);
      for (int e = 0; e < env.elements(s.view); ++e) {
        auto el = env.element(s.view, e);
        in.bind(el);
        for (auto&& is : Dune::intersections(gv, el)) {
          if (!is.neighbor()) continue;
          out.bind(is.outside());
          std::string err = checkFace(is, in, out, e);
          if (!err.empty()) return err;
        }
      }
      return "";
    }
  }
  template<class R> static void flat(std::vector<double>& v, const R& r) { Obs o; put(o, "", r); for (auto& t : o.t) v.push_back(t.d); }
  template<class IS, class LF> std::string checkFace(const IS& is, const LF& in, const LF& out, int e) {
    auto gi = is.geometryInInside();
    auto go = is.geometryInOutside();
    auto fre = Dune::referenceElement<double, dim - 1>(is.type());
    using LC = Dune::FieldVector<double, dim - 1>;
    std::vector<std::pair<LC, double>> pts;
    if (Spec::conf == CONF_FACEMEAN) { for (auto& q : Dune::QuadratureRules<double, dim - 1>::rule(is.type(), 6)) pts.push_back({q.position(), q.weight()}); }
    else if (Spec::conf == CONF_CENTER) pts.push_back({fre.position(0, 0), 1});
    else if (Spec::conf == CONF_MORLEY) { for (int i = 0; i < fre.size(dim - 1); ++i) pts.push_back({fre.position(i, dim - 1), 1}); }
    else {
      LC x(0.23);
      pts.push_back({x, 1});
      for (int i = 0; i < dim - 1; ++i) x[i] = 0.11 + 0.4 * i;
      pts.push_back({x, 1});
      // piecewise defined shape functions (pyramids) are two-valued at vertices
      pts.push_back({Spec::conf == CONF_DIV || Spec::conf == CONF_CURL ? LC(0.3) : fre.position(0, dim - 1), 1});
    }
    std::vector<double> jump;
    auto cmp = [&](const std::vector<double>& a, const std::vector<double>& b2, const char* what) -> std::string {
      rec->comparisons++;
      for (std::size_t k = 0; k < a.size(); ++k)
        if (!(std::fabs(a[k] - b2[k]) <= 1e-7 * std::fmax(1.0, std::fabs(a[k])))) return fmt("%s jumps across the face %d of element %d: %.10g / %.10g", what, is.indexInInside(), e, a[k], b2[k]);
      return "";
    };
    std::vector<double> sumA, sumB;
    for (auto& [x, w] : pts) {
      std::vector<double> a, b2;
      auto ya = in(gi.global(x)), yb = out(go.global(x));
      if constexpr (Spec::conf == CONF_DIV || Spec::conf == CONF_CURL) {
        auto n = is.unitOuterNormal(x);
        if (Spec::conf == CONF_DIV) { a.push_back(ya * n); b2.push_back(yb * n); }
        else { auto ta = ya, tb = yb; ta.axpy(-(ya * n), n); tb.axpy(-(yb * n), n); flat(a, ta); flat(b2, tb); }
        auto err = cmp(a, b2, Spec::conf == CONF_DIV ? "the normal component" : "the tangential component");
        if (!err.empty()) return err;
      } else {
        flat(a, ya); flat(b2, yb);
        if constexpr (Spec::conf == CONF_FACEMEAN) {
          sumA.resize(a.size()); sumB.resize(a.size());
          for (std::size_t k = 0; k < a.size(); ++k) { sumA[k] += w * a[k]; sumB[k] += w * b2[k]; }
        } else {
          auto err = cmp(a, b2, "the function");
          if (!err.empty()) return err;
        }
      }
    }
    if constexpr (Spec::conf == CONF_FACEMEAN) { auto err = cmp(sumA, sumB, "the mean value"); if (!err.empty()) return err; }
    if constexpr (Spec::conf == CONF_C1 || Spec::conf == CONF_HERMITE || Spec::conf == CONF_MORLEY) {
      auto din = derivative(in), dout = derivative(out);
      std::vector<LC> q;
      if (Spec::conf == CONF_C1) q.push_back(pts[0].first);
      if (Spec::conf != CONF_MORLEY) for (int i = 0; i < fre.size(dim - 1); ++i) q.push_back(fre.position(i, dim - 1));
      if (Spec::conf == CONF_MORLEY) q.push_back(fre.position(0, 0));
      for (auto& x : q) {
        std::vector<double> a, b2;
        flat(a, din(gi.global(x))); flat(b2, dout(go.global(x)));
        if (Spec::conf == CONF_MORLEY) {
          auto n = is.unitOuterNormal(x);
          double sa = 0, sb = 0;
          for (int k = 0; k < dim; ++k) { sa += a[k] * n[k]; sb += b2[k] * n[k]; }
          a = {sa}; b2 = {sb};
        }
        auto err = cmp(a, b2, "the derivative");
        if (!err.empty()) return err;
      }
    }
    return "";
  }

  // ---- interpolation
  int interpJobs() const override { return !Spec::interpolation ? 0 : Spec::memberInterpolation ? 2 : 1; }
  bool componentJob() const override { return Spec::interpolation && !T::leaf; }
  std::string interpName(int j) const override { return j == 0 ? "user function" : j == 1 ? "member of the space" : "user function into the last component"; }
  bool projection() const override { return Spec::projection && Spec::memberInterpolation && Spec::interpolation; }
  bool tightInterpolation() const override { return Spec::tight && Spec::conf != CONF_NONE; }
  void interpolate(const Source& s, int job, int salt, Store& st, const std::map<Index, bool>* mask) override {
    if constexpr (Spec::interpolation && has(X_INTERP)) {
      const Basis& b = basisOf(s);
      MapVec target{&st};
      auto run = [&](const auto& f) {
        if constexpr (Spec::rich) if (!mask) { DF::interpolate(b, target, f); return; }
        DF::interpolate(b, target, f, MaskVec{mask});
      };
      using X = Dune::FieldVector<double, dim>;
      using R = typename Spec::Range;
      if (job == 0) {
        auto f = [salt](const X& x) { callbackPoint(); R r; int c = 0; fillRange(r, x, salt, c); return r; };
        if constexpr (Spec::needsDerivative) {
          auto df = [salt](const X& x) { callbackPoint(); Dune::FieldVector<double, dim> r; for (int j = 0; j < dim; ++j) r[j] = smoothD(x, salt, 0, j); return r; };
          auto ddf = [salt](const X&) { callbackPoint(); Dune::FieldMatrix<double, dim, dim> r; for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) r[i][j] = smoothDD(dim, salt, i, j); return r; };
          auto F = DF::makeDifferentiableFunctionFromCallables(DF::SignatureTag<R(X)>(), f, df, ddf);
          run(DF::makeAnalyticGridViewFunction(F, b.gridView()));
        } else
          run(f);
      } else if (job == 2) {
        if constexpr (!T::leaf) {
          auto sub = lastComponent(b);
          auto f = [salt](const X& x) { callbackPoint(); R r; int c = 0; fillRange(r, x, salt, c); return lastEntry(r); };
          if constexpr (Spec::rich) if (!mask) { DF::interpolate(sub, target, f); return; }
          DF::interpolate(sub, target, f, MaskVec{mask});
        }
      } else if constexpr (Spec::memberInterpolation) {
        HashVec c(salt);
        auto f = DF::makeDiscreteGlobalBasisFunction<R>(b, c);
        run(f);
      }
    }
  }
  template<class R> static auto lastEntry(const R& r) {
    if constexpr (isTupleLike<R>::value) return r[Dune::index_constant<std::tuple_size_v<R> - 1>()];
    else return typename LastRange<R>::type(r[r.size() - 1]);
  }
  void componentIndices(const Source& s, std::set<Index>& in) override {
    if constexpr (!T::leaf) {
      auto lv = basisOf(s).localView();
      for (int e = 0; e < env.elements(s.view); ++e) {
        lv.bind(env.element(s.view, e));
        std::size_t last = lv.tree().degree() - 1;
        Dune::TypeTree::forEachLeafNode(lv.tree(), [&](auto&& node, auto&& path) {
          if (std::size_t(path[Dune::Indices::_0]) != last) return;
          for (std::size_t i = 0; i < node.size(); ++i) in.insert(toIndex(lv.index(node.localIndex(i))));
        });
      }
    }
  }
  // every index and the element/component it belongs to
  std::set<Index> allIndices(const Source& s) override {
    std::set<Index> r;
    auto lv = basisOf(s).localView();
    for (int e = 0; e < env.elements(s.view); ++e) {
      lv.bind(env.element(s.view, e));
      for (std::size_t i = 0; i < lv.size(); ++i) r.insert(toIndex(lv.index(i)));
    }
    return r;
  }

  // ---- degrees of freedom on subentities and on the boundary
  template<class RE> static bool inside(const RE& re, int a, int ca, int b, int cb) {  // subentity (a,ca) in subentity (b,cb)
    std::set<int> vb;
    for (int k = 0; k < re.size(b, cb, dim); ++k) vb.insert(re.subEntity(b, cb, k, dim));
    for (int k = 0; k < re.size(a, ca, dim); ++k) if (!vb.count(re.subEntity(a, ca, k, dim))) return false;
    return true;
  }
  template<class LV> static std::set<std::size_t> dofsIn(const LV& lv, int sub, int codim) {
    std::set<std::size_t> r;
    auto re = Dune::referenceElement<double, dim>(lv.element().type());
    Dune::TypeTree::forEachLeafNode(lv.tree(), [&](auto&& node, auto&&) {
      if (node.empty()) return;
      auto& lc = node.finiteElement().localCoefficients();
      for (std::size_t i = 0; i < lc.size(); ++i)
        if (inside(re, (int)lc.localKey(i).subEntity(), (int)lc.localKey(i).codim(), sub, codim)) r.insert(node.localIndex(i));
    });
    return r;
  }
#if SIM_F & 16
  std::string checkTraversal(const Source& s) override {
    {
      const Basis& b = basisOf(s);
      std::string err = traverse(b, s.view);
      if constexpr (!T::leaf) { if (err.empty()) { auto sub = lastComponent(b); err = traverse(sub, s.view); if (!err.empty()) err = "last component: " + err; } }
      return err;
    }
  }
  template<class B> std::string traverse(const B& b, int v) {
    auto gv = env.view(v);
    std::set<std::array<long, 3>> want;      // element, facet, local index
    std::set<std::pair<long, long>> want2;
    std::set<Index> want1;
    auto lv = b.localView();
    for (int e = 0; e < env.elements(v); ++e) {
      auto el = env.element(v, e);
      lv.bind(el);
      for (auto&& is : Dune::intersections(gv, el)) {
        if (!is.boundary()) continue;
        for (auto i : dofsIn(lv, is.indexInInside(), 1)) { want.insert({env.indexOf(el), is.indexInInside(), (long)i}); want2.insert({env.indexOf(el), (long)i}); want1.insert(toIndex(lv.index(i))); }
      }
    }
    std::set<std::array<long, 3>> got;
    std::set<std::pair<long, long>> got2;
    std::set<Index> got1;
    bool faulty = flip(1, 3);
    for (int round = 0; round < 2; ++round) {
      Plan p;
      if (faulty && round == 0) { if (flip(1, 2)) p.callbackCountdown = choose(6); else if (flip(1, 2)) p.allocCountdown = choose(20); else p.gridCountdown = choose(6); }
      got.clear(); got2.clear(); got1.clear();
      std::string bad;
      try {
        Armed a(p);
        DF::forEachBoundaryDOF(b, [&](std::size_t i, auto&& l, auto&& is) { callbackPoint(); Disarmed d; if (env.indexOf(l.element()) != env.indexOf(is.inside())) bad = "the intersection passed along does not belong to the element"; got.insert({env.indexOf(l.element()), is.indexInInside(), (long)i}); if (i >= l.size()) bad = "local index out of range"; });
        DF::forEachBoundaryDOF(b, [&](std::size_t i, auto&& l) { callbackPoint(); Disarmed d; got2.insert({env.indexOf(l.element()), (long)i}); });
        DF::forEachBoundaryDOF(b, [&](typename B::MultiIndex mi) { callbackPoint(); Disarmed d; got1.insert(toIndex(mi)); });
      } catch (std::exception& ex) {
        if (!p.fired) return std::string("an exception although nothing went wrong: ") + ex.what();
        continue;
      }
      rec->comparisons += 3;
      if (!bad.empty()) return bad;
      if (got != want) return fmt("the boundary loop with intersections visits %zu of %zu (element, facet, index) triples as expected by the local keys", got.size(), want.size());
      if (got2 != want2) return fmt("the boundary loop with local indices visits %zu (element, index) pairs, expected %zu", got2.size(), want2.size());
      if (got1 != want1) return fmt("the boundary loop with global indices visits %zu indices, expected %zu", got1.size(), want1.size());
    }
    // one object bound again and again
    auto se = DF::subEntityDOFs(b);
    int n = 3 + (int)choose(8);
    for (int k = 0; k < n; ++k) {
      int e = (int)choose(env.elements(v));
      auto el = env.element(v, e);
      lv.bind(el);
      auto re = Dune::referenceElement<double, dim>(el.type());
      int c = (int)choose(dim + 1), i = (int)choose(re.size(c));
      if (flip(1, 4)) { Plan p; p.allocCountdown = 0; try { Armed a(p); se.bind(lv, i, c); } catch (std::bad_alloc&) {} }
      if (c == 1 && flip(1, 2)) { for (auto&& is : Dune::intersections(gv, el)) if (is.indexInInside() == i) se.bind(lv, is); }
      else se.bind(lv, i, c);
      auto w1 = dofsIn(lv, i, c);
      auto check = [&](const auto& x) -> std::string {
        std::set<std::size_t> g(x.begin(), x.end());
        if (g != w1) return fmt("subentity %d of codim %d of element %d: the range has %zu indices, expected %zu", i, c, e, g.size(), w1.size());
        if (x.size() < w1.size()) return "size() is too small";
        for (std::size_t j = 0; j < x.size(); ++j) if (!w1.count(x[j])) return "operator[] shows an index which is not on the subentity";
        for (std::size_t j = 0; j < lv.size(); ++j) if (x.contains(j) != (w1.count(j) > 0)) return fmt("subentity %d of codim %d of element %d: contains(%zu) is wrong", i, c, e, j);
        return "";
      };
      rec->comparisons++;
      std::string err = check(se);
      if (err.empty() && flip(1, 3)) { auto cp = se; err = check(cp); }
      if (err.empty() && flip(1, 3)) err = check(DF::subEntityDOFs(lv, i, c));
      if (!err.empty()) return err;
      event("subentity %d %d %d: %zu", e, i, c, w1.size());
    }
    return "";
  }

#endif
  // ---- vector containers
#if SIM_F & 32
  static constexpr bool hasDescriptor = Spec::descriptor && !std::is_same_v<std::decay_t<decltype(std::declval<const Basis&>().containerDescriptor())>, DF::ContainerDescriptors::Unknown>;
  template<class C> static void countEntries(const C& c, std::size_t& n, double& sum) {
    if constexpr (std::is_arithmetic_v<C>) { ++n; sum += std::fabs(c); }
    else if constexpr (requires { c[0]; c.size(); }) for (std::size_t i = 0; i < c.size(); ++i) countEntries(c[i], n, sum);
    else Dune::Hybrid::forEach(c, [&](auto&& x) { countEntries(x, n, sum); });
  }
  template<class C> struct Cont : World::Container {
    BasisWorld* w;
    int how;      // 0: built from the descriptor, 1: resized
    C c;
    Cont(BasisWorld* w_, int h, C&& x) : w(w_), how(h), c(std::move(x)) {}
    void resize(const Source& s) override {
      const Basis& b = basisOf(s);
      if (how == 0) { auto n = w->template build<C>(b); c = std::move(n); }
      else { auto be = DF::istlVectorBackend(c); be.resize(b); }
    }
    std::string check(const Source& s) override {
      const Basis& b = basisOf(s);
      std::size_t n = 0;
      double sum = 0;
      countEntries(c, n, sum);
      if (n != b.dimension()) return fmt("the container has %zu entries, the basis has dimension %zu", n, (size_t)b.dimension());
      if (how == 0 && sum != 0) return "a freshly built container is not zero";
      return "";
    }
    void fill(const Source& s, int salt) override {
      auto lv = basisOf(s).localView();
      auto be = DF::istlVectorBackend(c);
      for (int e = 0; e < w->env.elements(s.view); ++e) {
        lv.bind(w->env.element(s.view, e));
        for (std::size_t i = 0; i < lv.size(); ++i) be[lv.index(i)] = hashValue(hashIndex(lv.index(i), salt));
      }
    }
    std::string checkFill(const Source& s, int salt) override {
      auto lv = basisOf(s).localView();
      const C& cc = c;
      auto be = DF::istlVectorBackend(cc);
      for (int e = 0; e < w->env.elements(s.view); ++e) {
        lv.bind(w->env.element(s.view, e));
        for (std::size_t i = 0; i < lv.size(); ++i)
          if (double(be[lv.index(i)]) != hashValue(hashIndex(lv.index(i), salt))) return fmt("the entry for index %s was overwritten through another index", str(toIndex(lv.index(i))).c_str());
      }
      rec->comparisons++;
      return "";
    }
    std::string scalar(double v) override {
      auto be = DF::istlVectorBackend(c);
      be = v;
      std::size_t n = 0;
      double sum = 0;
      countEntries(c, n, sum);
      if (std::fabs(sum - n * std::fabs(v)) > 1e-9 * (1 + n)) return "assigning a number does not reach every entry";
      return "";
    }
    std::unique_ptr<World::Container> copy() const override { return std::make_unique<Cont>(w, how, C(c)); }
  };
  using Desc = std::decay_t<decltype(std::declval<const Basis&>().containerDescriptor())>;
  template<class C> static C build(const Basis& b) {
    if constexpr (hasDescriptor) {
      auto d = b.containerDescriptor();
      if constexpr (std::is_same_v<C, decltype(DF::makeContainer<double>(d))>) return DF::makeContainer<double>(d, 0.0);
      else if constexpr (std::is_same_v<C, decltype(DF::makeISTLVector<double>(d))>) return DF::makeISTLVector<double>(d);
      else internalError("container");
    } else internalError("container");
  }
  static constexpr bool flatIndex = Basis::PreBasis::maxMultiIndexSize == 1;
  int containers() const override { return hasDescriptor ? (flatIndex ? 5 : 4) : flatIndex ? 1 : 0; }
  std::string containerName(int k) const override { static const char* n[] = {"nested container from the descriptor", "ISTL vector from the descriptor", "nested container, resized", "ISTL vector, resized", "ISTL vector of blocks of size one, resized"}; return n[hasDescriptor ? k : 4]; }
  std::unique_ptr<World::Container> makeContainer(int k, const Source& s) override {
    if constexpr (hasDescriptor) {
      const Basis& b = basisOf(s);
      auto d = b.containerDescriptor();
      using A = decltype(DF::makeContainer<double>(d));
      using B = decltype(DF::makeISTLVector<double>(d));
      if (k == 0) return std::make_unique<Cont<A>>(this, 0, build<A>(b));
      if (k == 1) return std::make_unique<Cont<B>>(this, 0, build<B>(b));
      if (k == 2) { auto c = std::make_unique<Cont<A>>(this, 1, A()); c->resize(s); return c; }
      if (k == 3) { auto c = std::make_unique<Cont<B>>(this, 1, B()); c->resize(s); return c; }
    }
    if constexpr (flatIndex) { using E = Dune::BlockVector<Dune::FieldVector<double, 1>>; auto c = std::make_unique<Cont<E>>(this, 1, E()); c->resize(s); return c; }
    return {};
  }
#endif
  void coefficients(const Source& s, int salt, Store& st) override {
    const Basis& b = basisOf(s);
    auto lv = b.localView();
    for (int e = 0; e < env.elements(s.view); ++e) {
      lv.bind(env.element(s.view, e));
      for (std::size_t i = 0; i < lv.size(); ++i) st[toIndex(lv.index(i))] = hashValue(hashIndex(lv.index(i), salt));
    }
  }
};

template<class Env, class Spec> Case basisCase(const char* name) {
  return Case{name, C_BASIS, []() -> std::unique_ptr<World> { return std::make_unique<BasisWorld<Env, Spec>>(); }};
}
#define SIM_CASE(NAME, ENV, SPEC) static sim::RegisterCase reg_##NAME(sim::basisCase<ENV, SPEC>(#NAME));

} // namespace sim
