// Functions carried from one view of a grid to a coarser or finer one.
#pragma once
#include "specs.hh"
#include "gfworld.hh"
#include "hgrid.hh"
#include <dune/functions/common/geometryinancestor.hh>
#include <dune/functions/functionspacebases/lagrangedgbasis.hh>
#include <dune/functions/gridfunctions/coarsefunctiononfinegridview.hh>
#include <dune/functions/gridfunctions/finefunctiononcoarsegridview.hh>
using namespace sim;
namespace {

// ---- grids; the views go from coarse to fine
template<class V> bool insideReference(const Dune::GeometryType& t, const V& x) { return Dune::referenceElement<double, V::dimension>(t).checkInside(x); }

// where a point of an element lies in another view, by looking through that view
template<class Env, class GV> auto locateByWorld(Env& env, const GV& gv, const typename Env::Element& e, const Dune::FieldVector<double, Env::dim>& x) {
  auto y = e.geometry().global(x);
  for (auto&& s : elements(gv)) {
    auto z = s.geometry().local(y);
    if (insideReference(s.type(), z)) return std::make_pair(typename Env::Element(s), z);
  }
  internalError("no element contains the point");
}

template<int d> struct TYasp {
  static constexpr int dim = d;
  static constexpr bool remeshable = false;
  using Global = Dune::FieldVector<double, d>;
  using Grid = Dune::YaspGrid<d, Dune::EquidistantOffsetCoordinates<double, d>>;
  using GridView = typename Grid::LevelGridView;
  using Element = typename GridView::template Codim<0>::Entity;
  std::unique_ptr<Grid> grid;
  std::vector<std::vector<Element>> el;
  TYasp() {
    std::array<int, d> n;
    Global lower, upper;
    for (int i = 0; i < d; ++i) { n[i] = 1 + (int)choose(d == 1 ? 3 : 2); lower[i] = -0.25 * (int)choose(3); upper[i] = lower[i] + 1.0 + 0.5 * choose(3); }
    grid = std::make_unique<Grid>(lower, upper, n);
    grid->globalRefine(d < 3 ? 2 : 1);
    for (int v = 0; v < views(); ++v) { el.emplace_back(); for (auto&& e : Dune::elements(grid->levelGridView(v))) el.back().push_back(e); }
  }
  int views() const { return grid->maxLevel() + 1; }
  int elements(int v) const { return (int)el[v].size(); }
  Element element(int v, int i) const { return el[v][i]; }
  int indexOf(const Element& e) const { return e.level() * 100000 + (int)grid->levelIndexSet(e.level()).index(e); }
  void remesh(int, uint64_t) {}
  template<class F> auto with(int v, F f) { return f(grid->levelGridView(v)); }
  auto locate(const Element& e, const Global& x, int src) { return locateByWorld(*this, grid->levelGridView(src), e, x); }
};
// (levels only: the leaf view of OneDGrid also claims to contain some refined
// elements of adapted grids, as their leaf indices are left over)
struct TOneD {
  static constexpr int dim = 1;
  static constexpr bool remeshable = false;
  using Global = Dune::FieldVector<double, 1>;
  using Grid = Dune::OneDGrid;
  using GridView = Grid::LevelGridView;
  using Element = GridView::Codim<0>::Entity;
  std::unique_ptr<Grid> grid;
  std::vector<std::vector<Element>> el;
  TOneD() {
    std::vector<double> c;
    int n = 1 + (int)choose(3);
    for (int i = 0; i <= n; ++i) c.push_back(i + 0.05 * (i ? choose(5) : 0));
    grid = std::make_unique<Grid>(c);
    grid->globalRefine(1 + (int)choose(3));
    for (int v = 0; v < views(); ++v) { el.emplace_back(); for (auto&& e : Dune::elements(grid->levelGridView(v))) el.back().push_back(e); }
    for (int v = 0; v < views(); ++v) (void)grid->levelIndexSet(v);   // (OneDGrid creates them on first use, also from several threads)
    (void)grid->leafIndexSet();
  }
  int views() const { return grid->maxLevel() + 1; }
  int elements(int v) const { return (int)el[v].size(); }
  Element element(int v, int i) const { return el[v][i]; }
  int indexOf(const Element& e) const { return (int)grid->globalIdSet().id(e); }
  void remesh(int, uint64_t) {}
  template<class F> auto with(int v, F f) { return f(grid->levelGridView(v)); }
  auto locate(const Element& e, const Global& x, int src) { return locateByWorld(*this, grid->levelGridView(src), e, x); }
};
template<int d> struct TSim {
  static constexpr int dim = d;
  static constexpr bool remeshable = true, coupled = true;
  using Global = Dune::FieldVector<double, d>;
  using Grid = simgrid::h::Grid<d>;
  using GridView = simgrid::h::GridView<d>;
  using Element = simgrid::h::Entity<d>;
  Grid grid;
  TSim() { remesh(0, choose(64)); }
  int views() const { return 3; }
  int elements(int v) const { return (int)grid.forest.views[v].size(); }
  Element element(int v, int i) const { return Element(&grid.forest, grid.forest.views[v][i]); }
  int indexOf(const Element& e) const { e.check(); return e.no(); }
  void remesh(int, uint64_t seed) { grid.forest.build(seed); }
  template<class F> auto with(int v, F f) { return f(grid.view(v)); }
  // in reference coordinates of the elements along the path
  auto locate(const Element& e, Global x, int src) {
    auto& F = grid.forest.elems;
    auto geo = [&](int i) { return Dune::MultiLinearGeometry<double, d, d>(Dune::referenceElement<double, d>(F[i].type), F[i].inFather); };
    int i = e.no();
    { Global y = x; for (int k = i; k >= 0; k = F[k].father) { if (F[k].no[src] >= 0) return std::make_pair(Element(&grid.forest, k), y); if (F[k].father >= 0) y = geo(k).global(y); } }
    int found = -1;
    Global at;
    for (int s : grid.forest.views[src]) {
      std::vector<int> path;
      int k = s;
      while (k >= 0 && k != i) { path.push_back(k); k = F[k].father; }
      if (k != i) continue;
      Global y = x;
      for (size_t q = path.size(); q-- > 0;) y = geo(path[q]).local(y);
      if (!insideReference(F[s].type, y)) continue;
      if (found >= 0) internalError("the point lies on an element boundary");
      found = s; at = y;
    }
    if (found < 0) internalError("no element contains the point");
    return std::make_pair(Element(&grid.forest, found), at);
  }
};

// ---- functions to be transferred
inline double pieceValue(long salt, long elem, int comp, const double* x, int d) {
  double r = hashValue(mix(mix((uint64_t)salt * 31 + comp, 5), (uint64_t)elem));
  for (int i = 0; i < d; ++i) r += (0.3 + 0.2 * i) * x[i] * hashValue(mix((uint64_t)salt * 31 + comp + 7 * i, (uint64_t)elem + 77));
  return r;
}
// jumps from element to element; knows nothing but local coordinates
template<class GV, int order> struct PieceF {
  static constexpr int d = GV::dimension;
  using EntitySet = DF::GridViewEntitySet<GV, 0>;
  using Element = typename EntitySet::Element;
  using Domain = typename EntitySet::GlobalCoordinate;
  using LocalDomain = typename EntitySet::LocalCoordinate;
  using Range = std::conditional_t<order == 0, double, Dune::FieldVector<double, d>>;
  struct LF {
    GV gv; std::vector<long> salt; std::optional<Element> e; std::vector<long> index;
    LF(const GV& g, long s) : gv(g), salt(1, s) {}
    void bind(const Element& x) { callbackPoint(); e.emplace(x); index.assign(1, (long)gv.indexSet().index(*e)); }
    void unbind() { e.reset(); index.clear(); }
    bool bound() const { return bool(e); }
    const Element& localContext() const { return *e; }
    Range operator()(const LocalDomain& x) const {
      callbackPoint();
      if (!e) violation("unbound-evaluation", "a wrapped local function was evaluated without being bound");
      if constexpr (order == 0) return pieceValue(salt[0], index[0], 0, &x[0], d);
      else { Range r; for (int i = 0; i < d; ++i) r[i] = pieceValue(salt[0], index[0], 1 + i, &x[0], d); return r; }
    }
    friend auto derivative(const LF& f) requires (order == 0) { typename PieceF<GV, 1>::LF r(f.gv, f.salt[0]); if (f.e) r.bind(*f.e); return r; }
  };
  EntitySet es;
  std::vector<long> salt;
  PieceF(const GV& gv, long s) : es(gv), salt(1, s) {}
  Range operator()(const Domain&) const { internalError("no global evaluation"); }
  const EntitySet& entitySet() const { return es; }
  friend LF localFunction(const PieceF& f) { return LF(f.es.gridView(), f.salt[0]); }
  friend auto derivative(const PieceF& f) requires (order == 0) { callbackPoint(); return PieceF<GV, 1>(f.es.gridView(), f.salt[0]); }
};
struct PieceMaker {
  static constexpr bool search = false;
  static const char* name() { return "piecewise function"; }
  template<class GV> static auto make(const GV& gv, int s) { return PieceF<GV, 0>(gv, s); }
  template<class GV, class E, class X> static void value(const GV& gv, const E& e, const X& x, int s, int order, Obs& o) {
    long i = (long)gv.indexSet().index(e);
    if (order == 0) o.d("value", pieceValue(s, i, 0, &x[0], X::dimension));
    else for (int k = 0; k < X::dimension; ++k) o.d("value", pieceValue(s, i, 1 + k, &x[0], X::dimension));
  }
};
template<bool canSearch> struct DGMaker {
  static constexpr bool search = canSearch;
  static const char* name() { return "finite element function"; }
  template<class GV> static auto basis(const GV& gv) { return DF::LagrangeDGBasis<GV, 2>(gv); }
  template<class GV> static auto make(const GV& gv, int s) { return DF::makeDiscreteGlobalBasisFunction<double>(basis(gv), HashVec(s)); }
  template<class GV, class E, class X> static void value(const GV& gv, const E& e, const X& x, int s, int order, Obs& o) {
    constexpr int d = X::dimension;
    auto b = basis(gv);
    auto lv = b.localView();
    lv.bind(e);
    auto& lb = lv.tree().finiteElement().localBasis();
    std::vector<Dune::FieldVector<double, 1>> val;
    std::vector<Dune::FieldMatrix<double, 1, d>> jac;
    lb.evaluateFunction(x, val);
    lb.evaluateJacobian(x, jac);
    double y = 0;
    Dune::FieldVector<double, d> g(0.0), t;
    auto J = e.geometry().jacobianInverseTransposed(x);
    for (std::size_t i = 0; i < lv.size(); ++i) {
      double c = hashValue(hashIndex(lv.index(i), (uint64_t)s));
      y += c * val[i][0];
      J.mv(jac[i][0], t);
      g.axpy(c, t);
    }
    if (order == 0) o.d("value", y); else for (int j = 0; j < d; ++j) o.d("value", g[j]);
  }
};

enum Dir { Coarse, Fine };
enum Hold { Value, Ref, Erased };
inline int sourceView(Dir dir, int v, int views, int salt) { return dir == Coarse ? salt % (v + 1) : v + salt % (views - v); }

template<class Env, class Maker, Dir dir, Hold hold> struct TransferKind : GFKind<Env> {
  static constexpr GFOpt Q{.der = 1, .erase = hold == Value, .free = false, .asg = false, .search = Maker::search};
  std::string name() const override { return std::string(dir == Coarse ? "coarse " : "fine ") + Maker::name() + (hold == Value ? "" : hold == Ref ? " by reference" : ", type-erased") + " on another view"; }
  std::vector<int> variants() const override { return gfVariants<Q>(); }
  template<class F, class GV> static std::unique_ptr<Source> finish(Env& env, std::shared_ptr<const void> keep, F f, const GV& gv) {
    using W = std::conditional_t<dir == Coarse, DF::CoarseFunctionOnFineGridView<F, GV>, DF::FineFunctionOnCoarseGridView<F, GV>>;
    W w(std::move(f), gv);
    return std::make_unique<GFSource<Env, GV, W, Q>>(&env, std::move(keep), std::move(w));
  }
  std::unique_ptr<Source> make(Env& env, int v, int s) override {
    return env.with(v, [&](auto gv) {
      return env.with(sourceView(dir, v, env.views(), s), [&](auto sgv) -> std::unique_ptr<Source> {
        auto f = Maker::make(sgv, s);
        using F = decltype(f);
        if constexpr (hold == Value) return finish(env, nullptr, std::move(f), gv);
        else if constexpr (hold == Ref) { auto k = std::make_shared<const F>(f); return finish(env, k, std::cref(*k), gv); }
        else return finish(env, nullptr, DF::GridViewFunction<double(typename Env::Global), decltype(sgv)>(std::move(f)), gv);
      });
    });
  }
  void value(Env& env, int v, int e, int s, int order, const Dune::FieldVector<double, Env::dim>& x, Obs& o) override {
    int src = sourceView(dir, v, env.views(), s);
    auto [el, y] = env.locate(env.element(v, e), x, src);
    env.with(src, [&](auto gv) { Maker::value(gv, el, y, s, order, o); });
  }
};

// ---- the embedding itself
template<class Env> struct AncB : Bindable {
  using Element = typename Env::Element;
  using G = DF::GeometryInAncestor<Element>;
  Env* env; int src; bool temporary;
  std::shared_ptr<Element> e;    // for the overload that keeps a reference
  std::unique_ptr<G> g;
  bool b = false;
  AncB(Env* x, int s, bool t) : env(x), src(s), temporary(t), g(std::make_unique<G>()) {}
  void bind(int v, int i) override {
    env->with(src, [&](auto gv) {
      auto up = [&](const auto& x) { return !gv.contains(x); };
      if (temporary) { const Element& c = g->bind(env->element(v, i), up); if (&c != &g->coarseElement()) violation("wrong-result", "bind() does not return the coarse element"); }
      else { auto n = std::make_shared<Element>(env->element(v, i)); const Element& c = g->bind(*n, up); if (&c != &g->coarseElement()) violation("wrong-result", "bind() does not return the coarse element"); e = n; }
      return 0;
    });
    b = true;
  }
  void unbind() override { b = false; }
  bool bound() const override { return b; }
  void observe(Obs& o) const override {
    o.i("bound", b);
    o.i("element", env->indexOf(g->fineElement()));
    o.i("ancestor", env->indexOf(g->coarseElement()));
    for (int p = 0; p < gfPoints; ++p) {
      auto x = gfPoint<Env::dim>(p);
      auto y = g->global(x);
      put(o, "coordinate", y);
      put(o, "coordinate", g->local(y));
    }
  }
  std::unique_ptr<Bindable> copy() const override {
    auto r = std::make_unique<AncB>(env, src, temporary);
    r->b = b;
    r->e = e;
    if (!temporary && b && env->indexOf(g->fineElement()) % 2) { r->e = std::make_shared<Element>(*e); r->g = std::make_unique<G>(*g, *r->e); }
    else r->g = std::make_unique<G>(*g);
    return r;
  }
  std::unique_ptr<Bindable> move() override { return copy(); }
  bool assign(const Bindable&) override { return false; }
  bool moveAssign(Bindable&) override { return false; }
};
template<class Env> struct AncSource : Source {
  Env* env; int src;
  AncSource(Env* e, int s) : env(e), src(s) {}
  int variants() const override { return 2; }
  std::string variantName(int v) const override { return v ? "bound to temporaries" : "bound to references"; }
  std::unique_ptr<Bindable> make(int v) const override { return std::make_unique<AncB<Env>>(env, src, v == 1); }
  void observeGlobal(Obs& o) const override { o.i("view", src); }
  bool survives() const override { return true; }
  std::unique_ptr<Source> copy() const override { auto r = std::make_unique<AncSource>(env, src); r->view = view; r->salt = salt; return r; }
  bool assign(const Source& o) override { if (auto* x = dynamic_cast<const AncSource*>(&o)) { src = x->src; view = x->view; salt = x->salt; return true; } return false; }
  bool moveAssign(Source& o) override { return assign(o); }
};
template<class Env> struct AncKind : GFKind<Env> {
  std::string name() const override { return "embedding into an ancestor"; }
  std::vector<int> variants() const override { return {0, 1}; }
  std::unique_ptr<Source> make(Env& env, int v, int s) override { return std::make_unique<AncSource<Env>>(&env, sourceView(Coarse, v, env.views(), s)); }
  void value(Env&, int, int, int, int, const Dune::FieldVector<double, Env::dim>&, Obs&) override {}
  bool expected(Env& env, int, int v, int e, int s, Obs& o) override {
    int src = sourceView(Coarse, v, env.views(), s);
    auto el = env.element(v, e);
    o.i("bound", 1);
    o.i("element", env.indexOf(el));
    o.i("ancestor", env.indexOf(env.locate(el, gfPoint<Env::dim>(0), src).first));
    for (int p = 0; p < gfPoints; ++p) {
      auto x = gfPoint<Env::dim>(p);
      put(o, "coordinate", env.locate(el, x, src).second);
      put(o, "coordinate", x);
    }
    return true;
  }
};

template<class Env, class Maker> std::unique_ptr<World> transfer() {
  auto w = std::make_unique<GFWorld<Env>>();
  w->ks.push_back(std::make_unique<TransferKind<Env, Maker, Coarse, Value>>());
  w->ks.push_back(std::make_unique<TransferKind<Env, Maker, Coarse, Ref>>());
  w->ks.push_back(std::make_unique<TransferKind<Env, Maker, Coarse, Erased>>());
  w->ks.push_back(std::make_unique<TransferKind<Env, Maker, Fine, Value>>());
  w->ks.push_back(std::make_unique<TransferKind<Env, Maker, Fine, Ref>>());
  w->ks.push_back(std::make_unique<TransferKind<Env, Maker, Fine, Erased>>());
  w->ks.push_back(std::make_unique<AncKind<Env>>());
  return w;
}
#define SIM_TCASE(NAME, MAKER, ...) RegisterCase r_##NAME({#NAME, C_TRANSFER, [] { return transfer<__VA_ARGS__, MAKER>(); }, 2});
} // namespace
