// Worlds of grid functions: each kind of source is a grid function, the
// bindables are its local functions.
#pragma once
#include "caseimpl.hh"
#include <dune/functions/gridfunctions/analyticgridviewfunction.hh>
namespace sim {

template<int dim> Dune::FieldVector<double, dim> gfPoint(int k) {
  Dune::FieldVector<double, dim> x;
  static const double a[6][3] = {{0.2137, 0.3219, 0.1931}, {0.5218, 0.1127, 0.2413}, {0.1309, 0.1913, 0.4127}, {0.0517, 0.8713, 0.0419}, {0.9113, 0.0307, 0.0219}, {0.0713, 0.0611, 0.8319}};
  for (int i = 0; i < dim; ++i) x[i] = a[k % 6][i];
  return x;
}
constexpr int gfPoints = 6;

template<class Env, class LF, bool assignable>
struct GFB : Bindable {
  Env* env;
  std::shared_ptr<const void> keep;
  LF lf;
  std::function<std::unique_ptr<Bindable>(const LF&)> der;
  int derVariant = -1;
  GFB(Env* e, LF&& l) : env(e), lf(std::move(l)) {}
  GFB(const GFB&) = default;
  GFB(GFB&& o) : env(o.env), keep(o.keep), lf(std::move(o.lf)), der(o.der), derVariant(o.derVariant) {}
  void bind(int v, int i) override { lf.bind(env->element(v, i)); }
  void unbind() override { lf.unbind(); }
  bool bound() const override { return lf.bound(); }
  void observe(Obs& o) const override {
    o.i("bound", lf.bound());
    o.i("element", env->indexOf(lf.localContext()));
    for (int p = 0; p < gfPoints; ++p) putValue(o, "value", lf, gfPoint<Env::dim>(p));
  }
  std::unique_ptr<Bindable> copy() const override { return std::make_unique<GFB>(*this); }
  std::unique_ptr<Bindable> move() override { return std::make_unique<GFB>(std::move(*this)); }
  bool assign(const Bindable& o) override {
    if constexpr (assignable) if (auto* x = dynamic_cast<const GFB*>(&o)) { lf = x->lf; keep = x->keep; der = x->der; derVariant = x->derVariant; return true; }
    return false;
  }
  bool moveAssign(Bindable& o) override {
    if constexpr (assignable) if (auto* x = dynamic_cast<GFB*>(&o)) { lf = std::move(x->lf); keep = x->keep; der = x->der; derVariant = x->derVariant; return true; }
    return false;
  }
  std::unique_ptr<Bindable> derived() const override { if (der) return der(lf); return {}; }
  int derivedVariant() const override { return derVariant; }
};
template<bool assignable, class Env, class LF> auto makeGFB(Env* e, std::shared_ptr<const void> keep, LF lf) {
  auto b = std::make_unique<GFB<Env, LF, assignable>>(e, std::move(lf));
  b->keep = std::move(keep);
  return b;
}

// der: 0 none, 1 first, 2 first and second derivative; erase: also as type-erased wrappers
// free: local functions do not refer to the function they are from
// asg: local functions are assignable; search: can be evaluated at world coordinates
struct GFOpt { int der = 0; bool erase = false, free = true, asg = true, search = true; };

enum GFV { V_LF, V_DLF, V_DDLF, V_E, V_DE, V_EG };
inline const char* gfvName[] = {"local function", "local derivative", "second local derivative", "type-erased local function", "type-erased local derivative", "local function of type-erased grid function"};
template<GFOpt Q> std::vector<int> gfVariants() {
  std::vector<int> r{V_LF};
  if (Q.der > 0) r.push_back(V_DLF);
  if (Q.der > 1) r.push_back(V_DDLF);
  if (Q.erase) { r.push_back(V_E); if (Q.der > 0) r.push_back(V_DE); r.push_back(V_EG); }
  return r;
}
inline int gfIndex(const std::vector<int>& l, int v) { for (size_t i = 0; i < l.size(); ++i) if (l[i] == v) return (int)i; return -1; }
inline int gfOrder(int v) { return v == V_DLF || v == V_DE ? 1 : v == V_DDLF ? 2 : 0; }

template<class Env, class GV, class F, GFOpt Q>
struct GFSource : Source {
  Env* env;
  std::shared_ptr<const void> keep;   // what the function refers to
  std::shared_ptr<F> f;
  GFSource(Env* e, std::shared_ptr<const void> k, F&& f_) : env(e), keep(std::move(k)), f(std::make_shared<F>(std::move(f_))) {}
  int variants() const override { return (int)gfVariants<Q>().size(); }
  std::string variantName(int v) const override { return gfvName[gfVariants<Q>()[v]]; }
  bool survives() const override { return Q.free && !keep; }
  struct Hold { std::shared_ptr<const void> a, b; };
  std::shared_ptr<const void> holding(std::shared_ptr<const void> g) const { if (Q.free && !keep) return {}; return std::make_shared<Hold>(Hold{keep, g}); }
  std::unique_ptr<Bindable> make(int v) const override {
    auto vs = gfVariants<Q>();
    int k = vs[v];
    Env* env = this->env;
    using Range = typename std::decay_t<decltype((*f)(std::declval<typename Env::Global>()))>;
    if constexpr (Q.der > 1)
      if (k == V_DDLF) { auto h = std::make_shared<decltype(derivative(derivative(*f)))>(derivative(derivative(*f))); return makeGFB<Q.asg>(env, holding(h), localFunction(*h)); }
    if constexpr (Q.der > 0)
      if (k == V_DLF) {
        auto h = std::make_shared<decltype(derivative(*f))>(derivative(*f));
        auto b = makeGFB<Q.asg>(env, holding(h), localFunction(*h));
        if constexpr (Q.der > 1) {
          auto kp = b->keep;
          b->der = [env, kp](const auto& l) -> std::unique_ptr<Bindable> { return makeGFB<Q.asg>(env, kp, derivative(l)); };
          b->derVariant = gfIndex(vs, V_DDLF);
        }
        return b;
      }
    if constexpr (Q.erase) {
      using Erased = DF::GridViewFunction<Range(typename Env::Global), GV>;
      using ErasedG = DF::GridFunction<Range(typename Env::Global), DF::GridViewEntitySet<GV, 0>>;
      if (k == V_E) {
        auto h = std::make_shared<Erased>(*f);
        auto b = makeGFB<true>(env, holding(h), localFunction(*h));
        if constexpr (Q.der > 0) {
          auto kp = b->keep;
          b->der = [env, kp](const auto& l) -> std::unique_ptr<Bindable> { return makeGFB<true>(env, kp, derivative(l)); };
          b->derVariant = gfIndex(vs, V_DE);
        }
        return b;
      }
      if (k == V_EG) { auto h = std::make_shared<ErasedG>(*f); return makeGFB<true>(env, holding(h), localFunction(*h)); }
      if constexpr (Q.der > 0)
        if (k == V_DE) { Erased g(*f); auto h = std::make_shared<std::decay_t<decltype(derivative(g))>>(derivative(g)); return makeGFB<true>(env, holding(h), localFunction(*h)); }
    }
    auto b = makeGFB<Q.asg>(env, holding(f), localFunction(*f));
    if constexpr (Q.der > 0) {
      auto kp = b->keep;
      b->der = [env, kp](const auto& l) -> std::unique_ptr<Bindable> { return makeGFB<Q.asg>(env, kp, derivative(l)); };
      b->derVariant = gfIndex(vs, V_DLF);
    }
    return b;
  }
  void observeGlobal(Obs& o) const override { o.i("elements", (long long)std::distance(f->entitySet().begin(), f->entitySet().end())); }
  std::unique_ptr<Source> copy() const override { auto r = std::make_unique<GFSource>(env, keep, F(*f)); r->view = view; r->salt = salt; return r; }
  std::unique_ptr<Source> move() override { auto r = std::make_unique<GFSource>(env, keep, F(std::move(*f))); r->view = view; r->salt = salt; return r; }
  bool assign(const Source& o) override {
    auto* x = dynamic_cast<const GFSource*>(&o);
    if (!x) return false;
    if constexpr (std::is_copy_assignable_v<F>) {
      if (!survives()) f = std::make_shared<F>(*f);   // (local functions may refer to the old object)
      *f = *x->f; keep = x->keep; view = x->view; salt = x->salt;
      return true;
    }
    return false;
  }
  bool moveAssign(Source& o) override {
    auto* x = dynamic_cast<GFSource*>(&o);
    if (!x) return false;
    if constexpr (std::is_move_assignable_v<F>) {
      if (!survives()) f = std::make_shared<F>(*f);
      *f = std::move(*x->f); keep = x->keep; view = x->view; salt = x->salt;
      return true;
    }
    return false;
  }
  bool update(int) override { return true; }
  bool evaluateAt(int e, int p, Obs& o) const override {
    if constexpr (Q.search) {
      auto geo = env->element(view, e).geometry();
      putValue(o, "value", *f, geo.global(gfPoint<Env::dim>(p)));
      return true;
    }
    return false;
  }
};

template<class Env> struct GFKind {
  virtual ~GFKind() = default;
  virtual std::string name() const = 0;
  virtual std::vector<int> variants() const = 0;
  virtual std::unique_ptr<Source> make(Env&, int view, int salt) = 0;
  virtual bool followsGrid() const { return false; }    // stays valid when the grid changes
  // value (order 0), derivative (1, 2) at local coordinate x of the element
  virtual void value(Env&, int view, int elem, int salt, int order, const Dune::FieldVector<double, Env::dim>& x, Obs&) = 0;
  virtual bool expected(Env& env, int variant, int view, int elem, int salt, Obs& o) {
    o.i("bound", 1);
    o.i("element", env.indexOf(env.element(view, elem)));
    for (int p = 0; p < gfPoints; ++p) value(env, view, elem, salt, gfOrder(variants()[variant]), gfPoint<Env::dim>(p), o);
    return true;
  }
};
template<class Env_> struct GFWorld : World {
  using Env = Env_;
  Env env;
  std::vector<std::unique_ptr<GFKind<Env>>> ks;
  int views() const override { return env.views(); }
  int elements(int v) const override { return env.elements(v); }
  bool canRemesh() const override { return Env::remeshable; }
  void doRemesh(int v, uint64_t seed) override { env.remesh(v, seed); }
  bool remeshAffectsAll() const override { if constexpr (requires { Env::coupled; }) return Env::coupled; return false; }
  int kinds() const override { return (int)ks.size(); }
  std::string kindName(int k) const override { return ks[k]->name(); }
  std::unique_ptr<Source> make(int k, int v, int s) override { auto r = ks[k]->make(env, v, s); r->view = v; r->salt = s; return r; }
  bool updatable(int k) const override { return ks[k]->followsGrid(); }
  bool sameViewOnly() const override { return true; }
  bool expected(int k, int variant, int v, int e, int salt, Obs& o) override { return ks[k]->expected(env, variant, v, e, salt, o); }
  bool expectedAt(int k, int v, int e, int q, int salt, Obs& o) override { ks[k]->value(env, v, e, salt, 0, gfPoint<Env::dim>(q), o); return true; }
};

} // namespace sim
