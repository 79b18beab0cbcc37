// Turns library objects into comparable observations.
#pragma once
#include "core.hh"
#include <array>
#include <tuple>
#include <type_traits>
#include <dune/common/fvector.hh>
#include <dune/common/fmatrix.hh>
#include <dune/common/tuplevector.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/common/typetree/traversal.hh>

namespace sim {

template<class T> void put(Obs& o, const char* l, const T& v);
template<class Tup, std::size_t... I> void putTuple(Obs& o, const char* l, const Tup& t, std::index_sequence<I...>) { (put(o, l, std::get<I>(t)), ...); }

template<class T> struct isTupleLike : std::false_type {};
template<class... A> struct isTupleLike<std::tuple<A...>> : std::true_type {};
template<class... A> struct isTupleLike<Dune::TupleVector<A...>> : std::true_type {};

template<class T>
void put(Obs& o, const char* l, const T& v) {
  if constexpr (std::is_integral_v<T> || std::is_enum_v<T>) o.i(l, (long long)v);
  else if constexpr (std::is_floating_point_v<T>) o.d(l, (double)v);
  else if constexpr (isTupleLike<T>::value) putTuple(o, l, v, std::make_index_sequence<std::tuple_size_v<T>>());
  else if constexpr (requires { v.mv(v, v); } || requires { v.N(); v.M(); v[0][0]; }) {
    for (std::size_t i = 0; i < v.N(); ++i) for (std::size_t j = 0; j < v.M(); ++j) put(o, l, v[i][j]);
  }
  else { for (std::size_t i = 0; i < v.size(); ++i) put(o, l, v[i]); }
}

// evaluates a function while the unused stack, including the place of its result, contains garbage
template<class F, class X> [[gnu::noinline]] void putValueHere(Obs& o, const char* l, const F& f, const X& x) { auto v = f(x); put(o, l, v); }
template<class F, class X> [[gnu::noinline]] void putValue(Obs& o, const char* l, const F& f, const X& x) { stackGarbage(); putValueHere(o, l, f, x); }

// a vector that has been used before
template<class T> std::vector<T> dirtyVector(std::size_t n) {
  std::vector<T> v(n);
  for (auto& x : v) x = 12345.5;
  return v;
}

template<int dim> Dune::FieldVector<double, dim> samplePoint(int k) {
  Dune::FieldVector<double, dim> x;
  static const double a[3][3] = {{0.21, 0.32, 0.19}, {0.52, 0.11, 0.24}, {0.13, 0.19, 0.41}};
  for (int i = 0; i < dim; ++i) x[i] = a[k % 3][i];
  return x;
}

// a smooth function with derivative, in reference coordinates of some element
template<int dim> struct TestLocal {
  double s;
  template<class X> double operator()(const X& x) const { double r = 0.3 + s; for (int i = 0; i < dim; ++i) r += (1.0 + 0.5 * i) * x[i] + (0.4 + s) * x[i] * x[(i + 1) % dim] * x[i]; return r; }
};

template<class LB, class X> concept HasJacobian = requires(const LB& lb, const X& x, std::vector<typename LB::Traits::JacobianType>& j) { lb.evaluateJacobian(x, j); };
template<class LB, class X> concept HasHessian = requires(const LB& lb, const X& x, std::vector<typename LB::Traits::HessianType>& j) { lb.evaluateHessian(x, j); };

// rangeDim>1: vector valued shape functions
template<class FE>
void observeFiniteElement(Obs& o, const FE& fe, bool interpolation) {
  using LB = typename FE::Traits::LocalBasisType;
  using T = typename LB::Traits;
  constexpr int dim = T::dimDomain;
  const auto& lb = fe.localBasis();
  o.i("fe.size", (long long)fe.size());
  o.i("lb.size", (long long)lb.size());
  o.i("fe.order", (long long)lb.order());
  o.i("fe.type.id", fe.type().id());
  o.i("fe.type.dim", fe.type().dim());
  const auto& lc = fe.localCoefficients();
  o.i("lc.size", (long long)lc.size());
  for (std::size_t i = 0; i < lc.size(); ++i) {
    auto k = lc.localKey(i);
    o.i("key.subEntity", k.subEntity());
    o.i("key.codim", k.codim());
    o.i("key.index", k.index());
  }
  for (int p = 0; p < 2; ++p) {
    auto x = samplePoint<dim>(p);
    auto v = dirtyVector<typename T::RangeType>(7 * p);        // the results replace what the vector contains
    stackGarbage();
    lb.evaluateFunction(x, v);
    o.i("values", (long long)v.size());
    for (auto& y : v) put(o, "shape value", y);
    if constexpr (HasJacobian<LB, Dune::FieldVector<double, dim>>) {
      auto j = dirtyVector<typename T::JacobianType>(7 * p);
      stackGarbage();
      lb.evaluateJacobian(x, j);
      for (auto& y : j) put(o, "shape jacobian", y);
    }
  }
  if (interpolation) {
    using namespace Dune::Functions;
    auto c = dirtyVector<typename T::RangeFieldType>(5);
    auto f = [](const auto& x) {
      if constexpr (T::dimRange == 1) return typename T::RangeType(TestLocal<dim>{0.1}(x));
      else { typename T::RangeType r; for (int i = 0; i < (int)T::dimRange; ++i) r[i] = TestLocal<dim>{0.1 * i}(x); return r; }
    };
    auto df = [](const auto& x) {
      typename T::JacobianType j;
      for (int i = 0; i < (int)T::dimRange; ++i) for (int d = 0; d < dim; ++d) j[i][d] = 0.7 + 0.2 * i + d + x[d];
      return j;
    };
    auto ddf = [](const auto& x) {
      Dune::FieldMatrix<double, dim, dim> h;
      for (int i = 0; i < dim; ++i) for (int d = 0; d < dim; ++d) h[i][d] = 0.3 + (i + d) + x[0];
      return h;
    };
    using D = typename T::DomainType;
    auto F = makeDifferentiableFunctionFromCallables(SignatureTag<typename T::RangeType(D)>(), f, df, ddf);
    fe.localInterpolation().interpolate(F, c);
    o.i("dofs", (long long)c.size());
    for (auto& y : c) put(o, "dof functional", y);
  }
}

template<class LocalView, class ElementIndex>
void observeLocalView(Obs& o, const LocalView& lv, const ElementIndex& elementIndex, bool interpolation) {
  o.i("bound", lv.bound());
  o.i("element", (long long)elementIndex(lv.element()));
  o.i("size", (long long)lv.size());
  o.i("maxSize", (long long)lv.maxSize());
  for (std::size_t i = 0; i < lv.size(); ++i) {
    auto&& mi = lv.index(i);
    o.i("index.length", (long long)mi.size());
    for (std::size_t k = 0; k < mi.size(); ++k) o.i("index", (long long)mi[k]);
  }
  o.i("tree.size", (long long)lv.tree().size());
  Dune::TypeTree::forEachNode(lv.tree(), [&](auto&& node, auto&&) {
    o.i("node.size", (long long)node.size());
    o.i("node.empty", node.empty());
    if (node.size()) { o.i("node.first", (long long)node.localIndex(0)); o.i("node.last", (long long)node.localIndex(node.size() - 1)); }
  });
  Dune::TypeTree::forEachLeafNode(lv.tree(), [&](auto&& node, auto&&) {
    if (node.empty()) return;
    o.i("leaf.element", (long long)elementIndex(node.element()));
    observeFiniteElement(o, node.finiteElement(), interpolation);
  });
}

} // namespace sim
