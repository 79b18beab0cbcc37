// Shape functions of one leaf of a bound local view: their derivatives against
// difference quotients of their values, their linear independence, and the
// polynomials they span.
#pragma once
#include <array>
#include <cmath>
#include <string>
#include <vector>
#include <dune/common/exceptions.hh>
#include <dune/common/fvector.hh>
#include <dune/geometry/referenceelements.hh>
#include "core.hh"
#include "observe.hh"

namespace sim {
template<class LB, int d> concept HasPartial = requires(const LB& lb, const std::array<unsigned, d>& o, const Dune::FieldVector<double, d>& x, std::vector<typename LB::Traits::RangeType>& v) { lb.partial(o, x, v); };
template<class LB, int d> concept HasEvaluate2 = requires(const LB& lb, const std::array<int, 2>& o, const Dune::FieldVector<double, d>& x, std::vector<typename LB::Traits::RangeType>& v) { lb.template evaluate<2>(o, x, v); };
template<class LB> concept HasHessianType = requires { typename LB::Traits::HessianType; };

// local bases written in dune-functions, in contrast to those of dune-localfunctions it merely selects
template<class LB> bool ownLocalBasis() { return std::string(__PRETTY_FUNCTION__).find("LB = Dune::Functions::") != std::string::npos; }

// x^alpha with |alpha| <= k, coefficients from the salt; component c
template<int dim> double testPolynomial(const Dune::FieldVector<double, dim>& x, int k, int salt, int c) {
  double r = 0;
  std::array<int, dim> a{};
  while (true) {
    int s = 0;
    for (int i = 0; i < dim; ++i) s += a[i];
    if (s <= k) {
      uint64_t h = mix(salt, 91 + c);
      double m = 1;
      for (int i = 0; i < dim; ++i) { h = mix(h, a[i] + 1); for (int j = 0; j < a[i]; ++j) m *= x[i]; }
      r += m * (double(h >> 40) / double(1 << 23) - 1);
    }
    int i = 0;
    for (; i < dim && ++a[i] > k; ++i) a[i] = 0;
    if (i == dim) break;
  }
  return r;
}

template<class FE>
std::string checkShapes(const FE& fe, std::size_t size, bool affine, int poly, int salt, bool span) {
  using LB = typename FE::Traits::LocalBasisType;
  using T = typename LB::Traits;
  constexpr int dim = T::dimDomain, r = T::dimRange;
  using X = Dune::FieldVector<double, dim>;
  const LB& lb = fe.localBasis();
  auto re = Dune::referenceElement<double, dim>(fe.type());
  if (lb.size() != size || fe.size() != size) return fmt("the leaf has size %zu, its finite element %zu, its local basis %zu", size, (size_t)fe.size(), (size_t)lb.size());
  if (fe.localCoefficients().size() != size) return fmt("the leaf has size %zu, its local coefficients %zu", size, (size_t)fe.localCoefficients().size());
  if (fe.type().isPyramid() && poly > 1) poly = 1;     // the second order pyramid of dune-localfunctions is piecewise and contains less
  if ((int)lb.order() < poly) return fmt("the local basis reports order %d, promised is at least %d", (int)lb.order(), poly);
  std::vector<typename T::RangeType> v0, vp, vm, p;
  auto at = [&](const X& x, std::vector<typename T::RangeType>& v) { lb.evaluateFunction(x, v); };
  X c = re.position(0, 0);
  const bool own = ownLocalBasis<LB>();
  bool curved = r > 1 && !affine;    // the Piola transform of derivatives is documented for affine geometries only

  for (int q = 0; q < 3; ++q) {
    X x;
    for (int i = 0; i < dim; ++i) x[i] = double(mix(salt, 7 * q + i) >> 40) / double(1 << 24);
    for (int k = 0; k < 40 && !re.checkInside(x); ++k) x = 0.8 * x + 0.2 * c;
    x = 0.98 * x + 0.02 * c;
    at(x, v0);
    if (v0.size() != size) return fmt("%zu shape functions are evaluated, expected %zu", v0.size(), size);
    if constexpr (HasPartial<LB, dim>) if (own) {
      std::array<unsigned, dim> o{};
      lb.partial(o, x, p);
      if (p.size() != size) return fmt("%zu partial derivatives of order 0, expected %zu", p.size(), size);
      for (std::size_t i = 0; i < size; ++i) for (int a = 0; a < r; ++a) if (!(std::fabs(p[i][a] - v0[i][a]) <= 1e-9 * std::fmax(1, std::fabs(v0[i][a])))) return fmt("shape function %zu: value %.10g, partial derivative of order 0 %.10g", i, (double)v0[i][a], (double)p[i][a]);
    }
    if constexpr (HasJacobian<LB, X>) {
      if (curved) continue;
      std::vector<typename T::JacobianType> jac, jp, jm;
      lb.evaluateJacobian(x, jac);
      if (jac.size() != size) return fmt("%zu Jacobians are evaluated, expected %zu", jac.size(), size);
      double scale = 1;
      for (std::size_t i = 0; i < size; ++i) for (int a = 0; a < r; ++a) { scale = std::fmax(scale, std::fabs(v0[i][a])); for (int d = 0; d < dim; ++d) scale = std::fmax(scale, std::fabs(jac[i][a][d])); }
      const double h = 1e-5;
      for (int d = 0; d < dim; ++d) {
        X xp = x, xm = x;
        xp[d] += h; xm[d] -= h;
        if (!re.checkInside(xp) || !re.checkInside(xm)) continue;
        at(xp, vp); at(xm, vm);
        std::vector<char> kink(size, 0);
        for (std::size_t i = 0; i < size; ++i)
          for (int a = 0; a < r; ++a) {
            double f = (vp[i][a] - v0[i][a]) / h, b = (v0[i][a] - vm[i][a]) / h;
            if (!(std::fabs(f - b) <= 1e-2 * scale)) { kink[i] = 1; continue; }   // piecewise defined shape functions
            rec->comparisons++;
            if (!(std::fabs(0.5 * (f + b) - jac[i][a][d]) <= 1e-5 * scale)) return fmt("shape function %zu at (%g,...): its Jacobian says %.10g, its values change by %.10g in direction %d", i, (double)x[0], (double)jac[i][a][d], 0.5 * (f + b), d);
          }
        if constexpr (HasPartial<LB, dim>) if (own) {
          std::array<unsigned, dim> o{};
          o[d] = 1;
          lb.partial(o, x, p);
          if (p.size() != size) return fmt("%zu partial derivatives, expected %zu", p.size(), size);
          for (std::size_t i = 0; i < size; ++i) for (int a = 0; a < r; ++a) if (!kink[i] && !(std::fabs(p[i][a] - jac[i][a][d]) <= 1e-9 * scale)) return fmt("shape function %zu: its partial derivative in direction %d is %.10g, its Jacobian says %.10g", i, d, (double)p[i][a], (double)jac[i][a][d]);
        }
        lb.evaluateJacobian(xp, jp);
        lb.evaluateJacobian(xm, jm);
        double scale2 = scale;
        for (std::size_t i = 0; i < size; ++i) for (int a = 0; a < r; ++a) for (int e = 0; e < dim; ++e) scale2 = std::fmax(scale2, std::fabs(jp[i][a][e] - jm[i][a][e]) / (2 * h));
        auto second = [&](const char* what, int e, auto&& value) -> std::string {
          for (std::size_t i = 0; i < size; ++i)
            for (int a = 0; a < r; ++a) {
              if (kink[i]) continue;
              double s = (jp[i][a][e] - jm[i][a][e]) / (2 * h);
              rec->comparisons++;
              if (!(std::fabs(s - value(i, a)) <= 1e-5 * scale2)) return fmt("shape function %zu: %s (%d,%d) is %.10g, its Jacobian changes by %.10g", i, what, d, e, (double)value(i, a), s);
            }
          return "";
        };
        if constexpr (HasHessianType<LB>) if constexpr (HasHessian<LB, X>) {
          std::vector<typename T::HessianType> hes;
          lb.evaluateHessian(x, hes);
          if (hes.size() != size) return fmt("%zu Hessians are evaluated, expected %zu", hes.size(), size);
          for (int e = 0; e < dim; ++e) { auto err = second("its Hessian", e, [&](std::size_t i, int) { return hes[i][d][e]; }); if (!err.empty()) return err; }
        }
        if constexpr (HasPartial<LB, dim>) if (own) {
          for (int e = 0; e < dim; ++e) {
            std::array<unsigned, dim> o{};
            o[d]++; o[e]++;
            try { lb.partial(o, x, p); } catch (Dune::Exception&) { continue; }     // not offered
            if (p.size() != size) return fmt("%zu second partial derivatives, expected %zu", p.size(), size);
            auto err = second("its second partial derivative", e, [&](std::size_t i, int a) { return p[i][a]; });
            if (!err.empty()) return err;
          }
        }
        if constexpr (HasEvaluate2<LB, dim>) {
          lb.template evaluate<1>(std::array<int, 1>{d}, x, p);
          if (p.size() != size) return fmt("evaluate() gives %zu derivatives, expected %zu", p.size(), size);
          for (std::size_t i = 0; i < size; ++i) if (!(std::fabs(p[i][0] - jac[i][0][d]) <= 1e-9 * scale)) return fmt("shape function %zu: evaluate() in direction %d gives %.10g, its Jacobian says %.10g", i, d, (double)p[i][0], (double)jac[i][0][d]);
          for (int e = 0; e < dim; ++e) {
            lb.template evaluate<2>(std::array<int, 2>{d, e}, x, p);
            if (p.size() != size) return fmt("evaluate() gives %zu second derivatives, expected %zu", p.size(), size);
            auto err = second("its second derivative by evaluate()", e, [&](std::size_t i, int a) { return p[i][a]; });
            if (!err.empty()) return err;
          }
        }
      }
    }
  }
  if (!span) return "";

  // orthogonalise the shape functions on a lattice that meets every part of the element
  std::vector<X> pts;
  for (int m = 8; pts.size() * r < 2 * size + 8; m += 4) {
    pts.clear();
    std::array<int, dim> i{};
    while (true) {
      X x;
      for (int d = 0; d < dim; ++d) x[d] = (i[d] + 0.35 + 0.3 * double(mix(salt, d + 3) >> 40) / double(1 << 24)) / m;
      if (re.checkInside(x)) pts.push_back(x);
      int d = 0;
      for (; d < dim && ++i[d] >= m; ++d) i[d] = 0;
      if (d == dim) break;
    }
  }
  std::size_t rows = pts.size() * r;
  std::vector<std::vector<double>> q(size, std::vector<double>(rows));
  std::vector<double> f(rows);
  for (std::size_t k = 0; k < pts.size(); ++k) {
    at(pts[k], v0);
    for (int a = 0; a < r; ++a) { f[k * r + a] = testPolynomial<dim>(pts[k], poly < 0 ? 0 : poly, salt, a); for (std::size_t i = 0; i < size; ++i) q[i][k * r + a] = v0[i][a]; }
  }
  auto dot = [&](const std::vector<double>& a, const std::vector<double>& b) { double s = 0; for (std::size_t k = 0; k < rows; ++k) s += a[k] * b[k]; return s; };
  auto project = [&](std::vector<double>& a, std::size_t n) { for (int t = 0; t < 2; ++t) for (std::size_t i = 0; i < n; ++i) { double s = dot(a, q[i]); for (std::size_t k = 0; k < rows; ++k) a[k] -= s * q[i][k]; } };
  for (std::size_t i = 0; i < size; ++i) {
    double before = std::sqrt(dot(q[i], q[i]));
    if (!(before > 0)) return fmt("shape function %zu vanishes", i);
    for (auto& y : q[i]) y /= before;
    project(q[i], i);
    double n = std::sqrt(dot(q[i], q[i]));
    rec->comparisons++;
    if (!(n > 1e-9)) return fmt("shape function %zu depends linearly on the others", i);
    for (auto& y : q[i]) y /= n;
  }
  if (poly < 0 || curved) return "";
  double before = std::sqrt(dot(f, f));
  project(f, size);
  double n = std::sqrt(dot(f, f));
  rec->comparisons++;
  if (!(n <= 1e-6 * std::fmax(before, 1e-3))) return fmt("a polynomial of degree %d is not in the span of the shape functions: distance %.3g of %.3g", poly, n, before);
  return "";
}
} // namespace sim
