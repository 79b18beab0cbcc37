"""The function spaces of the Python simulation: for each one the description
a Python user writes, and the C++ factory expression of the oracle."""
import io
import jit
import warnings
warnings.simplefilter('ignore')
import dune.grid, dune.functions
from dune.functions import defaultGlobalBasis, subspaceBasis, Lagrange, Power, Composite, RaviartThomas, Nedelec

# name: (tree description, C++ factory expression)
ROOTS = {
    'L1': (lambda: Lagrange(order=1), 'lagrange<1>()'),
    'L2': (lambda: Lagrange(order=2), 'lagrange<2>()'),
    'PI': (lambda: Power(Lagrange(order=1), 2, layout='interleaved'), 'power<2>(lagrange<1>(), flatInterleaved())'),
    'TH': (lambda: Lagrange(order=2)**2 * Lagrange(order=1), 'composite(power<2>(lagrange<2>(), flatLexicographic()), lagrange<1>(), flatLexicographic())'),
    'RT': (lambda: Composite(RaviartThomas(order=0), Lagrange(order=0)), 'composite(raviartThomas<0>(), lagrange<0>(), flatLexicographic())'),
    'BL': (lambda: Composite(Power(Lagrange(order=2), 2, blocked=True, layout='interleaved'), Lagrange(order=1), blocked=True), 'composite(power<2>(lagrange<2>(), blockedInterleaved()), lagrange<1>(), blockedLexicographic())'),
    'NC': (lambda: (Lagrange(order=1) * Lagrange(order=0)) * Lagrange(order=2)**2, 'composite(composite(lagrange<1>(), lagrange<0>(), flatLexicographic()), power<2>(lagrange<2>(), flatLexicographic()), flatLexicographic())'),
    'NE': (lambda: Nedelec(kind=1, order=1), 'nedelec<1,1,double>()'),
}
# name: (parent, arguments of subspaceBasis, C++ tree path, path from the root)
SUBS = {
    'TH0': ('TH', (0,), '_0'),
    'TH1': ('TH', (1,), '_1'),
    'TH01': ('TH', (0, 1), '_0,_1'),
    'TH0.1': ('TH0', (1,), '_0,_1'),
    'RT0': ('RT', (0,), '_0'),
    'NC01': ('NC', (0, 1), '_0,_1'),
}
RANGE = {'L1': 1, 'L2': 1, 'PI': 2, 'NE': 2, 'TH0': 2, 'TH1': 1, 'TH01': 1, 'TH0.1': 1, 'RT0': 2, 'NC01': 1}   # others have no grid functions in Python
SHAPE = {'BL': [['leaf'] * 2, 'leaf'], 'NC': [['leaf'] * 2, ['leaf'] * 2], 'NC01': 'leaf', 'L1': 'leaf', 'L2': 'leaf', 'NE': 'leaf', 'PI': ['leaf'] * 2, 'TH': [['leaf'] * 2, 'leaf'], 'TH0': ['leaf'] * 2, 'TH1': 'leaf', 'TH01': 'leaf', 'TH0.1': 'leaf', 'RT': ['leaf'] * 2, 'RT0': 'leaf'}
POWER = {('PI', ()), ('TH0', ()), ('TH', (0,)), ('BL', (0,)), ('NC', (1,))}
BOUNDARY = ('L2', 'PI')
def root(kind):
    return kind if kind in ROOTS else root(SUBS[kind][0])

HEAD = '''// SIM_BUILD
#include <config.h>
#include <set>
#include <dune/grid/yaspgrid.hh>
#include <dune/python/pybind11/pybind11.h>
#include <dune/python/pybind11/stl.h>
'''
ORACLE = HEAD + '''
#include <dune/functions/functionspacebases/defaultglobalbasis.hh>
#include <dune/functions/functionspacebases/subspacebasis.hh>
#include <dune/functions/functionspacebases/compositebasis.hh>
#include <dune/functions/functionspacebases/powerbasis.hh>
#include <dune/functions/functionspacebases/lagrangebasis.hh>
#include <dune/functions/functionspacebases/raviartthomasbasis.hh>
#include <dune/functions/functionspacebases/nedelecbasis.hh>
#include <dune/functions/functionspacebases/interpolate.hh>
#include <dune/functions/functionspacebases/boundarydofs.hh>
#include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
namespace py = pybind11;
using namespace Dune;
using namespace Dune::Indices;
using G2 = YaspGrid<2, EquidistantOffsetCoordinates<double, 2>>;
using Vec2 = FieldVector<double, 2>;
static const std::vector<Vec2> points = {{0.5, 0.5}, {0.25, 0.625}, {0, 1}, {0.875, 0.125}};
static const double a[2][6] = {{0.5, 1, -2, 3, 0.25, -1}, {-1, 0.75, 1, -0.5, 2, 1.5}};
static double poly(int c, double s, Vec2 x) { auto q = a[c]; return s * (q[0] + q[1] * x[0] + q[2] * x[1] + q[3] * x[0] * x[1] + q[4] * x[0] * x[0] + q[5] * x[1] * x[1]); }

template<class I> py::tuple tuple(const I& mi) { py::tuple t(mi.size()); for (std::size_t k = 0; k < mi.size(); ++k) t[k] = std::size_t(mi[k]); return t; }
template<class R> py::list flat(const R& r) { py::list l; if constexpr (requires { r.size(); }) for (std::size_t k = 0; k < r.size(); ++k) l.append(double(r[k])); else l.append(double(r)); return l; }

template<class Node> void node(const Node& n, py::tuple path, py::dict& out) {
  py::dict d;
  d["size"] = n.size();
  py::list li; for (std::size_t k = 0; k < n.size(); ++k) li.append(n.localIndex(k));
  d["local"] = li; d["tree"] = n.treeIndex();
  if constexpr (requires { n.finiteElement(); }) {
    d["degree"] = 0;
    py::list vs;
    for (auto p : points) { std::vector<typename Node::FiniteElement::Traits::LocalBasisType::Traits::RangeType> v; n.finiteElement().localBasis().evaluateFunction(p, v); py::list l; for (auto& r : v) l.append(flat(r)); vs.append(l); }
    d["values"] = vs; d["order"] = n.finiteElement().localBasis().order();
    std::vector<typename Node::FiniteElement::Traits::LocalBasisType::Traits::JacobianType> j; n.finiteElement().localBasis().evaluateJacobian(points[1], j);
    py::list js; for (auto& m : j) { py::list l; for (std::size_t r = 0; r < m.N(); ++r) for (std::size_t c = 0; c < m.M(); ++c) l.append(double(m[r][c])); js.append(l); }
    d["jacobians"] = js;
  } else {
    d["degree"] = std::size_t(n.degree());
    Hybrid::forEach(std::make_index_sequence<Node::degree()>{}, [&](auto i) { node(n.child(i), py::tuple(path + py::make_tuple(std::size_t(i))), out); });
  }
  out[path] = d;
}

template<class Range, class B> py::dict dump(const B& basis, std::size_t rootSize) {
  py::dict d;
  d["size"] = std::size_t(basis.size()); d["dimension"] = std::size_t(basis.dimension());
  auto lv = basis.localView();
  d["max"] = std::size_t(lv.maxSize());
  py::dict prefixes;
  py::list es;
  for (auto&& e : elements(basis.gridView())) {
    lv.bind(e);
    py::dict ed; py::list ix;
    for (std::size_t k = 0; k < lv.size(); ++k) {
      auto mi = lv.index(k);
      ix.append(tuple(mi));
      typename B::SizePrefix p;
      for (std::size_t l = 0; l <= mi.size(); ++l) { prefixes[tuple(p)] = std::size_t(basis.size(p)); if (l < mi.size()) p.push_back(mi[l]); }
    }
    ed["indices"] = ix;
    py::dict nodes; node(lv.tree(), py::tuple(0), nodes); ed["nodes"] = nodes;
    ed["center"] = flat(e.geometry().center());
    if constexpr (not std::is_void_v<Range>) {
      // the value of every basis function at the points
      py::list at;
      for (auto p : points) {
        py::list l;
        for (std::size_t k = 0; k < lv.size(); ++k) {
          std::vector<double> c(rootSize, 0.0); c[lv.index(k)[0]] = 1;
          auto f = Functions::makeDiscreteGlobalBasisFunction<Range>(basis, c);
          auto lf = localFunction(f); lf.bind(e); l.append(flat(lf(p)));
        }
        at.append(l);
      }
      ed["range"] = at;
    }
    es.append(ed);
  }
  d["elements"] = es; d["prefixes"] = prefixes;
  if constexpr (not std::is_void_v<Range>) {
    std::vector<double> c(rootSize, 0.0);
    Functions::interpolate(basis, c, [](Vec2 x) { if constexpr (std::is_same_v<Range, double>) return poly(0, 1, x); else return Vec2{poly(0, 1, x), poly(1, 1, x)}; });
    d["interpolated"] = flat(c);
  }
  if constexpr (requires { basis.preBasis(); }) {
    std::set<std::size_t> s; Functions::forEachBoundaryDOF(basis, [&](auto&& i) { s.insert(i[0]); });
    d["boundary"] = std::vector<std::size_t>(s.begin(), s.end());
  }
  return d;
}

PYBIND11_MODULE(@NAME@, m) {
  m.def("dump", [](std::string kind, int nx, int ny, int refine, double shift) -> py::object {
    G2 grid(Vec2{shift, 0}, Vec2{1 + shift, 1.5}, std::array<int, 2>{nx, ny});
    grid.globalRefine(refine);
    auto gv = grid.leafGridView();
    using namespace Functions::BasisFactory;
    auto root = makeBasis(gv, @FACTORY@);
    auto n = root.size();
@BODY@
    return py::none();
  });
}
'''
CONSUMER = HEAD + '''
#include <dune/functions/gridfunctions/gridviewfunction.hh>
namespace py = pybind11;
using namespace Dune;
using G2 = YaspGrid<2, EquidistantOffsetCoordinates<double, 2>>;
using Vec2 = FieldVector<double, 2>;
template<class R> using F = Functions::GridViewFunction<R(Vec2), G2::LeafGridView>;
template<class R> std::vector<double> eval(const F<R>& f, int e, double x, double y) {
  auto lf = localFunction(f);
  for (auto&& el : elements(f.entitySet().gridView())) if (e-- == 0) { lf.bind(el); auto r = lf(Vec2{x, y}); if constexpr (std::is_same_v<R, double>) return {r}; else return {r[0], r[1]}; }
  return {};
}
PYBIND11_MODULE(consumer, m) { m.def("eval1", &eval<double>); m.def("eval2", &eval<Vec2>); }
'''

def oracle_source(r):
    ks = [k for k in [r] + [k for k in SUBS if root(k) == r] if k != 'TH0.1']
    body = ''
    for k in ks:
        rng = {None: 'void', 1: 'double', 2: 'Vec2'}[RANGE.get(k)]
        expr = 'root' if k == r else f'Functions::subspaceBasis(root, {SUBS[k][2]})'
        body += f'    if (kind == "{k}") {{ auto&& b = {expr}; return dump<{rng}>(b, n); }}\n'
    return ORACLE.replace('@NAME@', 'oracle_' + r).replace('@FACTORY@', ROOTS[r][1]).replace('@BODY@', body)

def oracle(r):
    return jit.dune.generator.builder.load('oracle_' + r, oracle_source(r), 'oracle')
def consumer():
    return jit.dune.generator.builder.load('consumer', CONSUMER, 'consumer')

SHIFT = 0.25
def grid(nx, ny):
    return dune.grid.structuredGrid([SHIFT, 0], [1 + SHIFT, 1.5], [nx, ny])

class Dummy:
    def __init__(self, cppTypeName, cppIncludes):
        self.cppTypeName, self.cppIncludes = cppTypeName, cppIncludes

def collect():
    """The sources of all modules the simulation needs."""
    jit.collected = c = {}
    groups = {}
    g = grid(1, 1)
    from dune.functions.globalbasis import preBasisTypeName
    def attempt(kind, f):
        n = len(c)
        try: f()
        except jit.Collected as e: groups.setdefault(str(e), []).append(kind)
    heads = ["powerbasis", "compositebasis", "lagrangebasis", "nedelecbasis", "raviartthomasbasis", "subspacebasis", "defaultglobalbasis"]
    inc = list(g.cppIncludes) + ["dune/functions/functionspacebases/" + h + ".hh" for h in heads] + ["dune/python/functions/globalbasis.hh"]
    dummies = {}
    for r in ROOTS:
        attempt(r, lambda: defaultGlobalBasis(g, ROOTS[r][0]()))
        dummies[r] = Dummy('Dune::Functions::DefaultGlobalBasis< ' + preBasisTypeName(ROOTS[r][0](), g.cppTypeName) + ' >', inc)
        attempt(r, lambda: oracle(r))
        if r in BOUNDARY:
            attempt(r, lambda: dune.functions.forEachBoundaryDOF(dummies[r], lambda i: None))
    for s, (parent, args, path) in SUBS.items():
        attempt(s, lambda: subspaceBasis(dummies[parent], *args))
        dummies[s] = Dummy('Dune::Functions::SubspaceBasis< ' + dummies[parent].cppTypeName + ',Dune::TypeTree::TreePath<' + ','.join(f'Dune::index_constant<{i}>' for i in args) + '> >',
                           dummies[parent].cppIncludes + ["dune/functions/functionspacebases/subspacebasis.hh", "dune/python/functions/subspacebasis.hh"])
    attempt('consumer', consumer)
    jit.collected = None
    return c, groups
