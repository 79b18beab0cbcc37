// Grids for the cases: the simulated grid, and two real grid managers.
#pragma once
#include "simgrid.hh"
#include <memory>
#include <dune/grid/yaspgrid.hh>
#include <dune/grid/onedgrid.hh>

namespace sim {

template<int d, simgrid::Kind K>
struct SimEnv {
  static constexpr int dim = d;
  static constexpr bool simulated = true;
  static constexpr bool remeshable = true;
  static constexpr bool searchable = K == simgrid::Simplex;   // (the search of dune-grid needs affine elements to be reliable)
  static constexpr bool oneType = K != simgrid::Mixed || d == 1;
  using Grid = simgrid::Grid<d, K>;
  using GridView = simgrid::GridView<d, K>;
  using Element = typename GridView::template Codim<0>::Entity;
  Grid grid{2};
  int orient = 2;
  SimEnv(int o = 2) : orient(o) { for (int v = 0; v < views(); ++v) remesh(v, choose(64)); }
  int views() const { return 2; }
  GridView view(int v) const { return grid.view(v); }
  int elements(int v) const { return (int)grid.viewData(v)->mesh.elems.size(); }
  Element element(int v, int i) const { return Element(&grid, grid.viewData(v), i); }
  int indexOf(const Element& e) const { e.check(); return e.no(); }
  int viewOf(const GridView& gv) const { return gv.id(); }
  void remesh(int v, uint64_t seed) {
    simgrid::Rng r(seed + 7000);
    simgrid::MeshParams p;
    p.seed = seed;
    static const int mx[4] = {0, 5, 3, 2};
    for (int i = 0; i < d; ++i) p.n[i] = 1 + (int)r(mx[d]);
    p.jitter = r(8) != 0;
    p.orient = orient == 2 ? (r(8) != 0 ? 2 : 0) : orient;
    p.permute = r(8) != 0;
    if (seed == 0) { p.n[0] = p.n[1] = p.n[2] = 1; p.jitter = p.permute = false; p.orient = orient == 1 ? 1 : 0; }
    grid.remesh(v, p);
  }
  void searchFrom(int v) { if (grid.searchView != v) grid.searchView = v; }
  // global number of a subentity
  long subEntityNo(const Element& e, int i, int codim) const { return grid.viewData(0), e.viewData()->mesh.elems[e.no()].sub[codim][i]; }
};

template<int d>
struct YaspEnv {
  static constexpr int dim = d;
  static constexpr bool simulated = false;
  static constexpr bool remeshable = false;
  static constexpr bool searchable = true;
  static constexpr bool oneType = true;
  using Grid = Dune::YaspGrid<d, Dune::EquidistantOffsetCoordinates<double, d>>;
  using GridView = typename Grid::LevelGridView;
  using Element = typename GridView::template Codim<0>::Entity;
  std::array<int, d> n0;
  Dune::FieldVector<double, d> lower, upper;
  std::unique_ptr<Grid> grid;
  std::vector<std::vector<Element>> el;
  YaspEnv(int = 2) {
    for (int i = 0; i < d; ++i) { n0[i] = 1 + (int)choose(d == 1 ? 4 : d == 2 ? 3 : 2); lower[i] = -0.25 * (int)choose(3); upper[i] = lower[i] + 1.0 + 0.5 * choose(3); }
    grid = std::make_unique<Grid>(lower, upper, n0);
    if (d < 3) grid->globalRefine(1);
    for (int v = 0; v < views(); ++v) {
      el.emplace_back();
      for (auto&& e : Dune::elements(view(v))) el.back().push_back(e);
    }
  }
  int views() const { return grid->maxLevel() + 1; }
  GridView view(int v) const { return grid->levelGridView(v); }
  int elements(int v) const { return (int)el[v].size(); }
  Element element(int v, int i) const { return el[v][i]; }
  int indexOf(const Element& e) const { return (int)view(e.level()).indexSet().index(e); }
  int viewOf(const GridView& gv) const { return gv.size(0) ? gv.template begin<0>()->level() : -1; }
  void remesh(int, uint64_t) {}
  void searchFrom(int) {}
  long subEntityNo(const Element& e, int i, int codim) const { return (long)view(e.level()).indexSet().subIndex(e, i, codim); }
};

struct OneDEnv {
  static constexpr int dim = 1;
  static constexpr bool simulated = false;
  static constexpr bool remeshable = true;
  static constexpr bool searchable = false;
  static constexpr bool oneType = true;
  using Grid = Dune::OneDGrid;
  using GridView = Grid::LeafGridView;
  using Element = GridView::Codim<0>::Entity;
  std::unique_ptr<Grid> grid;
  std::vector<Element> el;
  OneDEnv(int = 2) {
    std::vector<double> c;
    int n = 1 + (int)choose(4);
    for (int i = 0; i <= n; ++i) c.push_back(i + 0.05 * (i ? choose(5) : 0));
    grid = std::make_unique<Grid>(c);
    collect();
  }
  void collect() { el.clear(); (void)grid->leafIndexSet(); for (int l = 0; l <= grid->maxLevel(); ++l) (void)grid->levelIndexSet(l); for (auto&& e : Dune::elements(grid->leafGridView())) el.push_back(e); }
  int views() const { return 1; }
  GridView view(int) const { return grid->leafGridView(); }
  int elements(int) const { return (int)el.size(); }
  Element element(int, int i) const { return el[i]; }
  int indexOf(const Element& e) const { return (int)grid->leafGridView().indexSet().index(e); }
  int viewOf(const GridView&) const { return 0; }
  void remesh(int, uint64_t seed) {
    simgrid::Rng r(seed);
    for (auto&& e : el) {
      int m = r(3);
      if (el.size() > 24 && m == 1) m = 2;
      grid->mark(m == 1 ? 1 : m == 2 ? -1 : 0, e);
    }
    grid->preAdapt();
    grid->adapt();
    grid->postAdapt();
    collect();
  }
  void searchFrom(int) {}
  long subEntityNo(const Element& e, int i, int codim) const { return (long)grid->leafGridView().indexSet().subIndex(e, i, codim); }
};

using S1 = SimEnv<1, simgrid::Simplex>;
using S2 = SimEnv<2, simgrid::Simplex>;
using C2 = SimEnv<2, simgrid::Cube>;
using M2 = SimEnv<2, simgrid::Mixed>;
using S3 = SimEnv<3, simgrid::Simplex>;
using C3 = SimEnv<3, simgrid::Cube>;
using M3 = SimEnv<3, simgrid::Mixed>;

} // namespace sim
