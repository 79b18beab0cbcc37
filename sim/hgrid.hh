// A simulated hierarchic grid: a forest of elements of mixed types, refined by
// randomly chosen rules, with three views: the roots, a front in between, and
// the leaves. Codimension 0 only.
#pragma once
#include "simgrid.hh"
#include <deque>

namespace simgrid::h {

template<int dim> struct Forest {
  using V = Dune::FieldVector<double, dim>;
  struct Elem {
    Dune::GeometryType type;
    std::vector<V> corners;          // world
    std::vector<V> inFather;         // corners in the father's coordinates
    int father = -1, level = 0;
    std::vector<int> children;
    std::array<int, 3> no{{-1, -1, -1}};   // number in each view, -1: not part of it
  };
  std::deque<Elem> elems;
  std::array<std::vector<int>, 3> views;
  int gen = 0;

  Dune::MultiLinearGeometry<double, dim, dim> geometry(int i) const { return {Dune::referenceElement<double, dim>(elems[i].type), elems[i].corners}; }

  void child(int f, Dune::GeometryType t, std::vector<V> c, Rng& rng) {
    // another numbering of the child's corners
    if (t.isSimplex()) for (size_t i = c.size(); i > 1; --i) std::swap(c[i - 1], c[rng(i)]);
    else if (t.isCube()) { std::vector<int> id(c.size()); for (size_t i = 0; i < id.size(); ++i) id[i] = (int)i; id = cubeSymmetry(id, dim, rng, true); auto o = c; for (size_t i = 0; i < id.size(); ++i) c[i] = o[id[i]]; }
    Elem e;
    e.type = t;
    e.inFather = c;
    e.father = f;
    e.level = elems[f].level + 1;
    auto g = geometry(f);
    for (auto& x : c) e.corners.push_back(g.global(x));
    elems[f].children.push_back((int)elems.size());
    elems.push_back(std::move(e));
  }
  static V mid(const V& a, const V& b) { V r = a; r += b; r *= 0.5; return r; }
  // replaces the corner set by halves of one edge
  void bisect(int f, const std::vector<V>& c, Dune::GeometryType t, int a, int b, Rng& rng) {
    auto m = mid(c[a], c[b]);
    auto x = c, y = c;
    x[a] = m; y[b] = m;
    child(f, t, x, rng); child(f, t, y, rng);
  }
  void refine(int f, Rng& rng) {
    namespace GT = Dune::GeometryTypes;
    auto t = elems[f].type;
    auto re = Dune::referenceElement<double, dim>(t);
    std::vector<V> c;
    for (int i = 0; i < re.size(dim); ++i) c.push_back(re.position(i, dim));
    if (t.isCube() && (dim == 1 || rng(3))) {
      unsigned split = dim == 1 ? 1 : 1 + rng((1u << dim) - 1);     // directions that are halved
      for (unsigned k = 0; k < (1u << dim); ++k) {
        if (k & ~split) continue;
        std::vector<V> d = c;
        for (auto& x : d) for (int i = 0; i < dim; ++i) if (split >> i & 1) x[i] = 0.5 * x[i] + ((k >> i & 1) ? 0.5 : 0.0);
        child(f, t, d, rng);
      }
    } else if (t.isSimplex() && rng(2)) {
      int a = rng(dim + 1), b = (a + 1 + rng(dim)) % (dim + 1);
      bisect(f, c, t, a, b, rng);
    } else if (t.isSimplex() && dim == 2 && rng(2)) {
      auto m = std::vector<V>{mid(c[0], c[1]), mid(c[0], c[2]), mid(c[1], c[2])};
      child(f, t, {c[0], m[0], m[1]}, rng); child(f, t, {c[1], m[0], m[2]}, rng); child(f, t, {c[2], m[1], m[2]}, rng); child(f, t, m, rng);
    } else if (dim == 3 && t.isPrism() && rng(2)) {
      for (int k = 0; k < 2; ++k) { auto d = c; for (auto& x : d) x[dim - 1] = 0.5 * x[dim - 1] + 0.5 * k; child(f, t, d, rng); }
    } else {
      // from the centre to every face
      V z = re.position(0, 0);
      for (int i = 0; i < re.size(1); ++i) {
        std::vector<V> d;
        for (int k = 0; k < re.size(i, 1, dim); ++k) d.push_back(c[re.subEntity(i, 1, k, dim)]);
        bool simplexFace = re.type(i, 1).isSimplex();
        d.push_back(z);
        if constexpr (dim == 3) { if (simplexFace) child(f, GT::tetrahedron, d, rng); else child(f, GT::pyramid, d, rng); }
        else child(f, GT::simplex(dim), d, rng);
      }
    }
  }
  void number(int v, int i) { elems[i].no[v] = (int)views[v].size(); views[v].push_back(i); }
  void build(uint64_t seed) {
    namespace GT = Dune::GeometryTypes;
    elems.clear();
    for (auto& l : views) l.clear();
    ++gen;
    Rng rng(seed + 31);
    std::vector<Dune::GeometryType> roots;
    if (dim == 1) roots = {GT::line};
    else if (dim == 2) roots = {GT::quadrilateral, GT::triangle};
    else roots = {GT::hexahedron, GT::prism, GT::pyramid, GT::tetrahedron};
    int n = 1 + (seed ? (int)rng(3) : 0);
    for (int i = 0; i < n; ++i) {
      Elem e;
      e.type = roots[rng(roots.size())];
      auto re = Dune::referenceElement<double, dim>(e.type);
      for (int k = 0; k < re.size(dim); ++k) {
        V x = re.position(k, dim);
        for (int j = 0; j < dim; ++j) x[j] *= 1.0 + 0.3 * i;
        x[0] += 3.0 * i;
        if (dim > 1) x[1] += 0.2 * x[0];
        e.corners.push_back(x);
      }
      elems.push_back(e);
      number(0, i);
    }
    // refine up to three times; the front in between stops earlier
    std::vector<int> front;
    for (int i = 0; i < n; ++i) front.push_back(i);
    int depth1 = 1 + (int)rng(2), depth2 = 1 + (int)rng(dim == 3 ? 1 : 2);
    auto sweep = [&](std::vector<int>& l, int depth) {
      for (int r = 0; r < depth; ++r) {
        std::vector<int> next;
        for (int i : l)
          if (l.size() + next.size() < 60 && rng(4)) { refine(i, rng); for (int k : elems[i].children) next.push_back(k); }
          else next.push_back(i);
        l = next;
      }
    };
    sweep(front, depth1);
    for (int v = 1; v < 3; ++v) {
      auto l = front;
      for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[rng(i)]);
      for (int i : l) number(v, i);
      if (v == 1) sweep(front, depth2);
    }
  }
};

template<int dim> class Entity;
template<int dim> class HIterator;
template<int dim> class Grid;

template<int dim> class Entity {
public:
  static constexpr int codimension = 0, dimension = dim, mydimension = dim, dimensionworld = dim;
  using Geometry = Dune::MultiLinearGeometry<double, dim, dim>;
  using LocalGeometry = Dune::MultiLinearGeometry<double, dim, dim>;
  using HierarchicIterator = HIterator<dim>;
  template<int c> struct Codim { using Entity = h::Entity<dim>; using Geometry = Dune::MultiLinearGeometry<double, dim - c, dim>; };
  Entity() = default;
  Entity(const Forest<dim>* f, int i) : f_(f), i_(i), gen_(f->gen) {}
  Dune::GeometryType type() const { check(); return e().type; }
  Geometry geometry() const { check(); sim::gridPoint(); return f_->geometry(i_); }
  int level() const { check(); return e().level; }
  bool isLeaf() const { check(); return e().children.empty(); }
  bool isRegular() const { return true; }
  bool hasFather() const { check(); return e().father >= 0; }
  Entity father() const { check(); sim::gridPoint(); if (e().father < 0) sim::violation("no-father", "the father of an element of the coarsest level was asked for"); return Entity(f_, e().father); }
  LocalGeometry geometryInFather() const { check(); sim::gridPoint(); if (e().father < 0) sim::violation("no-father", "the father of an element of the coarsest level was asked for"); return LocalGeometry(Dune::referenceElement<double, dim>(e().type), e().inFather); }
  HIterator<dim> hbegin(int maxLevel) const;
  HIterator<dim> hend(int maxLevel) const;
  Dune::PartitionType partitionType() const { return Dune::InteriorEntity; }
  bool operator==(const Entity& o) const { return f_ == o.f_ && i_ == o.i_; }
  bool operator!=(const Entity& o) const { return !(*this == o); }
  void check() const { if (!f_ || gen_ != f_->gen) staleEntity(); }
  const typename Forest<dim>::Elem& e() const { return f_->elems[i_]; }
  int no() const { return i_; }
  const Forest<dim>* forest() const { return f_; }
private:
  const Forest<dim>* f_ = nullptr;
  int i_ = -1, gen_ = -1;
};
template<int dim> auto referenceElement(const Entity<dim>& e) { return Dune::referenceElement<double, dim>(e.type()); }

// all proper descendants up to a level, depth first
template<int dim> class HIterator {
public:
  using value_type = Entity<dim>;
  using reference = const value_type&;
  using pointer = const value_type*;
  using difference_type = std::ptrdiff_t;
  using iterator_category = std::forward_iterator_tag;
  using Entity = h::Entity<dim>;
  HIterator() = default;
  HIterator(const Forest<dim>* f, std::vector<int> l) : f_(f), l_(std::move(l)) { load(); }
  reference operator*() const { return cur_; }
  pointer operator->() const { return &cur_; }
  HIterator& operator++() { ++k_; load(); return *this; }
  bool operator==(const HIterator& o) const { return left() == o.left(); }
  bool operator!=(const HIterator& o) const { return !(*this == o); }
private:
  size_t left() const { return l_.size() - k_; }
  void load() { if (left()) cur_ = Entity(f_, l_[k_]); }
  const Forest<dim>* f_ = nullptr;
  std::vector<int> l_;
  size_t k_ = 0;
  Entity cur_;
};
template<int dim> HIterator<dim> Entity<dim>::hbegin(int maxLevel) const {
  check(); sim::gridPoint();
  std::vector<int> l;
  auto walk = [&](auto& self, int i) -> void { for (int c : f_->elems[i].children) if (f_->elems[c].level <= maxLevel) { l.push_back(c); self(self, c); } };
  walk(walk, i_);
  return HIterator<dim>(f_, l);
}
template<int dim> HIterator<dim> Entity<dim>::hend(int) const { return HIterator<dim>(f_, {}); }

template<int dim> class IndexSet {
public:
  static constexpr int dimension = dim;
  using IndexType = unsigned int;
  using Types = std::vector<Dune::GeometryType>;
  template<int cd> struct Codim { using Entity = h::Entity<dim>; };
  Forest<dim>* f = nullptr;
  int view = 0;
  IndexType index(const Entity<dim>& e) const { e.check(); sim::yieldPoint(); if (e.e().no[view] < 0) sim::violation("foreign-element", "an element of another grid view was looked up in an index set"); return (unsigned)e.e().no[view]; }
  IndexType size(int) const { return (unsigned)f->views[view].size(); }
  bool contains(const Entity<dim>& e) const { e.check(); sim::yieldPoint(); return e.e().no[view] >= 0; }
};
template<int dim> class Iterator {
public:
  using value_type = Entity<dim>;
  using reference = value_type;
  using pointer = const value_type*;
  using difference_type = std::ptrdiff_t;
  using iterator_category = std::input_iterator_tag;
  using Entity = h::Entity<dim>;
  Iterator() = default;
  Iterator(const Forest<dim>* f, int v, int k) : f_(f), v_(v), k_(k) {}
  value_type operator*() const { return Entity(f_, f_->views[v_][k_]); }
  Iterator& operator++() { ++k_; return *this; }
  bool operator==(const Iterator& o) const { return k_ == o.k_; }
  bool operator!=(const Iterator& o) const { return k_ != o.k_; }
private:
  const Forest<dim>* f_ = nullptr;
  int v_ = 0, k_ = 0;
};
template<int dim_> class GridView {
public:
  static constexpr int dimension = dim_, dimensionworld = dim_;
  static constexpr bool conforming = false;
  using ctype = double;
  using Grid = h::Grid<dim_>;
  using IndexSet = h::IndexSet<dim_>;
  template<int cd> struct Codim {
    using Entity = h::Entity<dim_>;
    using Geometry = typename Entity::Geometry;
    using LocalGeometry = typename Entity::LocalGeometry;
    using Iterator = h::Iterator<dim_>;
    template<Dune::PartitionIteratorType> struct Partition { using Iterator = h::Iterator<dim_>; };
  };
  GridView() = default;
  GridView(const Grid* g, int id) : g_(g), id_(id) {}
  const Grid& grid() const { return *g_; }
  const IndexSet& indexSet() const { return g_->sets[id_]; }
  int size(int c) const { return (int)indexSet().size(c); }
  bool contains(const Entity<dim_>& e) const { return indexSet().contains(e); }
  template<int cd> Iterator<dim_> begin() const { return {&g_->forest, id_, 0}; }
  template<int cd> Iterator<dim_> end() const { return {&g_->forest, id_, (int)g_->forest.views[id_].size()}; }
  template<int cd, Dune::PartitionIteratorType> Iterator<dim_> begin() const { return begin<cd>(); }
  template<int cd, Dune::PartitionIteratorType> Iterator<dim_> end() const { return end<cd>(); }
  int id() const { return id_; }
private:
  const Grid* g_ = nullptr;
  int id_ = 0;
};
template<int dim_> class Grid {
public:
  static constexpr int dimension = dim_, dimensionworld = dim_;
  using ctype = double;
  template<int cd> struct Codim { using Entity = h::Entity<dim_>; using Geometry = typename Entity::Geometry; using LocalGeometry = typename Entity::LocalGeometry; };
  using LeafGridView = GridView<dim_>;
  using LevelGridView = GridView<dim_>;
  Forest<dim_> forest;
  std::array<IndexSet<dim_>, 3> sets;
  Grid() { for (int v = 0; v < 3; ++v) { sets[v].f = &forest; sets[v].view = v; } }
  Grid(const Grid&) = delete;
  GridView<dim_> view(int v) const { return GridView<dim_>(this, v); }
};

} // namespace simgrid::h
