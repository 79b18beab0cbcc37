// A simulated unstructured grid: the stand-in for the mesh manager a user brings.
// It offers several views, can be remeshed underneath its users, numbers its
// entities randomly, and every query passes through a seam where the simulator
// may preempt the caller or let the query fail.
#pragma once
#include "core.hh"
#include <array>
#include <map>
#include <algorithm>
#include <dune/common/fvector.hh>
#include <dune/common/hybridutilities.hh>
#include <dune/geometry/type.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/grid/common/capabilities.hh>
#include <dune/grid/common/gridenums.hh>
#include <dune/grid/common/rangegenerators.hh>
#include <dune/grid/common/mcmgmapper.hh>

namespace Dune {
// lets a qualified call find what the grid's own geometry has as a hidden friend
template<class ct, int mydim, int cdim>
auto referenceElement(const MultiLinearGeometry<ct, mydim, cdim>& geo) { return referenceElement<ct, mydim>(geo.type()); }
}

namespace simgrid {

enum Kind { Simplex, Cube, Mixed };

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(sim::mix(x, 99)) {}
  uint32_t operator()(uint32_t n) { s = sim::mix(s, 1); return uint32_t((s >> 11) % n); }
  double unit() { return (*this)(1000001) / 1000000.0; }
};

template<int dim>
struct Mesh {
  using V = Dune::FieldVector<double, dim>;
  struct Ent { Dune::GeometryType type; int index = -1; std::vector<int> v; unsigned long id = 0; };
  struct Elem { Dune::GeometryType type; std::vector<int> v; std::array<std::vector<int>, dim + 1> sub; std::vector<int> nb, nbFacet; };
  std::vector<V> verts;
  std::vector<Elem> elems;                        // in iteration order
  std::array<std::vector<Ent>, dim + 1> ents;     // codim 0: same numbering as elems
  std::array<std::vector<Dune::GeometryType>, dim + 1> types;
  std::map<Dune::GeometryType, int> count;

  void add(Dune::GeometryType t, std::vector<int> v) { Elem e; e.type = t; e.v = std::move(v); elems.push_back(std::move(e)); }

  void finish(Rng& rng, bool permuteIndices) {
    for (size_t i = elems.size(); i > 1; --i) std::swap(elems[i - 1], elems[rng(i)]);
    std::array<std::map<std::vector<int>, int>, dim + 1> key;
    for (int c = 0; c <= dim; ++c)
      for (auto& e : elems) {
        auto re = Dune::referenceElement<double, dim>(e.type);
        e.sub[c].resize(re.size(c));
        for (int i = 0; i < re.size(c); ++i) {
          std::vector<int> v;
          for (int k = 0; k < re.size(i, c, dim); ++k) v.push_back(e.v[re.subEntity(i, c, k, dim)]);
          auto s = v;
          std::sort(s.begin(), s.end());
          auto it = key[c].find(s);
          if (it == key[c].end()) {
            it = key[c].emplace(s, (int)ents[c].size()).first;
            Ent x;
            x.type = re.type(i, c);
            x.v = v;
            ents[c].push_back(x);
          }
          e.sub[c][i] = it->second;
        }
      }
    unsigned long idBase = 0;
    for (int c = 0; c <= dim; ++c) {
      std::map<Dune::GeometryType, std::vector<int>> by;
      for (size_t k = 0; k < ents[c].size(); ++k) by[ents[c][k].type].push_back((int)k);
      for (auto& [t, l] : by) {
        types[c].push_back(t);
        count[t] = (int)l.size();
        if (permuteIndices)
          for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[rng(i)]);
        for (size_t i = 0; i < l.size(); ++i) ents[c][l[i]].index = (int)i;
      }
      std::vector<int> p(ents[c].size());
      for (size_t i = 0; i < p.size(); ++i) p[i] = (int)i;
      for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[rng(i)]);
      for (size_t i = 0; i < p.size(); ++i) ents[c][i].id = idBase + (unsigned long)p[i] * 3 + rng(3);
      idBase += 4 * p.size() + 7;
    }
    // neighbours
    std::map<int, std::vector<std::pair<int, int>>> facet;
    for (size_t k = 0; k < elems.size(); ++k)
      for (size_t i = 0; i < elems[k].sub[1].size(); ++i) facet[elems[k].sub[1][i]].push_back({(int)k, (int)i});
    for (auto& e : elems) { e.nb.assign(e.sub[1].size(), -1); e.nbFacet = e.nb; }
    for (auto& [f, l] : facet)
      if (l.size() == 2) {
        elems[l[0].first].nb[l[0].second] = l[1].first;
        elems[l[0].first].nbFacet[l[0].second] = l[1].second;
        elems[l[1].first].nb[l[1].second] = l[0].first;
        elems[l[1].first].nbFacet[l[1].second] = l[0].second;
      } else if (l.size() > 2) sim::internalError("non-manifold facet");
  }
};

// a cube's vertices renumbered by a symmetry of the cube (axis permutation and flips)
inline std::vector<int> cubeSymmetry(const std::vector<int>& v, int d, Rng& rng, bool orient) {
  std::vector<int> perm(d), r(v.size());
  for (int i = 0; i < d; ++i) perm[i] = i;
  for (int i = d; i > 1; --i) std::swap(perm[i - 1], perm[rng(i)]);
  unsigned flip = rng(1u << d);
  if (!orient) { for (int i = 0; i < d; ++i) perm[i] = i; flip = 0; }
  for (unsigned a = 0; a < v.size(); ++a) {
    unsigned b = 0;
    for (int i = 0; i < d; ++i) if (((a >> i) & 1u) ^ ((flip >> i) & 1u)) b |= 1u << perm[i];
    r[a] = v[b];
  }
  return r;
}
inline void shuffle(std::vector<int>& v, Rng& rng, bool orient) {
  if (!orient) return;
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[rng(i)]);
}

struct MeshParams { int n[3] = {1, 1, 1}; uint64_t seed = 0; bool jitter = true; int orient = 2; bool permute = true; };   // orient: 0 aligned, 1 positive, 2 arbitrary

template<int dim>
void buildMesh(Mesh<dim>& m, Kind kind, const MeshParams& p) {
  Rng rng(p.seed);
  namespace GT = Dune::GeometryTypes;
  std::array<int, 3> n{1, 1, 1}, s{1, 1, 1};
  for (int i = 0; i < dim; ++i) { n[i] = p.n[i]; s[i] = n[i] + 1; }
  if (dim < 3) s[2] = 1;
  if (dim < 2) s[1] = 1;
  double stretch[3];
  for (auto& x : stretch) x = p.jitter ? 0.7 + 0.6 * rng.unit() : 1.0;
  for (int k = 0; k < s[2]; ++k) for (int j = 0; j < s[1]; ++j) for (int i = 0; i < s[0]; ++i) {
    Dune::FieldVector<double, dim> x;
    int ijk[3] = {i, j, k};
    for (int d = 0; d < dim; ++d) {
      x[d] = stretch[d] * ijk[d];
      if (p.jitter) x[d] += (kind == Simplex || dim < 3 ? 0.3 : 0.2) * (rng.unit() - 0.5);
    }
    m.verts.push_back(x);
  }
  auto vid = [&](int i, int j, int k) { return i + s[0] * (j + s[1] * k); };
  if constexpr (dim == 1) {
    for (int i = 0; i < n[0]; ++i) { std::vector<int> v{vid(i, 0, 0), vid(i + 1, 0, 0)}; shuffle(v, rng, p.orient); m.add(GT::line, v); }
  } else if constexpr (dim == 2) {
    for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) {
      int a = vid(i, j, 0), b = vid(i + 1, j, 0), c = vid(i, j + 1, 0), d = vid(i + 1, j + 1, 0);
      bool split = kind == Simplex || (kind == Mixed && rng(2));
      if (!split) m.add(GT::quadrilateral, cubeSymmetry({a, b, c, d}, 2, rng, p.orient));
      else {
        std::vector<int> t1, t2;
        if (rng(2)) { t1 = {a, b, c}; t2 = {d, b, c}; } else { t1 = {a, b, d}; t2 = {a, c, d}; }
        shuffle(t1, rng, p.orient);
        shuffle(t2, rng, p.orient);
        m.add(GT::triangle, t1);
        m.add(GT::triangle, t2);
      }
    }
  } else {
    for (int j = 0; j < n[1]; ++j) for (int i = 0; i < n[0]; ++i) {
      int mode = kind == Mixed ? (int)rng(3) : 0;    // per column: hexahedra, prisms, or pyramids
      bool diag = rng(2);
      for (int k = 0; k < n[2]; ++k) {
        int v[8];
        for (int q = 0; q < 8; ++q) v[q] = vid(i + (q & 1), j + ((q >> 1) & 1), k + (q >> 2));
        if (kind == Simplex) {
          // Kuhn subdivision: conforming across cells
          int perms[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
          for (auto& pm : perms) {
            std::vector<int> t;
            int q = 0;
            t.push_back(v[q]);
            for (int r : pm) { q |= 1 << r; t.push_back(v[q]); }
            shuffle(t, rng, p.orient);
            m.add(GT::tetrahedron, t);
          }
        } else if (kind == Cube || mode == 0) {
          m.add(GT::hexahedron, cubeSymmetry(std::vector<int>(v, v + 8), 3, rng, p.orient));
        } else if (mode == 1) {
          int tri[2][2][3] = {{{0, 1, 2}, {3, 1, 2}}, {{0, 1, 3}, {0, 2, 3}}};
          for (auto& t : tri[diag]) {
            std::vector<int> q{t[0], t[1], t[2]};
            shuffle(q, rng, p.orient);
            bool up = p.orient && rng(2);
            std::vector<int> pr;
            for (int l = 0; l < 2; ++l) for (int x : q) pr.push_back(v[x + 4 * ((l == 1) != up)]);
            m.add(GT::prism, pr);
          }
        } else {
          Dune::FieldVector<double, dim> c(0.0);
          for (int q : v) c += m.verts[q];
          c /= 8.0;
          m.verts.push_back(c);
          int cv = (int)m.verts.size() - 1;
          auto re = Dune::referenceElement<double, 3>(GT::hexahedron);
          for (int f = 0; f < 6; ++f) {
            std::vector<int> base;
            for (int q = 0; q < 4; ++q) base.push_back(v[re.subEntity(f, 1, q, 3)]);
            base = cubeSymmetry(base, 2, rng, p.orient);
            base.push_back(cv);
            m.add(GT::pyramid, base);
          }
        }
      }
    }
  }
  if (p.orient == 0) { for (auto& e : m.elems) if (e.type.isSimplex()) std::sort(e.v.begin(), e.v.end()); }
  if constexpr (dim > 1)
    if (p.orient == 1)
      for (auto& e : m.elems) {
        Dune::MultiLinearGeometry<double, dim, dim> geo(Dune::referenceElement<double, dim>(e.type), [&] { std::vector<Dune::FieldVector<double, dim>> c; for (int v : e.v) c.push_back(m.verts[v]); return c; }());
        if (geo.jacobianTransposed(geo.local(geo.center())).determinant() > 0) continue;
        if (e.type.isSimplex()) std::swap(e.v[dim - 1], e.v[dim]);
        else if (e.type.isCube()) for (int q = 0; q < (1 << dim); q += 4) std::swap(e.v[q + 1], e.v[q + 2]);
      }
  m.finish(rng, p.permute);
}

template<int dim, Kind kind> class Grid;
template<int dim, Kind kind> class GridView;
template<int cd, int dim, Kind kind> class Entity;
template<int dim, Kind kind> class Intersection;
template<int cd, int dim, Kind kind> class Iterator;

template<int dim>
struct ViewData { int id = 0; int gen = 0; Mesh<dim> mesh; };

[[noreturn]] void staleEntity();

template<int cd, int dim, Kind kind>
class Entity {
public:
  static constexpr int codimension = cd;
  static constexpr int dimension = dim;
  static constexpr int mydimension = dim - cd;
  static constexpr int dimensionworld = dim;
  using Geometry = Dune::MultiLinearGeometry<double, dim - cd, dim>;
  using GridImp = Grid<dim, kind>;
  template<int c> struct Codim { using Entity = simgrid::Entity<c, dim, kind>; using Geometry = Dune::MultiLinearGeometry<double, dim - c, dim>; };
  struct EntitySeed { const ViewData<dim>* vd; int no; bool isValid() const { return vd; } };

  Entity() = default;
  Entity(const Grid<dim, kind>* g, const ViewData<dim>* vd, int no) : grid_(g), vd_(vd), no_(no), gen_(vd->gen) {}

  Dune::GeometryType type() const { check(); return ent().type; }
  Geometry geometry() const {
    check();
    sim::gridPoint();
    std::vector<Dune::FieldVector<double, dim>> c;
    const auto& v = verts();
    c.reserve(v.size());
    for (int x : v) c.push_back(vd_->mesh.verts[x]);
    return Geometry(Dune::referenceElement<double, dim - cd>(ent().type), c);
  }
  unsigned int subEntities(unsigned c) const {
    check();
    if constexpr (cd == 0) return (unsigned)vd_->mesh.elems[no_].sub[c].size();
    else return Dune::referenceElement<double, dim - cd>(ent().type).size(c - cd);
  }
  template<int c> simgrid::Entity<c, dim, kind> subEntity(int i) const {
    static_assert(cd == 0);
    check();
    return simgrid::Entity<c, dim, kind>(grid_, vd_, vd_->mesh.elems[no_].sub[c][i]);
  }
  int level() const { return 0; }
  bool isLeaf() const { return true; }
  bool isRegular() const { return true; }
  bool hasFather() const { return false; }
  Entity father() const { return *this; }
  Iterator<0, dim, kind> hbegin(int) const { return Iterator<0, dim, kind>(grid_, vd_, (int)vd_->mesh.elems.size()); }
  Iterator<0, dim, kind> hend(int) const { return hbegin(0); }
  Dune::PartitionType partitionType() const { return Dune::InteriorEntity; }
  bool hasBoundaryIntersections() const {
    check();
    for (int x : vd_->mesh.elems[no_].nb) if (x < 0) return true;
    return false;
  }
  EntitySeed seed() const { return {vd_, no_}; }
  bool operator==(const Entity& o) const { return vd_ == o.vd_ && no_ == o.no_ && gen_ == o.gen_; }
  bool operator!=(const Entity& o) const { return !(*this == o); }

  int no() const { return no_; }
  const ViewData<dim>* viewData() const { return vd_; }
  const Grid<dim, kind>* grid() const { return grid_; }
  void check() const { if (!vd_ || gen_ != vd_->gen) staleEntity(); }
  const typename Mesh<dim>::Ent& ent() const { return vd_->mesh.ents[cd][no_]; }
  const std::vector<int>& verts() const { if constexpr (cd == 0) return vd_->mesh.elems[no_].v; else return ent().v; }
private:
  const Grid<dim, kind>* grid_ = nullptr;
  const ViewData<dim>* vd_ = nullptr;
  int no_ = -1;
  int gen_ = -1;
};

template<int cd, int dim, Kind kind>
auto referenceElement(const Entity<cd, dim, kind>& e) { return Dune::referenceElement<double, dim - cd>(e.type()); }

template<int dim_, Kind kind>
class IndexSet {
public:
  static constexpr int dimension = dim_;
  using IndexType = unsigned int;
  using Types = std::vector<Dune::GeometryType>;
  template<int cd> struct Codim { using Entity = simgrid::Entity<cd, dim_, kind>; };
  explicit IndexSet(const ViewData<dim_>* vd) : vd_(vd) {}
  template<int cd> IndexType index(const Entity<cd, dim_, kind>& e) const { e.check(); own(e); sim::yieldPoint(); return (unsigned)e.ent().index; }
  template<class E> IndexType subIndex(const E& e, int i, unsigned codim) const {
    static_assert(E::codimension == 0);
    e.check(); own(e); sim::yieldPoint();
    return (unsigned)vd_->mesh.ents[codim][vd_->mesh.elems[e.no()].sub[codim][i]].index;
  }
  template<int cd, class E> IndexType subIndex(const E& e, int i, unsigned codim) const { return subIndex(e, i, codim); }
  Types types(int codim) const { return vd_->mesh.types[codim]; }
  const Types& geomTypes(int codim) const { return vd_->mesh.types[codim]; }
  IndexType size(Dune::GeometryType t) const { auto it = vd_->mesh.count.find(t); return it == vd_->mesh.count.end() ? 0 : it->second; }
  IndexType size(int codim) const { return (unsigned)vd_->mesh.ents[codim].size(); }
  template<class E> bool contains(const E& e) const { return e.viewData() == vd_; }
private:
  template<class E> void own(const E& e) const { if (e.viewData() != vd_) sim::violation("foreign-element", "an element of another grid view was looked up in an index set"); }
  const ViewData<dim_>* vd_;
};

template<int dim_, Kind kind>
class IdSet {
public:
  static constexpr int dimension = dim_;
  using IdType = unsigned long;
  template<int cd> IdType id(const Entity<cd, dim_, kind>& e) const { e.check(); sim::yieldPoint(); return e.ent().id; }
  template<class E> IdType subId(const E& e, int i, unsigned codim) const {
    e.check(); sim::yieldPoint();
    const auto& m = e.viewData()->mesh;
    return m.ents[codim][m.elems[e.no()].sub[codim][i]].id;
  }
};

template<int dim_, Kind kind>
class Grid {
public:
  static constexpr int dimension = dim_;
  static constexpr int dimensionworld = dim_;
  using ctype = double;
  using GlobalIdSet = IdSet<dim_, kind>;
  using LocalIdSet = GlobalIdSet;
  using LeafGridView = GridView<dim_, kind>;
  using LevelGridView = GridView<dim_, kind>;
  using LeafIndexSet = IndexSet<dim_, kind>;
  using HierarchicIterator = Iterator<0, dim_, kind>;
  struct Traits { template<int cd> struct Codim { using Entity = simgrid::Entity<cd, dim_, kind>; using Geometry = typename Entity::Geometry; }; };
  template<int cd> struct Codim { using Entity = simgrid::Entity<cd, dim_, kind>; using EntitySeed = typename Entity::EntitySeed; using Geometry = typename Entity::Geometry; using LocalGeometry = Dune::MultiLinearGeometry<double, dim_ - cd, dim_>; };
  Grid(int views) {
    for (int i = 0; i < views; ++i) {
      vd_.push_back(std::make_unique<ViewData<dim_>>());
      vd_.back()->id = i;
      is_.push_back(std::make_unique<IndexSet<dim_, kind>>(vd_.back().get()));
    }
  }
  Grid(const Grid&) = delete;
  void remesh(int view, const MeshParams& p) {
    Mesh<dim_> m;
    buildMesh(m, kind, p);
    vd_[view]->gen++;
    vd_[view]->mesh = std::move(m);
  }
  int views() const { return (int)vd_.size(); }
  const ViewData<dim_>* viewData(int i) const { return vd_[i].get(); }
  const IndexSet<dim_, kind>& indexSet(int i) const { return *is_[i]; }
  GridView<dim_, kind> view(int i) const { return GridView<dim_, kind>(this, i); }
  GridView<dim_, kind> leafGridView() const { return view(searchView); }
  GridView<dim_, kind> levelGridView(int) const { return view(searchView); }
  int searchView = 0;   // the view a hierarchic search starts from
  const GlobalIdSet& globalIdSet() const { return ids_; }
  const GlobalIdSet& localIdSet() const { return ids_; }
private:
  std::vector<std::unique_ptr<ViewData<dim_>>> vd_;
  std::vector<std::unique_ptr<IndexSet<dim_, kind>>> is_;
  GlobalIdSet ids_;
};

template<int cd, int dim, Kind kind>
class Iterator {
public:
  using value_type = simgrid::Entity<cd, dim, kind>;
  using reference = value_type;
  using pointer = const value_type*;
  using difference_type = std::ptrdiff_t;
  using iterator_category = std::input_iterator_tag;
  using Entity_ = value_type;
  static constexpr int codimension = cd;
  using Entity = simgrid::Entity<cd, dim, kind>;
  using Reference = Entity;
  Iterator() = default;
  Iterator(const Grid<dim, kind>* g, const ViewData<dim>* vd, int no) : g_(g), vd_(vd), no_(no) { load(); }
  value_type operator*() const { return value_type(g_, vd_, no_); }
  pointer operator->() const { return &cur_; }
  Iterator& operator++() { ++no_; load(); return *this; }
  Iterator operator++(int) { auto t = *this; ++*this; return t; }
  bool operator==(const Iterator& o) const { return vd_ == o.vd_ && no_ == o.no_; }
  bool operator!=(const Iterator& o) const { return !(*this == o); }
private:
  void load() { if (no_ < (int)vd_->mesh.ents[cd].size()) cur_ = value_type(g_, vd_, no_); }
  const Grid<dim, kind>* g_ = nullptr;
  const ViewData<dim>* vd_ = nullptr;
  int no_ = 0;
  value_type cur_;
};

template<int dim, Kind kind>
class Intersection {
public:
  static constexpr int mydimension = dim - 1;
  static constexpr int dimensionworld = dim;
  using ctype = double;
  using Entity = simgrid::Entity<0, dim, kind>;
  using Geometry = Dune::MultiLinearGeometry<double, dim - 1, dim>;
  using LocalGeometry = Dune::MultiLinearGeometry<double, dim - 1, dim>;
  using LocalCoordinate = Dune::FieldVector<double, dim - 1>;
  using GlobalCoordinate = Dune::FieldVector<double, dim>;
  Intersection() = default;
  Intersection(const Grid<dim, kind>* g, const ViewData<dim>* vd, int elem, int facet) : g_(g), vd_(vd), e_(elem), f_(facet) {}
  bool boundary() const { return el().nb[f_] < 0; }
  bool neighbor() const { return el().nb[f_] >= 0; }
  bool conforming() const { return true; }
  Entity inside() const { return Entity(g_, vd_, e_); }
  Entity outside() const { return Entity(g_, vd_, el().nb[f_]); }
  int indexInInside() const { return f_; }
  int indexInOutside() const { return el().nbFacet[f_]; }
  Dune::GeometryType type() const { return re().type(f_, 1); }
  Geometry geometry() const { sim::gridPoint(); std::vector<GlobalCoordinate> c; for (int v : fverts()) c.push_back(vd_->mesh.verts[v]); return make(c); }
  LocalGeometry geometryInInside() const { return local(el()); }
  LocalGeometry geometryInOutside() const { return local(vd_->mesh.elems[el().nb[f_]]); }
  GlobalCoordinate centerUnitOuterNormal() const { auto r = Dune::referenceElement<double, dim - 1>(type()); return unitOuterNormal(r.position(0, 0)); }
  GlobalCoordinate unitOuterNormal(const LocalCoordinate& x) const {
    auto n = re().integrationOuterNormal(f_);
    auto geo = inside().geometry();
    GlobalCoordinate r;
    geo.jacobianInverseTransposed(geometryInInside().global(x)).mv(n, r);
    r /= r.two_norm();
    return r;
  }
  GlobalCoordinate outerNormal(const LocalCoordinate& x) const { return unitOuterNormal(x); }
  GlobalCoordinate integrationOuterNormal(const LocalCoordinate& x) const { auto n = unitOuterNormal(x); n *= geometry().integrationElement(x); return n; }
  bool operator==(const Intersection& o) const { return vd_ == o.vd_ && e_ == o.e_ && f_ == o.f_; }
  bool operator!=(const Intersection& o) const { return !(*this == o); }
private:
  const typename Mesh<dim>::Elem& el() const { return vd_->mesh.elems[e_]; }
  auto re() const { return Dune::referenceElement<double, dim>(el().type); }
  std::vector<int> fverts() const { std::vector<int> v; auto r = re(); for (int k = 0; k < r.size(f_, 1, dim); ++k) v.push_back(el().v[r.subEntity(f_, 1, k, dim)]); return v; }
  Geometry make(const std::vector<GlobalCoordinate>& c) const { return Geometry(Dune::referenceElement<double, dim - 1>(type()), c); }
  LocalGeometry local(const typename Mesh<dim>::Elem& e) const {
    std::vector<GlobalCoordinate> c;
    auto r = Dune::referenceElement<double, dim>(e.type);
    for (int v : fverts()) {
      int k = int(std::find(e.v.begin(), e.v.end(), v) - e.v.begin());
      c.push_back(r.position(k, dim));
    }
    return make(c);
  }
  const Grid<dim, kind>* g_ = nullptr;
  const ViewData<dim>* vd_ = nullptr;
  int e_ = 0, f_ = 0;
};

template<int dim, Kind kind>
class IntersectionIterator {
public:
  using Intersection = simgrid::Intersection<dim, kind>;
  using value_type = Intersection;
  using reference = value_type;
  using pointer = const value_type*;
  using difference_type = std::ptrdiff_t;
  using iterator_category = std::input_iterator_tag;
  IntersectionIterator() = default;
  IntersectionIterator(const Grid<dim, kind>* g, const ViewData<dim>* vd, int e, int f) : g_(g), vd_(vd), e_(e), f_(f) { cur_ = value_type(g, vd, e, f); }
  value_type operator*() const { return value_type(g_, vd_, e_, f_); }
  pointer operator->() const { return &cur_; }
  IntersectionIterator& operator++() { ++f_; cur_ = value_type(g_, vd_, e_, f_); return *this; }
  bool operator==(const IntersectionIterator& o) const { return f_ == o.f_ && e_ == o.e_; }
  bool operator!=(const IntersectionIterator& o) const { return !(*this == o); }
private:
  const Grid<dim, kind>* g_ = nullptr;
  const ViewData<dim>* vd_ = nullptr;
  int e_ = 0, f_ = 0;
  value_type cur_;
};

template<int dim_, Kind kind>
class GridView {
public:
  static constexpr int dimension = dim_;
  static constexpr int dimensionworld = dim_;
  static constexpr bool conforming = true;
  using ctype = double;
  using Grid = simgrid::Grid<dim_, kind>;
  using IndexSet = simgrid::IndexSet<dim_, kind>;
  using Intersection = simgrid::Intersection<dim_, kind>;
  using IntersectionIterator = simgrid::IntersectionIterator<dim_, kind>;
  using Implementation = GridView;
  struct Traits { using Grid = simgrid::Grid<dim_, kind>; using IndexSet = simgrid::IndexSet<dim_, kind>; };
  template<int cd> struct Codim {
    using Entity = simgrid::Entity<cd, dim_, kind>;
    using Geometry = typename Entity::Geometry;
    using LocalGeometry = Dune::MultiLinearGeometry<double, dim_ - cd, dim_>;
    using Iterator = simgrid::Iterator<cd, dim_, kind>;
    template<Dune::PartitionIteratorType> struct Partition { using Iterator = simgrid::Iterator<cd, dim_, kind>; };
  };
  GridView() = default;
  GridView(const Grid* g, int id) : g_(g), id_(id) {}
  const Grid& grid() const { return *g_; }
  const IndexSet& indexSet() const { return g_->indexSet(id_); }
  int size(int codim) const { return (int)indexSet().size(codim); }
  int size(Dune::GeometryType t) const { return (int)indexSet().size(t); }
  template<class E> bool contains(const E& e) const { return indexSet().contains(e); }
  template<int cd> simgrid::Iterator<cd, dim_, kind> begin() const { return {g_, g_->viewData(id_), 0}; }
  template<int cd> simgrid::Iterator<cd, dim_, kind> end() const { return {g_, g_->viewData(id_), (int)g_->viewData(id_)->mesh.ents[cd].size()}; }
  template<int cd, Dune::PartitionIteratorType> simgrid::Iterator<cd, dim_, kind> begin() const { return begin<cd>(); }
  template<int cd, Dune::PartitionIteratorType> simgrid::Iterator<cd, dim_, kind> end() const { return end<cd>(); }
  IntersectionIterator ibegin(const simgrid::Entity<0, dim_, kind>& e) const { e.check(); sim::gridPoint(); return {g_, g_->viewData(id_), e.no(), 0}; }
  IntersectionIterator iend(const simgrid::Entity<0, dim_, kind>& e) const { return {g_, g_->viewData(id_), e.no(), (int)g_->viewData(id_)->mesh.elems[e.no()].nb.size()}; }
  bool isConforming() const { return true; }
  int overlapSize(int) const { return 0; }
  int ghostSize(int) const { return 0; }
  bool operator==(const GridView& o) const { return g_ == o.g_ && id_ == o.id_; }
  int id() const { return id_; }
private:
  const Grid* g_ = nullptr;
  int id_ = 0;
};

} // namespace simgrid

namespace Dune::Capabilities {
template<int dim, simgrid::Kind kind>
struct hasSingleGeometryType<simgrid::Grid<dim, kind>> {
  static const bool v = kind != simgrid::Mixed || dim == 1;
  static const unsigned int topologyId = kind == simgrid::Cube ? GeometryTypes::cube(dim).id() : GeometryTypes::simplex(dim).id();
};
template<int dim, simgrid::Kind kind, int codim>
struct hasEntity<simgrid::Grid<dim, kind>, codim> { static const bool v = true; };
} // namespace Dune::Capabilities
