// What the engines see: cases (grid x space), sources (bases, functions) and
// objects that are bound to elements (local views, local functions).
#pragma once
#include "core.hh"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Bindable {
  virtual ~Bindable() = default;
  virtual void bind(int view, int elem) = 0;
  virtual void unbind() = 0;
  virtual bool bound() const = 0;
  virtual void observe(Obs&) const = 0;                 // needs to be bound
  virtual std::unique_ptr<Bindable> copy() const = 0;   // copy construction
  virtual std::unique_ptr<Bindable> move() = 0;         // move construction
  virtual bool assign(const Bindable&) = 0;             // copy assignment; false: not offered
  virtual bool moveAssign(Bindable&) = 0;
  virtual bool swapWith(Bindable&) { return false; }
  virtual std::unique_ptr<Bindable> derived() const { return {}; }  // derivative(f) of a local function
  virtual int derivedVariant() const { return -1; }     // variant id of what derived() returns
};

struct Source {
  virtual ~Source() = default;
  virtual int variants() const = 0;
  virtual std::string variantName(int) const = 0;
  virtual std::unique_ptr<Bindable> make(int variant) const = 0;
  virtual void observeGlobal(Obs&) const = 0;
  virtual std::unique_ptr<Source> copy() const = 0;
  virtual std::unique_ptr<Source> move() { return copy(); }
  virtual bool assign(const Source&) = 0;
  virtual bool moveAssign(Source&) = 0;
  virtual bool update(int /*view*/) { return false; }
  virtual bool survives() const { return false; }       // bindables outlive the source
  virtual bool setSalt(int) { return false; }           // change the coefficients in place
  virtual bool evaluateAt(int /*elem*/, int /*point*/, Obs&) const { return false; }  // in global coordinates
  int view = 0;
  int salt = 0;
};

using Index = std::vector<unsigned long>;
using Store = std::map<Index, double>;

struct World {
  virtual ~World() = default;
  virtual int views() const = 0;
  virtual int elements(int view) const = 0;
  virtual bool canRemesh() const { return false; }
  void remesh(int view, uint64_t seed) { doRemesh(view, seed); if (!remeshAffectsAll()) gen[view]++; else for (int v = 0; v < views(); ++v) gen[v]++; }
  virtual bool remeshAffectsAll() const { return false; }
  virtual void doRemesh(int /*view*/, uint64_t /*seed*/) {}
  int generation(int view) const { auto it = gen.find(view); return it == gen.end() ? 0 : it->second; }
  std::map<int, int> gen;
  // kinds of sources
  virtual int kinds() const = 0;
  virtual std::string kindName(int) const = 0;
  virtual bool kindSurvives(int) const { return false; }
  virtual std::unique_ptr<Source> make(int kind, int view, int salt) = 0;
  virtual bool updatable(int kind) const = 0;
  virtual bool sameViewOnly() const { return false; }   // update only with the view it was built for
  // absolute oracle for what the given object shows; false: none
  virtual bool expected(int /*kind*/, int /*variant*/, int /*view*/, int /*elem*/, int /*salt*/, Obs&) { return false; }
  // the same for evaluation at the q-th point of an element, in global coordinates
  virtual bool expectedAt(int kind, int view, int elem, int q, int salt, Obs& o) {
    Obs x;
    if (!expected(kind, 0, view, elem, salt, x)) return false;
    size_t n = (x.t.size() - 2) / 2;
    for (size_t k = 0; k < n; ++k) o.t.push_back(x.t[2 + q * n + k]);
    return true;
  }
  virtual bool isBasis() const { return false; }
  // invariants of the basis (kind 0); empty string: fine
  virtual std::string checkNumbering(const Source&) { return ""; }
  virtual std::string checkConforming(const Source&, int /*salt*/) { return ""; }
  virtual std::string checkShapeFunctions(const Source&, int /*salt*/) { return ""; }
  virtual std::string checkTraversal(const Source&) { return ""; }
  // interpolation
  virtual int interpJobs() const { return 0; }
  virtual std::string interpName(int) const { return ""; }
  virtual void interpolate(const Source&, int /*job*/, int /*salt*/, Store&, const std::map<Index, bool>* /*mask*/) {}
  virtual bool componentJob() const { return false; }   // job 2: into the last component only
  virtual bool tightInterpolation() const { return false; }
  virtual void componentIndices(const Source&, std::set<Index>&) {}
  virtual std::set<Index> allIndices(const Source&) { return {}; }
  // interpolation of a member of the space returns its coefficients (job 1)
  virtual bool projection() const { return false; }
  virtual void coefficients(const Source&, int /*salt*/, Store&) {}
  // vector containers
  virtual int containers() const { return 0; }
  virtual std::string containerName(int) const { return ""; }
  struct Container {
    virtual ~Container() = default;
    virtual void resize(const Source&) = 0;
    virtual std::string check(const Source&) = 0;      // shape fits the basis
    virtual void fill(const Source&, int salt) = 0;
    virtual std::string checkFill(const Source&, int salt) = 0;
    virtual std::string scalar(double) = 0;
    virtual std::unique_ptr<Container> copy() const = 0;
  };
  virtual std::unique_ptr<Container> makeContainer(int, const Source&) { return {}; }
};

struct Case {
  std::string name;
  unsigned flags = 0;
  std::function<std::unique_ptr<World>()> make;   // chooses the grid
  int weight = 1;
};
enum : unsigned { C_BASIS = 1, C_FUNCTION = 2, C_TRANSFER = 4 };
std::vector<Case>& cases();
struct RegisterCase { RegisterCase(Case c) { cases().push_back(std::move(c)); } };
Case& pickCase(unsigned flags);
extern const char* onlyCase;
extern int tierThorough;

} // namespace sim
