// P07: the type-erased wrappers as values
#include "common.hh"
#include <dune/functions/common/differentiablefunction.hh>
#include <dune/functions/common/differentiablefunctionfromcallables.hh>
#include <dune/functions/common/localfunction.hh>
#include <dune/functions/common/polymorphicsmallobject.hh>
#include <dune/functions/gridfunctions/gridfunction.hh>
#include <dune/functions/gridfunctions/gridviewfunction.hh>
namespace sim {
namespace {
namespace DF = Dune::Functions;

inline long dId(long id) { return (id * 131 + 17) % 1000003; }
inline double valueOf(long id, double x) { return double(mix((uint64_t)id, 3) % 1000) / 100.0 + double(mix((uint64_t)id, 4) % 100) / 10.0 * x; }
inline double ctxValue(int ctx) { return ctx * 1000.0; }

// what every content carries: its identity on the heap, and where it lives
struct Tag {
  const Tag* self;
  long* id;
  explicit Tag(long i) : self(this), id(new long(i)) {}
  Tag(const Tag& o) : self(this), id(nullptr) { o.alive(); callbackPoint(); id = new long(*o.id); }
  Tag(Tag&& o) noexcept : self(this), id(o.id) { if (o.self != &o) violation("broken-object", "a content was relocated without its move constructor"); o.id = nullptr; }
  Tag& operator=(const Tag& o) { if (this != &o) { o.alive(); callbackPoint(); auto n = new long(*o.id); delete id; id = n; } return *this; }
  Tag& operator=(Tag&& o) noexcept { if (this != &o) { delete id; id = o.id; o.id = nullptr; } return *this; }
  ~Tag() { if (self != this) violation("broken-object", "a content is destroyed that was never constructed there"); delete id; self = nullptr; id = nullptr; }
  void alive() const {
    if (self != this) violation("broken-object", "a content is used that was not constructed at its address");
    if (!id) violation("broken-object", "a content is used that was moved from");
  }
};
template<int pad, int al> struct alignas(al) Room { char room[pad]; };
template<> struct Room<0, 8> {};
template<class T> void checkAligned(const T* p) { if (reinterpret_cast<uintptr_t>(p) % alignof(T)) violation("misaligned", "a content lives at an address that does not suit its type"); }

template<int pad, int al, bool der> struct Fn : Tag, Room<pad, al> {
  using Tag::Tag;
  double operator()(double x) const { alive(); checkAligned(this); callbackPoint(); return valueOf(*id, x); }
  friend Fn derivative(const Fn& f) requires der { f.alive(); callbackPoint(); return Fn(dId(*f.id)); }
};
template<int pad, bool der> struct LFn : Tag, Room<pad, 8> {
  using Context = int;
  int ctx = 0; bool b = false;
  using Tag::Tag;
  double operator()(double x) const { alive(); callbackPoint(); return valueOf(*id, x) + ctxValue(ctx); }
  void bind(const int& c) { alive(); callbackPoint(); ctx = c; b = true; }
  void unbind() { alive(); b = false; }
  bool bound() const { alive(); return b; }
  const int& localContext() const { alive(); return ctx; }
  friend LFn derivative(const LFn& f) requires der { f.alive(); callbackPoint(); LFn r(dId(*f.id)); r.ctx = f.ctx; r.b = f.b; return r; }
};
struct FakeSet { using Element = int; using LocalCoordinate = double; using GlobalCoordinate = double; long* id; };
template<int pad, bool der, int lpad> struct GFn : Tag, Room<pad, 8> {
  FakeSet set{nullptr};
  GFn(long i) : Tag(i) { set.id = id; }
  GFn(const GFn& o) : Tag(o), Room<pad, 8>(o) { set.id = id; }
  GFn(GFn&& o) noexcept : Tag(std::move(o)), Room<pad, 8>(o) { set.id = id; }
  double operator()(double x) const { alive(); callbackPoint(); return valueOf(*id, x); }
  friend LFn<lpad, der> localFunction(const GFn& f) { f.alive(); callbackPoint(); return LFn<lpad, der>(*f.id); }
  friend GFn derivative(const GFn& f) requires der { f.alive(); callbackPoint(); return GFn(dId(*f.id)); }
  const FakeSet& entitySet() const { alive(); return set; }
};

// ---- families: a wrapper type and what can be put into it
struct Functions {
  using W = DF::DifferentiableFunction<double(double)>;
  using Small = DF::DifferentiableFunction<double(double), DF::DefaultDerivativeTraits, 8>;
  static constexpr bool empty = true, ctx = false, callable = true;
  static const char* name() { return "differentiable function"; }
  static constexpr int kinds = 13;
  static bool hasDer(int k) { return k < 7 || k == 9 || k == 10 || k == 12; }
  static int derKind(int k) { return k == 10 ? 9 : k == 9 ? 8 : k; }
  template<class F> static void with(int k, long id, F f) {
    switch (k) {
    case 0: return f(Fn<0, 8, true>(id));
    case 1: return f(Fn<32, 8, true>(id));
    case 2: return f(Fn<33, 8, true>(id));
    case 3: return f(Fn<150, 8, true>(id));
    case 4: return f(Fn<16, 16, true>(id));
    case 5: return f(Fn<1, 32, true>(id));
    case 6: return f(Fn<40, 64, true>(id));
    case 7: return f(Fn<0, 8, false>(id));
    case 8: return f(Fn<90, 8, false>(id));
    case 9: return f(DF::DifferentiableFunctionFromCallables<double(double), DF::DefaultDerivativeTraits, Fn<0, 8, false>, Fn<90, 8, false>>(Fn<0, 8, false>(id), Fn<90, 8, false>(dId(id))));
    case 10: return f(DF::makeDifferentiableFunctionFromCallables(DF::SignatureTag<double(double)>(), Fn<90, 8, false>(id), Fn<0, 8, false>(dId(id)), Fn<0, 8, false>(dId(dId(id)))));
    case 11: return f(std::function<double(double)>(Fn<60, 8, false>(id)));
    case 12: return f(Small(Fn<3, 8, true>(id)));
    }
  }
  static void observe(const W& w, Obs& o) { o.d("value", w(0.25)); o.d("value", w(-2.0)); o.i("engaged", bool(w)); }
  static void expected(long id, bool, int, Obs& o) { o.d("value", valueOf(id, 0.25)); o.d("value", valueOf(id, -2.0)); o.i("engaged", 1); }
};
struct Locals {
  using W = DF::LocalFunction<double(double), int>;
  static constexpr bool empty = true, ctx = true, callable = true;
  static const char* name() { return "local function"; }
  static constexpr int kinds = 5;
  static bool hasDer(int k) { return k < 4; }
  static int derKind(int k) { return k; }
  template<class F> static void with(int k, long id, F f) {
    switch (k) {
    case 0: return f(LFn<0, true>(id));
    case 1: return f(LFn<24, true>(id));
    case 2: return f(LFn<33, true>(id));
    case 3: return f(LFn<160, true>(id));
    case 4: return f(LFn<8, false>(id));
    }
  }
  static void observe(const W& w, Obs& o) { o.i("bound", w.bound()); if (w.bound()) { o.i("context", w.localContext()); o.d("value", w(0.25)); } o.i("engaged", bool(w)); }
  static void expected(long id, bool bound, int c, Obs& o) { o.i("bound", bound); if (bound) { o.i("context", c); o.d("value", valueOf(id, 0.25) + ctxValue(c)); } o.i("engaged", 1); }
};
struct Grids {
  using W = DF::GridFunction<double(double), FakeSet>;
  static constexpr bool empty = true, ctx = false, callable = true;
  static const char* name() { return "grid function"; }
  static constexpr int kinds = 5;
  static bool hasDer(int k) { return k < 4; }
  static int derKind(int k) { return k; }
  template<class F> static void with(int k, long id, F f) {
    switch (k) {
    case 0: return f(GFn<0, true, 0>(id));
    case 1: return f(GFn<24, true, 60>(id));
    case 2: return f(GFn<32, true, 32>(id));
    case 3: return f(GFn<160, true, 16>(id));
    case 4: return f(GFn<8, false, 80>(id));
    }
  }
  static void observe(const W& w, Obs& o) {
    o.d("value", w(0.25));
    o.i("entity set", *w.entitySet().id);
    auto l = localFunction(w);
    o.i("bound", l.bound());
    l.bind(7);
    o.d("local value", l(0.5));
    o.i("context", l.localContext());
  }
  static void expected(long id, bool, int, Obs& o) {
    o.d("value", valueOf(id, 0.25));
    o.i("entity set", id);
    o.i("bound", 0);
    o.d("local value", valueOf(id, 0.5) + ctxValue(7));
    o.i("context", 7);
  }
};
// the storage beneath, for several buffer sizes
struct Shape : DF::PolymorphicType<Shape> { virtual double at(double) const = 0; };
template<int pad, int al> struct Content : Shape, Tag, Room<pad, al> {
  explicit Content(long i) : Tag(i) {}
  double at(double x) const override { alive(); checkAligned(this); callbackPoint(); return valueOf(*id, x); }
  Content* clone() const override { return new Content(*this); }
  Content* clone(void* b) const override { return new (b) Content(*this); }
  Content* move(void* b) override { return new (b) Content(std::move(*this)); }
};
template<std::size_t N> struct Storage {
  using W = DF::PolymorphicSmallObject<Shape, N>;
  static constexpr bool empty = true, ctx = false, callable = false;
  static const char* name() { return "polymorphic object"; }
  static constexpr int kinds = 6;
  static bool hasDer(int) { return false; }
  static int derKind(int k) { return k; }
  template<class F> static void with(int k, long id, F f) {
    switch (k) {
    case 0: return f(Content<0, 8>(id));
    case 1: return f(Content<8, 8>(id));
    case 2: return f(Content<32, 8>(id));
    case 3: return f(Content<200, 8>(id));
    case 4: return f(Content<16, 16>(id));
    case 5: return f(Content<8, 64>(id));
    }
  }
  static void observe(const W& w, Obs& o) { o.d("value", w.get().at(0.25)); o.i("engaged", bool(w)); }
  static void expected(long id, bool, int, Obs& o) { o.d("value", valueOf(id, 0.25)); o.i("engaged", 1); }
};

struct Model { bool engaged = false, unknown = false, bound = false; int kind = 0; long id = 0; int ctx = 0; };
template<class W> struct Slot { W w; Model m; };

template<class T> void values() {
  using W = typename T::W;
  snprintf(rec->casename, sizeof rec->casename, "%s", T::name());
  std::vector<Slot<W>> s;
  long nextId = 1;
  int steps = 4 + choose(36);
  bool faults = flip(1, 2);
  Plan typical[20];
  int prev = 0;
  auto check = [&](const char* when) {
    for (size_t i = 0; i < s.size(); ++i) {
      auto& x = s[i];
      if (x.m.unknown) continue;
      rec->comparisons++;
      if (bool(x.w) != x.m.engaged) violation("wrong-value", fmt("after %s, %s %zu %s", when, T::name(), i, x.m.engaged ? "lost its content" : "has a content"));
      if (!x.m.engaged) continue;
      Obs a, b;
      T::observe(x.w, a);
      T::expected(x.m.id, x.m.bound, x.m.ctx, b);
      auto d = a.diff(b);
      if (!d.empty()) violation("wrong-value", fmt("after %s, %s %zu with content %d of kind %d: %s", when, T::name(), i, (int)x.m.id, x.m.kind, d.c_str()));
    }
  };
  enum { NEW, NEWCONST, EMPTY, COPY, MOVE, ASSIGN, MOVEASSIGN, SELF, SELFMOVE, SWAP, SELFSWAP, SET, DROP, DERIVE, BIND, UNBIND, INSERT, CLEAR, NOPS };
  static const char* names[] = {"construction", "construction from a constant", "default construction", "copy", "move", "assignment", "move assignment", "self assignment", "self move assignment", "swap", "self swap", "assignment of a content", "destruction", "derivative", "bind", "unbind", "insertion", "clear"};
  for (int k = 0; k < steps; ++k) {
    std::vector<int> w(NOPS, 0);
    bool some = !s.empty(), more = s.size() > 1, room = s.size() < 8;
    if (room) { w[NEW] = 4; w[NEWCONST] = 2; w[EMPTY] = 1; if (some) { w[COPY] = 4; w[MOVE] = 2; w[INSERT] = 2; } }
    if (some) { w[ASSIGN] = 5; w[MOVEASSIGN] = 3; w[SELF] = 1; w[SELFMOVE] = 1; w[SELFSWAP] = 1; w[SET] = 3; w[DROP] = 3; w[DERIVE] = T::callable ? 3 : 0; w[CLEAR] = 1; if (more) w[SWAP] = 2; if (T::ctx) { w[BIND] = 5; w[UNBIND] = 2; } }
    int op = chooseWeighted(w);
    int i = some ? (int)choose(s.size()) : 0, j = some ? (int)choose(s.size()) : 0;
    if (more && (op == SWAP || op == ASSIGN || op == MOVEASSIGN) && i == j) j = (j + 1) % (int)s.size();
    Plan p;
    if (faults) choosePlan(p, (1u << F_ALLOC) | (1u << F_CALLBACK), 1, 3, typical[op]);
    auto fresh = [&] { Model m; m.engaged = true; m.kind = (int)choose(T::kinds); m.id = nextId++; return m; };
    event("%s %d %d", names[op], i, j);
    Outcome o;
    switch (op) {
    case NEW: case NEWCONST: case SET: {
      Model m = fresh();
      event("  content %ld of kind %d", m.id, m.kind);
      if (op != SET) s.reserve(s.size() + 1);
      T::with(m.kind, m.id, [&](auto&& c) {
        std::conditional_t<T::ctx, std::decay_t<decltype(c)>&, const std::decay_t<decltype(c)>&> cc = c;   // (the concept wants bind() of what is passed)
        if (op == NEW) o = attempt(p, [&] { s.push_back({W(std::move(c)), m}); });
        else if (op == NEWCONST) o = attempt(p, [&] { if constexpr (T::callable) s.push_back({W(cc), m}); else s.push_back({W(std::decay_t<decltype(c)>(cc)), m}); });
        else { o = attempt(p, [&] { if constexpr (T::callable) { if (m.id % 2) { s[i].w = cc; return; } } s[i].w = std::move(c); }); if (!o.threw) s[i].m = m; }
      });
      break;
    }
    case EMPTY: o = attempt(p, [&] { s.push_back({W(), Model()}); }); break;
    case COPY: {
      if (s[i].m.unknown) break;
      s.reserve(s.size() + 1);
      o = attempt(p, [&] { const W& c = s[i].w; if (k % 2) { W n(c); s.push_back({std::move(n), s[i].m}); } else { W& nc = s[i].w; s.push_back({W(nc), s[i].m}); } });
      break;
    }
    case MOVE: {
      s.reserve(s.size() + 1);
      o = attempt(p, [&] { s.push_back({W(std::move(s[i].w)), s[i].m}); });
      if (!o.threw) s[i].m.unknown = true;
      break;
    }
    case ASSIGN:
      if (s[j].m.unknown) break;
      o = attempt(p, [&] { const W& c = s[j].w; s[i].w = c; });
      if (!o.threw) s[i].m = s[j].m;
      break;
    case MOVEASSIGN:
      if (i == j) break;
      o = attempt(p, [&] { s[i].w = std::move(s[j].w); });
      if (!o.threw) { s[i].m = s[j].m; s[j].m.unknown = true; }
      break;
    case SELF: { if (s[i].m.unknown) break; o = attempt(p, [&] { W& a = s[i].w; const W& b = s[i].w; a = b; }); break; }
    case SELFMOVE: { o = attempt(p, [&] { W& a = s[i].w; W& b = s[i].w; a = std::move(b); }); s[i].m.unknown = true; break; }   // (valid, but any value)
    case SWAP: o = attempt(p, [&] { std::swap(s[i].w, s[j].w); }); if (!o.threw) std::swap(s[i].m, s[j].m); break;
    case SELFSWAP: o = attempt(p, [&] { W& a = s[i].w; W& b = s[i].w; std::swap(a, b); }); break;
    case DROP: o = attempt(p, [&] { s.erase(s.begin() + i); }); break;       // moves those behind it
    case DERIVE:
      if constexpr (T::callable) {
        if (s[i].m.unknown || !s[i].m.engaged) break;
        Model m = s[i].m;
        m.id = dId(m.id);
        m.kind = T::derKind(m.kind);
        bool has = T::hasDer(s[i].m.kind), refused = false;
        bool keep = s.size() < 8 && choose(2);
        if (keep) s.reserve(s.size() + 1);
        std::optional<W> r;
        o = attempt(p, [&] { try { r.emplace(derivative(s[i].w)); } catch (Dune::NotImplemented&) { if (has) throw; refused = true; p.fired = false; } });   // (streams swallow failing allocations when the message is built)
        if (o.threw) break;
        if (has == refused) violation("wrong-value", has ? "a derivative is refused" : "a derivative is made up");
        if (refused) break;
        if (keep) s.push_back({std::move(*r), m});
        else { s[i].w = std::move(*r); s[i].m = m; }
      }
      break;
    case BIND:
      if constexpr (T::ctx) {
        if (s[i].m.unknown || !s[i].m.engaged) break;
        int c = 1 + (int)choose(9);
        o = attempt(p, [&] { s[i].w.bind(c); });
        if (!o.threw) { s[i].m.bound = true; s[i].m.ctx = c; }
      }
      break;
    case UNBIND:
      if constexpr (T::ctx) {
        if (s[i].m.unknown || !s[i].m.engaged) break;
        o = attempt(p, [&] { s[i].w.unbind(); });
        if (!o.threw) s[i].m.bound = false;
      }
      break;
    case INSERT: {                                                            // moves those behind it
      if (s[j].m.unknown) break;
      s.reserve(s.size() + 1);
      std::optional<Slot<W>> n;
      o = attempt(p, [&] { n.emplace(s[j]); });
      if (!o.threw) s.insert(s.begin() + i, std::move(*n));
      break;
    }
    case CLEAR: if (choose(3) == 2) s.clear(); break;
    }
    auto& t = typical[op];
    t.allocs = std::max(t.allocs, p.allocs); t.callbacks = std::max(t.callbacks, p.callbacks);
    cover(mix(mix(mix(op, prev), p.fired), s.size() ? s[std::min<size_t>(i, s.size() - 1)].m.kind : 99));
    prev = op;
    check(names[op]);
  }
}

template<class T> static void run() { leakFree([] { values<T>(); }); }
static RegisterEngine a("P07", "functions", 3, run<Functions>);
static RegisterEngine b("P07", "local-functions", 2, run<Locals>);
static RegisterEngine c("P07", "grid-functions", 2, run<Grids>);
static RegisterEngine d("P07", "storage-0", 1, run<Storage<0>>);
static RegisterEngine e("P07", "storage-24", 1, run<Storage<24>>);
static RegisterEngine f("P07", "storage-64", 1, run<Storage<64>>);
static RegisterEngine g("P07", "storage-200", 1, run<Storage<200>>);
} // namespace
} // namespace sim
