// P91: fixed-capacity sequences and multi-indices against std::deque
#include "common.hh"
#include <array>
#include <cstring>
#include <deque>
#include <optional>
#include <sstream>
#include <tuple>
#include <dune/common/hash.hh>
#include <dune/functions/common/multiindex.hh>
#include <dune/functions/common/overflowarray.hh>
#include <dune/functions/common/reserveddeque.hh>
namespace sim {
namespace DF = Dune::Functions;
namespace seq {
// an element that knows its address, owns heap memory and may fail to be copied
struct Elem {
  const Elem* self;
  long* id;
  Elem() : self(this), id(nullptr) {}
  Elem(long i) : self(this), id(new long(i)) {}
  Elem(const Elem& o) : self(this), id(nullptr) { o.alive(); callbackPoint(); if (o.id) id = new long(*o.id); }
  Elem(Elem&& o) noexcept : self(this), id(o.id) { o.alive(); o.id = nullptr; }
  Elem& operator=(const Elem& o) { alive(); o.alive(); callbackPoint(); if (this != &o) { long* n = o.id ? new long(*o.id) : nullptr; delete id; id = n; } return *this; }
  Elem& operator=(Elem&& o) noexcept { alive(); o.alive(); if (this != &o) { delete id; id = o.id; o.id = nullptr; } return *this; }
  ~Elem() { alive(); delete id; self = nullptr; }
  void alive() const { if (self != this) violation("broken-object", "an element is used that was not constructed at its address"); }
  long value() const { alive(); return id ? *id : 0; }
  friend bool operator==(const Elem& a, const Elem& b) { return a.value() == b.value(); }
  friend std::ostream& operator<<(std::ostream& s, const Elem& e) { return s << e.value(); }
};
inline long valueOf(const Elem& e) { return e.value(); }
inline long valueOf(long x) { return x; }
inline std::size_t hash_value(const Elem& e) { return std::hash<long>()(e.value()); }
}
}
DUNE_DEFINE_HASH(DUNE_HASH_TEMPLATE_ARGS(), DUNE_HASH_TYPE(sim::seq::Elem))
namespace sim {
namespace {
using seq::Elem;
using seq::valueOf;

using Model = std::deque<std::optional<long>>;
enum { PUSHB, PUSHF, POPB, POPF, CLEAR, RESIZE, SET, COPY, MOVE, ASSIGN, MOVEASSIGN, SELF, MAKE, LIST, DROP, EQUAL, NOPS };
const char* opNames[] = {"push_back", "push_front", "pop_back", "pop_front", "clear", "resize", "writing an element", "copy", "move", "assignment", "move assignment", "self assignment", "construction", "construction from a list", "destruction", "comparison"};

// an object in memory with arbitrary previous contents
template<class C> struct Holder {
  C* p;
  template<class... A> explicit Holder(int fill, A&&... a) {
    void* m = ::operator new(sizeof(C), std::align_val_t(alignof(C)));
    std::memset(m, fill, sizeof(C));
    try { p = new (m) C(std::forward<A>(a)...); } catch (...) { ::operator delete(m, std::align_val_t(alignof(C))); throw; }
  }
  Holder(Holder&& o) noexcept : p(o.p) { o.p = nullptr; }
  Holder& operator=(Holder&& o) noexcept { std::swap(p, o.p); return *this; }
  ~Holder() { if (p) { p->~C(); ::operator delete(p, std::align_val_t(alignof(C))); } }
};

template<class C> void check(const C& c, const Model& m, const char* when) {
  Disarmed d;
  C& nc = const_cast<C&>(c);
  auto bad = [&](const std::string& what) { violation("wrong-sequence", fmt("after %s: %s", when, what.c_str())); };
  rec->comparisons++;
  if (c.size() != m.size()) bad(fmt("size %zu, expected %zu", (size_t)c.size(), m.size()));
  if (c.empty() != m.empty()) bad("empty() is wrong");
  if (c.capacity() != c.max_size()) bad("capacity and maximal size differ");
  std::size_t i = 0;
  for (auto& x : c) { if (i >= m.size()) bad("iteration goes too far"); if (m[i] && valueOf(x) != *m[i]) bad(fmt("entry %zu by iteration is %ld, expected %ld", i, valueOf(x), *m[i])); if (&x != &c[i]) bad("iteration visits something else"); ++i; }
  if (i != m.size()) bad(fmt("iteration visits %zu of %zu entries", i, m.size()));
  i = 0;
  for (auto& x : nc) { if (&x != &nc[i] || &nc[i] != &c[i]) bad("iteration visits something else"); ++i; }
  for (i = 0; i < m.size(); ++i) if (m[i] && valueOf(c[i]) != *m[i]) bad(fmt("entry %zu is %ld, expected %ld", i, valueOf(c[i]), *m[i]));
  for (i = 1; i < m.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (&c[i] == &c[j]) bad(fmt("entries %zu and %zu are one", i, j));
  if (m.size()) {
    if (&c.front() != &c[0] || &nc.front() != &nc[0]) bad("front() is not the first entry");
    if (&c.back() != &c[m.size() - 1] || &nc.back() != &nc[m.size() - 1]) bad("back() is not the last entry");
  }
  if (std::size_t(c.end() - c.begin()) != m.size()) bad("the distance of begin() and end() is wrong");
  bool known = true;
  std::ostringstream a, b;
  for (auto& x : m) { known &= bool(x); if (x) b << *x << "  "; }
  if (known) { a << c; if (a.str() != b.str()) bad("output '" + a.str() + "', expected '" + b.str() + "'"); }
  if constexpr (requires { typename C::BaseArray; }) {
    using B = typename C::BaseArray;
    if (m.size() >= std::tuple_size_v<B>) {
      const B& base = c;
      for (std::size_t k = 0; k < std::tuple_size_v<B>; ++k) if (m[k] && valueOf(base[k]) != *m[k]) bad(fmt("entry %zu of the base array is %ld, expected %ld", k, valueOf(base[k]), *m[k]));
    }
  }
}

template<class C> void sequences() {
  using V = typename C::value_type;
  constexpr std::size_t cap = C::capacity();
  struct Slot { Holder<C> h; Model m; };
  std::vector<Slot> s;
  s.reserve(8);
  auto put = [&](Holder<C>&& h, const Model& m) { Disarmed d; s.push_back({std::move(h), m}); };
  long nextId = 1;
  int steps = 6 + choose(50), prev = 0;
  bool faults = std::is_same_v<V, Elem> && flip(1, 3);
  std::array<Plan, NOPS> typical;
  for (int k = 0; k < steps; ++k) {
    std::vector<int> w(NOPS, 0);
    bool some = !s.empty(), room = s.size() < 5;
    if (room) { w[MAKE] = 2; w[LIST] = 2; if (some) { w[COPY] = 2; w[MOVE] = 1; } }
    if (some) { w[PUSHB] = 10; w[PUSHF] = 8; w[POPB] = 4; w[POPF] = requires(C& c) { c.pop_front(); } ? 4 : 0; w[CLEAR] = 1; w[RESIZE] = 2; w[SET] = 4; w[ASSIGN] = 2; w[MOVEASSIGN] = 1; w[SELF] = 1; w[DROP] = 1; w[EQUAL] = 2; }
    int op = chooseWeighted(w);
    int i = some ? (int)choose(s.size()) : 0, j = some ? (int)choose(s.size()) : 0;
    Plan p;
    if (faults) choosePlan(p, (1u << F_ALLOC) | (1u << F_CALLBACK), 1, 4, typical[op]);
    event("%s %d %d", opNames[op], i, j);
    Outcome o;
    C* c = some ? s[i].h.p : nullptr;
    Model* m = some ? &s[i].m : nullptr;
    bool changing = false;
    int fill = (int)choose(256);
    switch (op) {
    case PUSHB: case PUSHF: {
      if (m->size() >= cap) break;
      long id = nextId++;
      changing = true;
      V x(id);
      o = attempt(p, [&] { if (op == PUSHB) c->push_back(x); else c->push_front(x); });
      if (!o.threw) { if (op == PUSHB) m->push_back(id); else m->push_front(id); }
      break;
    }
    case POPB:
      if (m->empty() && requires { typename C::BaseArray; }) break;
      o = attempt(p, [&] { c->pop_back(); });
      if (!m->empty()) m->pop_back();
      break;
    case POPF:
      if constexpr (requires(C& c) { c.pop_front(); }) { o = attempt(p, [&] { c->pop_front(); }); if (!m->empty()) m->pop_front(); }
      break;
    case CLEAR: o = attempt(p, [&] { c->clear(); }); m->clear(); break;
    case RESIZE: {
      std::size_t n = choose(cap + 1);
      o = attempt(p, [&] { c->resize(n); });
      m->resize(n);
      break;
    }
    case SET: {
      if (m->empty()) break;
      std::size_t n = choose(m->size());
      long id = nextId++;
      V x(id);
      int how = (int)choose(4);
      changing = true;
      o = attempt(p, [&] { if (how == 0) (*c)[n] = x; else if (how == 1) c->begin()[n] = x; else if (how == 2) { n = 0; c->front() = x; } else { n = m->size() - 1; c->back() = x; } });
      if (!o.threw) (*m)[n] = id;
      break;
    }
    case COPY: { const C& cc = *c; Model mm = *m; o = attempt(p, [&] { put(Holder<C>(fill, cc), mm); }); break; }
    case MOVE: { Model mm = *m; o = attempt(p, [&] { put(Holder<C>(fill, std::move(*c)), mm); }); if (!o.threw) { c->clear(); m->clear(); } break; }
    case ASSIGN: { const C& d = *s[j].h.p; changing = true; o = attempt(p, [&] { *c = d; }); if (!o.threw) *m = s[j].m; break; }
    case MOVEASSIGN: {
      if (i == j) break;
      o = attempt(p, [&] { *c = std::move(*s[j].h.p); });
      *m = s[j].m;
      s[j].h.p->clear(); s[j].m.clear();
      break;
    }
    case SELF: { C& d = *c; o = attempt(p, [&] { *c = d; }); changing = true; break; }
    case MAKE: o = attempt(p, [&] { put(Holder<C>(fill), Model()); }); break;
    case LIST: {
      long a = nextId++, b = nextId++;
      Model mm{a, b};
      if (cap < 2) { mm.pop_back(); o = attempt(p, [&] { put(Holder<C>(fill, std::initializer_list<V>{V(a)}), mm); }); }
      else if (cap == 2 || choose(2)) o = attempt(p, [&] { put(Holder<C>(fill, std::initializer_list<V>{V(a), V(b)}), mm); });
      else { long x = nextId++; mm.push_back(x); o = attempt(p, [&] { put(Holder<C>(fill, std::initializer_list<V>{V(a), V(b), V(x)}), mm); }); }
      break;
    }
    case DROP: s.erase(s.begin() + i); break;
    case EQUAL:
      if constexpr (requires(const C& a) { a == a; hash_value(a); }) {
        const Model &a = s[i].m, &b = s[j].m;
        bool known = true;
        for (auto& x : a) known &= bool(x);
        for (auto& x : b) known &= bool(x);
        if (!known) break;
        const C &x = *s[i].h.p, &y = *s[j].h.p;
        rec->comparisons++;
        if ((x == y) != (a == b)) violation("wrong-sequence", a == b ? "equal sequences compare unequal" : "different sequences compare equal");
        if ((x != y) == (a == b)) violation("wrong-sequence", "== and != contradict");
        C z(x);
        if (!(z == x) || hash_value(z) != hash_value(x)) violation("wrong-sequence", "a copy has another hash value");
      }
      break;
    }
    if (o.threw && changing) {          // its entries are unspecified now; it can be cleared and used on
      c->clear();
      m->clear();
    }
    auto& t = typical[op];
    t.allocs = std::max(t.allocs, p.allocs); t.callbacks = std::max(t.callbacks, p.callbacks);
    cover(mix(mix(mix(op, prev), p.fired), mix(cap, !s.empty() ? s[std::min<std::size_t>(i, s.size() - 1)].m.size() : 99)));
    prev = op;
    for (auto& x : s) check(*x.h.p, x.m, opNames[op]);
  }
}
template<class C> void run() { leakFree([] { sequences<C>(); }); }

// multi-indices: arrays of digits
template<std::size_t n> void indices() {
  using MI = DF::StaticMultiIndex<std::size_t, n>;
  std::vector<std::pair<MI, std::array<std::size_t, n>>> v;
  int steps = 4 + choose(30);
  for (int k = 0; k < steps; ++k) {
    int op = v.empty() ? 0 : (int)choose(5);
    std::size_t i = v.empty() ? 0 : choose(v.size()), j = v.empty() ? 0 : choose(v.size()), d = choose(n), x = choose(3) ? choose(3) : choose(1000);
    event("index %d %zu %zu", op, i, j);
    switch (op) {
    case 0: { MI a; std::array<std::size_t, n> b; for (std::size_t q = 0; q < n; ++q) a[q] = b[q] = choose(3); v.push_back({a, b}); break; }
    case 1: v[i].first[d] = x; v[i].second[d] = x; break;
    case 2: v[i].first = v[j].first; v[i].second = v[j].second; break;
    case 3: v.push_back(v[i]); break;
    case 4: if constexpr (n == 1) { std::size_t& r = v[i].first; r = x; v[i].second[0] = x; } break;
    }
    rec->comparisons++;
    if (MI::size() != n || MI::max_size() != n || std::tuple_size<MI>::value != n) violation("wrong-index", "a static multi-index has a wrong size");
    for (auto& [a, b] : v) {
      for (std::size_t q = 0; q < n; ++q) if (a[q] != b[q]) violation("wrong-index", fmt("digit %zu is %zu, expected %zu", q, a[q], b[q]));
      if constexpr (n == 1) { const MI& ca = a; const std::size_t& r = ca; if (r != b[0] || std::size_t(a) != b[0]) violation("wrong-index", "the cast to the digit is wrong"); }
      std::ostringstream so, se;
      so << a; for (auto y : b) se << y << "  ";
      if (so.str() != se.str()) violation("wrong-index", "output '" + so.str() + "', expected '" + se.str() + "'");
    }
    for (auto& [a, b] : v) for (auto& [c, e] : v) {
      if ((a == c) != (b == e)) violation("wrong-index", "equality is wrong");
      if ((a < c) != (b < e)) violation("wrong-index", "the order is wrong");
      if (b == e && (hash_value(a) != hash_value(c) || std::hash<MI>()(a) != std::hash<MI>()(c))) violation("wrong-index", "equal indices have different hash values");
    }
    cover(mix(mix(op, n), v.size()));
  }
}
template<class T, std::size_t b, std::size_t m> using OA = DF::OverflowArray<std::array<T, b>, m>;
#define SEQ(NAME, W, ...) RegisterEngine NAME("P91", #NAME, W, run<__VA_ARGS__>);
SEQ(deque1, 1, DF::ReservedDeque<long, 1>)
SEQ(deque2, 2, DF::ReservedDeque<long, 2>)
SEQ(deque5, 3, DF::ReservedDeque<long, 5>)
SEQ(deque3e, 3, DF::ReservedDeque<Elem, 3>)
SEQ(deque8e, 2, DF::ReservedDeque<Elem, 8>)
SEQ(overflow11, 1, OA<long, 1, 1>)
SEQ(overflow14, 2, OA<long, 1, 4>)
SEQ(overflow38, 3, OA<long, 3, 8>)
SEQ(overflow44, 2, OA<std::size_t, 4, 4>)
SEQ(overflow25e, 3, OA<Elem, 2, 5>)
SEQ(overflowIndex, 2, DF::OverflowArray<DF::StaticMultiIndex<std::size_t, 3>, 7>)
RegisterEngine i1("P91", "index1", 1, indices<1>), i2("P91", "index2", 1, indices<2>), i4("P91", "index4", 1, indices<4>);
} // namespace
} // namespace sim
