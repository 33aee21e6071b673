// check: cpu=60
// check: libs=-lboost_serialization
#include "objects.hpp"
#include <memory>
#include <optional>

const char* const pbt::rule =
  "Pools of up to four objects of one class (every class of the library that holds state), each with the "
  "list of the operations that made it what it is. Random histories of operations on one object, copy and "
  "move construction, copy and move assignment, self assignment, swaps, passing by value, and growth of a "
  "vector of objects. Every object always answers, to the last bit, what a fresh object that performed the "
  "same list of operations answers, and every operation has the same outcome. Non-trivial: at least one "
  "copy or move between objects of different history followed by an operation on one of the two.";

using obj::Op;

namespace {

template<class K>
struct Slot
{
  std::optional<typename K::type> o{};
  std::vector<Op> log{}; // the first one made it
};

template<class K>
typename K::type
rebuild(std::vector<Op> const& log, std::string* last = nullptr)
{
  auto r = K::make(log[0]);
  for (std::size_t i = 1; i < log.size(); ++i) {
    auto t = K::apply(r, log[i]);
    if (last) *last = t;
  }
  return r;
}

std::string
where(std::string const& a, std::string const& b)
{
  std::size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
  auto from = i < 30 ? 0 : i - 30;
  return "\"..." + a.substr(from, 90) + "\" instead of \"..." + b.substr(from, 90) + "\"";
}

template<class K>
void
pool(pbt::Ctx& c)
{
  using T = typename K::type;
  constexpr bool assignable = std::is_copy_assignable<T>::value;
  std::vector<Slot<K>> s(2 + c.s.index(3));
  auto note = [&](std::string const& what) { NOTE(what); };
  auto check = [&](Slot<K>& x, std::string const& who) {
    if (!x.o) return;
    auto fresh = rebuild<K>(x.log);
    auto got = K::look(*x.o), want = K::look(fresh);
    CHECK(got == want, who << " of a " << K::name << " answers " << where(got, want));
  };
  auto fresh = [&](Slot<K>& x) {
    auto o = obj::op(c.s);
    NOTE("make " << (&x - s.data()) << " from " << o);
    x.o.reset();
    x.o.emplace(K::make(o));
    x.log = { o };
  };
  for (auto& x : s) fresh(x);
  std::size_t n = 0;
  bool related = false;
  while (c.s.more(n, 14, 60)) {
    auto i = c.s.index(s.size()), j = c.s.index(s.size());
    auto &x = s[i], &y = s[j];
    auto differ = x.o && y.o && i != j && x.log.size() + y.log.size() > 2;
    switch (c.s.index(12)) {
      case 0:
      case 1:
      case 2:
      case 3: {
        if (!x.o) break;
        auto o = obj::op(c.s);
        NOTE("operation " << o << " on " << i);
        auto got = K::apply(*x.o, o);
        x.log.push_back(o);
        std::string want;
        rebuild<K>(x.log, &want);
        CHECK(got == want, "operation " << o << " on a " << K::name << " yields " << where(got, want));
        c.nt(related);
        break;
      }
      case 4: { // copy construction
        if (i == j || !x.o) break;
        note("copy " + std::to_string(i) + " to a new " + std::to_string(j));
        y.o.reset();
        y.o.emplace(*static_cast<T const*>(&*x.o));
        y.log = x.log;
        related |= differ;
        break;
      }
      case 5: { // move construction
        if (i == j || !x.o) break;
        note("move " + std::to_string(i) + " to a new " + std::to_string(j));
        y.o.reset();
        y.o.emplace(std::move(*x.o));
        y.log = x.log;
        related |= differ;
        if (c.s.coin()) x.o.reset(); // what is left behind can be destroyed ...
        if (x.o) {
          if constexpr (assignable) { // ... or assigned
            *x.o = *y.o;
            x.log = y.log;
          } else {
            x.o.reset();
          }
        }
        break;
      }
      case 6: { // copy assignment, also to itself
        if (!x.o || !y.o) break;
        if constexpr (assignable) {
          note("assign " + std::to_string(i) + " to " + std::to_string(j));
          auto& r = *y.o = *static_cast<T const*>(&*x.o);
          CHECK(&r == &*y.o, "assignment to a " << K::name << " does not return it");
          y.log = x.log;
          related |= differ;
        }
        break;
      }
      case 7: { // move assignment
        if (!x.o || !y.o || i == j) break;
        if constexpr (assignable) {
          note("move assign " + std::to_string(i) + " to " + std::to_string(j));
          *y.o = std::move(*x.o);
          y.log = x.log;
          x.o.reset();
          related |= differ;
        }
        break;
      }
      case 8: {
        if (!x.o || !y.o || i == j) break;
        if constexpr (assignable) {
          note("swap " + std::to_string(i) + " and " + std::to_string(j));
          std::swap(*x.o, *y.o);
          std::swap(x.log, y.log);
          related |= differ;
        }
        break;
      }
      case 9: { // by value: the original is untouched
        if (!x.o) break;
        auto o = obj::op(c.s);
        NOTE("pass " << i << " by value and do " << o);
        auto log = x.log;
        log.push_back(o);
        auto used = [&](T v) { return K::apply(v, o); };
        std::string want;
        rebuild<K>(log, &want);
        auto got = used(*x.o);
        CHECK(got == want, "operation " << o << " on a copy of a " << K::name << " yields " << where(got, want));
        c.nt();
        break;
      }
      case 10: { // a growing vector moves or copies its elements
        std::vector<T> v;
        std::vector<std::vector<Op>> logs;
        auto copies = 1 + c.s.index(6);
        note("grow a vector to " + std::to_string(copies * s.size()) + " objects");
        for (std::size_t r = 0; r < copies; ++r) {
          for (auto& z : s) {
            if (!z.o) continue;
            v.push_back(*z.o);
            logs.push_back(z.log);
          }
        }
        for (std::size_t k = 0; k < v.size(); ++k) {
          auto f = rebuild<K>(logs[k]);
          auto got = K::look(v[k]), want = K::look(f);
          CHECK(got == want, "element " << k << " of a vector of " << K::name << " answers " << where(got, want));
        }
        if (v.empty()) break;
        // what happens to one element does not show in the others
        auto at = c.s.index(v.size());
        auto o = obj::op(c.s);
        K::apply(v[at], o);
        logs[at].push_back(o);
        for (std::size_t k = 0; k < v.size(); ++k) {
          auto f = rebuild<K>(logs[k]);
          CHECK(K::look(v[k]) == K::look(f), "element " << k << " changed by an operation on element " << at);
        }
        c.nt(v.size() > 2);
        break;
      }
      default:
        fresh(x);
    }
    check(x, "object " + std::to_string(i));
    check(y, "object " + std::to_string(j));
    if constexpr (!std::is_same<K, obj::LatticeObj>::value)
      for (std::size_t k = 0; k < s.size(); ++k) check(s[k], "untouched object " + std::to_string(k));
  }
  for (std::size_t k = 0; k < s.size(); ++k) check(s[k], "finally object " + std::to_string(k));
  c.cls(K::name);
}

} // namespace

PBT_TEST(statistics, 6000, 300000, 0.3)
{
  switch (c.s.index(5)) {
    case 0:
      return pool<obj::Kahan>(c);
    case 1:
      return pool<obj::Neumaier>(c);
    case 2:
      return pool<obj::Welford>(c);
    case 3:
      return pool<obj::West>(c);
    default:
      return pool<obj::Integer>(c);
  }
}

PBT_TEST(collections, 5000, 250000, 0.3)
{
  switch (c.s.index(3)) {
    case 0:
      return pool<obj::Hist>(c);
    case 1:
      return pool<obj::Group>(c);
    default:
      return pool<obj::Stats>(c);
  }
}

PBT_TEST(numbers, 6000, 300000, 0.3)
{
  switch (c.s.index(4)) {
    case 0:
      return pool<obj::Rational>(c);
    case 1:
      return pool<obj::Space<bwsl::LinSpace<double>>>(c);
    case 2:
      return pool<obj::Space<bwsl::LogSpace<double>>>(c);
    default:
      return pool<obj::ApproxObj>(c);
  }
}

PBT_TEST(lattices, 1500, 60000, 0.3)
{
  switch (c.s.index(3)) {
    case 0:
      return pool<obj::Grid>(c);
    case 1:
      return pool<obj::BravaisObj>(c);
    default:
      return pool<obj::LatticeObj>(c);
  }
}

/// A lattice is a grid: slicing it yields the grid, deleting it through the base works
PBT_TEST(bases, 3000, 100000, 0.3)
{
  auto o = obj::op(c.s);
  auto l = obj::LatticeObj::make(o);
  NOTE("lattice from " << o);
  bwsl::HyperCubicGrid g(l.GetSize(), l.GetBoundaries());
  bwsl::HyperCubicGrid sliced = l;
  bwsl::HyperCubicGrid const& view = l;
  auto want = obj::Grid::look(g);
  CHECK(obj::Grid::look(sliced) == want, "the grid copied from a lattice answers "
                                           << where(obj::Grid::look(sliced), want));
  CHECK(obj::Grid::look(view) == want, "the lattice seen as a grid answers "
                                         << where(obj::Grid::look(view), want));
  CHECK(obj::Grid::look(l.GetGrid()) == want, "GetGrid answers " << where(obj::Grid::look(l.GetGrid()), want));
  std::unique_ptr<bwsl::HyperCubicGrid> p = std::make_unique<bwsl::Lattice>(l);
  auto o2 = obj::op(c.s);
  auto got = obj::Grid::apply(*p, o2), expect = obj::Grid::apply(g, o2);
  CHECK(got == expect, "through the base " << o2 << " yields " << where(got, expect));
  p.reset();
  CHECK(obj::Grid::look(view) == want, "deleting a copy changed the lattice");
  c.nt(l.GetNumSites() > 1);
}
