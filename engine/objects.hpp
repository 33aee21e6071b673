// One uniform view of every class of the library: how to make an object from
// numbers, how to perform one operation on it, and everything it answers, as
// exact text. Used to compare objects with other objects of the same history.
// Needs -lboost_serialization.
#pragma once
#include "archives.hpp"
#include <atomic>
#include <unistd.h>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/Approx.hpp>
#include <bwsl/Bravais.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/FileUtils.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>
#include <bwsl/LinSpace.hpp>
#include <bwsl/LogSpace.hpp>
#include <bwsl/MathUtils.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/Pairs.hpp>
#include <bwsl/RNGUtils.hpp>
#include <bwsl/RationalNum.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Colour, (Red)(Green)(Blue)(Ultramarine))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Shape, (Round)(Square)(Red_))

namespace obj {

using u64 = std::uint64_t;

/// One operation: what to do and two arguments
struct Op
{
  u64 k = 0, a = 0, b = 0;
};

inline std::ostream&
operator<<(std::ostream& o, Op const& p)
{
  return o << p.k << "(" << p.a << "," << p.b << ")";
}

inline Op
op(pbt::Src& s)
{
  Op o;
  o.k = s.urange(0, 11);
  o.a = s.urange(0, 999);
  o.b = s.urange(0, 999);
  return o;
}

/// Exact text of numbers
class Out
{
public:
  template<class T>
  Out& operator<<(T const& x)
  {
    put(x);
    return *this;
  }
  std::string str() const { return t_; }

private:
  void put(double d)
  {
    if (d != d) {
      t_ += "nan ";
      return;
    }
    char b[64];
    std::snprintf(b, sizeof b, "%a ", d);
    t_ += b;
  }
  void put(float d) { put(static_cast<double>(d)); }
  void put(bool b) { t_ += b ? "T " : "F "; }
  void put(char const* s) { t_ += s; t_ += ' '; }
  void put(std::string const& s) { t_ += s; t_ += ' '; }
  template<class T>
  auto put(T x) -> std::enable_if_t<std::is_integral<T>::value>
  {
    t_ += std::to_string(x);
    t_ += ' ';
  }
  template<class T>
  void put(std::vector<T> const& v)
  {
    t_ += "[ ";
    for (auto const& x : v) put(x);
    t_ += "] ";
  }
  template<class A, class B>
  void put(std::pair<A, B> const& p)
  {
    put(p.first);
    put(p.second);
  }
  std::string t_{};
};

inline double
value(u64 a, u64 b)
{
  return (static_cast<double>(a) - 400.0) / (1.0 + static_cast<double>(b % 37));
}

inline std::string
slurp(std::string const& file)
{
  std::ifstream in(file, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}

/// A scratch file name of its own (of constant length) for every object that needs one
inline std::string
fresh_file()
{
  static std::atomic<unsigned> n{ 0 };
  char b[40];
  std::snprintf(b, sizeof b, "/obj%08d_%08u", static_cast<int>(getpid()), n++);
  return pbt::scratch() + b;
}

/// A scratch file removed when no longer used
struct TempFile
{
  std::string name = fresh_file();
  ~TempFile() { std::remove(name.c_str()); }
};

inline std::vector<std::size_t>
extents(u64 a, u64 b, std::size_t dim)
{
  std::vector<std::size_t> e(dim);
  auto x = a * 1000 + b;
  for (auto& n : e) {
    n = 1 + x % (dim == 1 ? 9 : dim == 2 ? 5 : 3);
    x /= 7;
  }
  return e;
}

// --------------------------------------------------------------- traits ---
struct Grid
{
  using type = bwsl::HyperCubicGrid;
  static constexpr const char* name = "grid";
  static type make(Op const& o)
  {
    return type(extents(o.a, o.b, 1 + o.k % 4),
                o.k & 1 ? type::boundaries_t::Closed : type::boundaries_t::Open);
  }
  static std::string apply(type& g, Op const& o)
  {
    Out t;
    auto n = g.GetNumSites(), i = o.a % n, j = o.b % n;
    switch (o.k % 4) {
      case 0:
        t << g.GetCoordinates(i) << g.GetIndex(g.GetCoordinates(j));
        break;
      case 1:
        t << g.GetJump(i, j) << g.GetPairIndex(i, j);
        break;
      case 2:
        if (g.HasClosedBoundaries()) t << g.GetMappedSite(i, j) << g.GetUnMappedSite(i, j);
        break;
      default: {
        auto c = g.GetCoordinates(i);
        for (auto& x : c) x += static_cast<long>(o.b % 7) - 3;
        t << g.IsOnGrid(c);
        g.EnforceBoundaries(c);
        t << c << g.GetIndividualIndices(o.b % (n * n));
      }
    }
    return t.str();
  }
  static std::string look(type const& g)
  {
    Out t;
    t << g.GetDim() << g.GetSize() << g.GetNumSites() << g.HasOpenBoundaries() << g.HasClosedBoundaries()
      << (g.GetBoundaries() == type::boundaries_t::Open) << g.IndexIsValid(g.GetNumSites());
    for (std::size_t i = 0; i < std::min<std::size_t>(g.GetNumSites(), 12); ++i) t << g.GetCoordinates(i);
    auto h = g.GetGrid();
    t << h.GetSize() << h.GetNumSites() << h.HasOpenBoundaries();
    return t.str();
  }
};

struct BravaisObj
{
  using type = bwsl::Bravais;
  static constexpr const char* name = "Bravais lattice";
  static type make(Op const& o)
  {
    switch (o.k % 6) {
      case 0:
        return bwsl::ChainLattice;
      case 1:
        return bwsl::SquareLattice;
      case 2:
        return bwsl::CubicLattice;
      case 3:
        return bwsl::TriangularLattice;
      case 4: {
        auto a = 1.0 + static_cast<double>(o.a) / 100, b = 1.0 + static_cast<double>(o.b) / 200;
        return type(2, 4, { a, 0, 0, b }, { 1 / a, 0, 0, 1 / b }, { 1, 0, 0, 1 });
      }
      default: {
        auto a = 1.0 + static_cast<double>(o.a) / 100;
        return type(1, 4, { a }, { 1 / a }, { 1, static_cast<long>(2 + o.b % 3) });
      }
    }
  }
  static std::string apply(type& l, Op const& o)
  {
    Out t;
    auto d = l.GetDim();
    std::vector<long> p(d), q(d);
    for (std::size_t i = 0; i < d; ++i) {
      p[i] = static_cast<long>((o.a >> (2 * i)) % 9) - 4;
      q[i] = static_cast<long>((o.b >> (2 * i)) % 9) - 4;
    }
    switch (o.k % 4) {
      case 0:
        t << l.GetRealSpace(p) << l.GetReciprocalSpace(q);
        break;
      case 1:
        t << l.GetVector(p, q) << l.GetDistance(p, q) << l.GetDistanceVector(p, q);
        break;
      case 2:
        t << l.GetNeighbor(p, o.b % l.GetGamma());
        break;
      default:
        t << l.GetInverseVector(l.GetRealSpace(q));
    }
    return t.str();
  }
  static std::string look(type const& l)
  {
    Out t;
    t << l.GetDim() << l.GetGamma();
    for (std::size_t j = 0; j < l.GetDim(); ++j) {
      std::vector<long> e(l.GetDim());
      e[j] = 1;
      t << l.GetRealSpace(e) << l.GetReciprocalSpace(e);
      std::vector<double> x(l.GetDim());
      x[j] = 1;
      t << l.GetInverseVector(x);
    }
    for (std::size_t i = 0; i < l.GetGamma(); ++i) t << l.GetNeighbor(std::vector<long>(l.GetDim()), i);
    return t.str();
  }
};

struct LatticeObj
{
  using type = bwsl::Lattice;
  static constexpr const char* name = "lattice";
  static type make(Op const& o)
  {
    auto b = BravaisObj::make(Op{ o.k / 2, o.b, o.a });
    return type(b, extents(o.a, o.b, b.GetDim()),
                o.k & 1 ? type::boundaries_t::Closed : type::boundaries_t::Open);
  }
  static std::string apply(type& l, Op const& o)
  {
    Out t;
    auto n = l.GetNumSites(), i = o.a % n, j = o.b % n;
    switch (o.k % 10) {
      case 0:
        t << l.GetVector(i, j) << l.GetDistance(i, j);
        break;
      case 1:
        t << l.GetNeighbors(i) << l.AreNeighbors(i, j) << l.GetCoordination(j) << l.GetCoordination();
        break;
      case 2:
        t << l.GetPosition(i);
        if (l.HasClosedBoundaries()) t << l.GetMomentum(j);
        break;
      case 3: {
        std::vector<double> occ(n);
        for (std::size_t s = 0; s < n; ++s) occ[s] = static_cast<double>((o.a + s * o.b) % 5);
        auto sk = l.ComputeSk(occ, 1.5);
        t << sk;
        l.AccumulateSk(occ, sk, 0.5);
        t << sk;
        break;
      }
      case 4: {
        auto c = l.GetCoordinates(i);
        for (auto& x : c) x += static_cast<long>(o.b % 9) - 4;
        l.EnforceBoundaries(c);
        t << c << l.GetWinding(c) << l.GetJump(i, j);
        break;
      }
      case 5:
      case 6:
      case 7: {
        TempFile f;
        if (o.k % 10 == 5) l.SavePositions(f.name);
        if (o.k % 10 == 6) l.SaveDistances(f.name);
        if (o.k % 10 == 7) l.SaveMomenta(f.name);
        t << slurp(f.name);
        break;
      }
      case 8:
        t << l.GetPairIndex(i, j) << l.GetIndividualIndices(o.a % (n * n));
        if (l.HasClosedBoundaries()) t << l.GetMappedSite(i, j);
        break;
      default:
        if (n <= 6) {
          TempFile f;
          l.SavePairs(f.name);
          t << slurp(f.name);
        }
    }
    return t.str();
  }
  static std::string look(type const& l)
  {
    Out t;
    t << l.GetDim() << l.GetSize() << l.GetNumSites() << l.HasOpenBoundaries();
    auto n = std::min<std::size_t>(l.GetNumSites(), 9);
    for (std::size_t i = 0; i < n; ++i) {
      t << l.GetPosition(i) << l.GetNeighbors(i) << l.GetVector(0, i) << l.GetDistance(i, 0)
        << l.GetCoordinates(i);
      if (l.HasClosedBoundaries()) t << l.GetMomentum(i);
    }
    auto g = l.GetGrid();
    t << g.GetSize() << g.HasClosedBoundaries();
    return t.str();
  }
};

template<class T>
inline std::string
answers(T const& a)
{
  Out t;
  t << a.Count();
  t << a.Sum();
  if (a.Count()) t << a.Mean();
  return t.str();
}

struct Kahan
{
  using type = bwsl::accumulators::KahanAccumulator;
  static constexpr const char* name = "Kahan accumulator";
  static type make(Op const&) { return {}; }
  static std::string apply(type& a, Op const& o)
  {
    if (o.k == 11) a.Reset();
    else a.Add(o.k == 10 ? std::ldexp(value(o.a, o.b), 50) : value(o.a, o.b));
    return answers(a);
  }
  static std::string look(type const& a) { return answers(a) + arc::saved(a); }
};

struct Neumaier
{
  using type = bwsl::accumulators::NeumaierAccumulator;
  static constexpr const char* name = "Neumaier accumulator";
  static type make(Op const&) { return {}; }
  static std::string apply(type& a, Op const& o)
  {
    if (o.k == 11) a.Reset();
    else a.Add(o.k == 10 ? std::ldexp(value(o.a, o.b), 50) : value(o.a, o.b));
    return answers(a);
  }
  static std::string look(type const& a) { return answers(a) + arc::saved(a); }
};

struct Welford
{
  using type = bwsl::accumulators::KnuthWelfordAccumulator;
  static constexpr const char* name = "Welford accumulator";
  static type make(Op const&) { return {}; }
  static std::string apply(type& a, Op const& o)
  {
    if (o.k == 11) a.Reset();
    else a.Add(value(o.a, o.b));
    return answers(a);
  }
  static std::string look(type const& a)
  {
    Out t;
    t << answers(a) << a.Variance(true) << a.Variance(false) << a.ScaledVariance() << a.StandardDeviation(true)
      << a.StandardDeviation(false);
    if (a.Count()) t << a.Error(true) << a.Error(false);
    return t.str() + arc::saved(a);
  }
};

struct West
{
  using type = bwsl::accumulators::WestAccumulator;
  static constexpr const char* name = "West accumulator";
  static type make(Op const&) { return {}; }
  static std::string apply(type& a, Op const& o)
  {
    if (o.k == 11) a.Reset();
    else a.Add(value(o.a, 3), static_cast<double>(o.b % 50) / 7 - 0.5);
    return answers(a);
  }
  static std::string look(type const& a)
  {
    Out t;
    t << answers(a) << a.PopulationVariance() << a.SampleFrequencyVariance() << a.SampleReliabilityVariance();
    return t.str() + arc::saved(a);
  }
};

struct Integer
{
  using type = bwsl::NaiveInteger;
  static constexpr const char* name = "integer accumulator";
  static type make(Op const&) { return {}; }
  static std::string apply(type& a, Op const& o)
  {
    if (o.k == 11) a.Reset();
    else a.Add(static_cast<long>(o.a) - static_cast<long>(o.b));
    return answers(a);
  }
  static std::string look(type const& a)
  {
    Out t;
    t << answers(a) << a.Variance(true) << a.Variance(false) << a.ScaledVariance() << a.StandardDeviation(true);
    return t.str() + arc::saved(a);
  }
};

struct Hist
{
  using type = bwsl::HistAccumulator;
  static constexpr const char* name = "histogram";
  static type make(Op const& o) { return o.k % 4 == 0 ? type() : type(o.a % 9); }
  static std::string apply(type& h, Op const& o)
  {
    auto bin = h.GetNbins() ? o.a % h.GetNbins() : 0;
    switch (o.k) {
      case 11:
        h.Reset();
        break;
      case 10:
        h.Resize(o.a % 10);
        break;
      case 9:
        h.ForceAdd(o.a % 14);
        break;
      case 8:
      case 7:
        h.ForceAdd(o.a % 12, value(o.b, o.a));
        break;
      case 6:
        if (h.GetNbins()) h.Add(bin);
        break;
      default:
        if (h.GetNbins()) h.Add(bin, value(o.b, o.a));
    }
    Out t;
    t << h.GetCount() << h.GetNbins();
    return t.str();
  }
  static std::string look(type const& h)
  {
    Out t;
    t << h.GetCount() << h.GetNbins() << h.GetResults();
    for (std::size_t i = 0; i < h.GetNbins(); ++i) {
      t << h.GetCount(i) << h.GetResult(i);
      if (h.GetResult(i) != 0) t << h.GetResults(i);
    }
    return t.str() + arc::saved(h);
  }
};

struct Group
{
  struct type
  {
    // the file is named by the archive, so the name has to depend on nothing else
    bwsl::ObservableGroup<std::string> g;
    std::string file;
  };
  static constexpr const char* name = "observable group";
  static std::string key(u64 a) { return std::string(1, static_cast<char>('a' + a % 5)) + (a % 2 ? "x" : ""); }
  static type make(Op const& o)
  {
    auto f = fresh_file();
    if (o.k % 2) return { bwsl::ObservableGroup<std::string>(f, { key(o.a), key(o.b), "m" }), f };
    type t{ bwsl::ObservableGroup<std::string>(f), f };
    t.g.AddObservable("m");
    return t;
  }
  static std::string apply(type& g, Op const& o)
  {
    Out t;
    try {
      switch (o.k) {
        case 11:
        case 10: {
          g.g.PrintHeaders();
          g.g.PrintAndReset(o.a % 12);
          t << slurp(g.file);
          std::remove(g.file.c_str());
          break;
        }
        case 9:
        case 8:
          g.g.AddObservable(key(o.a));
          break;
        default:
          g.g.Measure(o.k < 4 ? "m" : key(o.a), value(o.b, o.a));
      }
    } catch (std::out_of_range const&) {
      t << "out of range";
    }
    return t.str();
  }
  static std::string look(type const& g)
  {
    // names have the same length, so only the name itself differs
    auto s = arc::saved(g.g);
    auto at = s.find(g.file);
    if (at != std::string::npos) s.replace(at, g.file.size(), "FILE");
    return s;
  }
};

struct Stats
{
  using type = bwsl::montecarlo::MoveStats;
  static constexpr const char* name = "move statistics";
  static type make(Op const& o)
  {
    return o.k % 3 == 0 ? type() : type("move" + std::to_string(o.a) + std::string(o.b % 40, 'x'));
  }
  static std::string apply(type& m, Op const& o)
  {
    using R = bwsl::montecarlo::MoveResult;
    auto p = static_cast<double>(o.a) / 1000;
    Out t;
    try {
      switch (o.k) {
        case 11:
          m.Reset();
          break;
        case 0:
        case 1:
        case 2:
          m.Propose();
          break;
        case 3:
        case 4:
          m.Accept(p);
          break;
        case 5:
          m.Reject(p);
          break;
        case 6:
          m.Impossible();
          break;
        default: {
          R r;
          if (o.b % 3 == 0) r = R::Accept(p);
          if (o.b % 3 == 1) r = R::Reject(p);
          R copy = r;
          t << copy.IsAccepted() << copy.IsRejected() << copy.IsImpossible() << copy.Probability();
          m.Add(copy);
        }
      }
    } catch (std::exception const& e) {
      t << e.what();
    }
    return t.str();
  }
  static std::string look(type const& m)
  {
    std::ostringstream o;
    auto state = arc::saved(m);
    o << m.GetName() << state;
    Out t;
    t << m.GetAcceptedRatio() << m.GetRejectedRatio() << m.GetImpossibleRatio() << m.GetAverageProbability();
    o << t.str() << m;
    return o.str();
  }
};

struct Rational
{
  using type = bwsl::RationalNum<long>;
  static constexpr const char* name = "rational";
  static type make(Op const& o)
  {
    return o.k == 0 ? type() : type(static_cast<long>(o.a) - 500, static_cast<long>(o.b % 40) + 1);
  }
  static std::string apply(type& r, Op const& o)
  {
    Out t;
    // keep the numbers small
    if (std::labs(r.GetNum()) > 1000000 || r.GetDen() > 1000000) r = make(o);
    auto x = type(static_cast<long>(o.a) - 500, static_cast<long>(o.b % 30) - 40);
    long i = static_cast<long>(o.b % 90) + 1;
    switch (o.k) {
      case 0:
        r = r + x;
        break;
      case 1:
        r = r - x;
        break;
      case 2:
        r = r * x;
        break;
      case 3:
        if (x.GetNum() != 0) r = r / x;
        break;
      case 4:
        r = r + i;
        break;
      case 5:
        r = i - r;
        break;
      case 6:
        r = r / i;
        break;
      case 7:
        t << (r < x) << (r == x) << (r <= i) << (i > r) << (r != i);
        break;
      case 8:
        t << bwsl::ToString(x);
        bwsl::FromString(bwsl::ToString(x), r);
        break;
      case 9:
        try {
          bwsl::FromString(o.b % 2 ? "7/3" : "seven", r);
        } catch (std::exception const& e) {
          t << e.what();
        }
        break;
      case 10: {
        std::istringstream in(" -" + std::to_string(o.a) + "//" + std::to_string(o.b));
        in >> r;
        t << in.fail();
        break;
      }
      default: {
        auto y = r;
        t << static_cast<double>(y) << static_cast<long>(y) << y.IsInt();
      }
    }
    return t.str();
  }
  static std::string look(type const& r)
  {
    std::ostringstream o;
    o << r << " " << r.GetNum() << " " << r.GetDen() << " " << r.IsInt() << bwsl::ToString(r);
    return o.str();
  }
};

template<class S>
struct Space
{
  using type = S;
  static constexpr const char* name = std::is_same<S, bwsl::LinSpace<double>>::value ? "linear space"
                                                                                     : "logarithmic space";
  static type make(Op const& o)
  {
    auto first = 0.5 + static_cast<double>(o.a) / 100;
    return S(first, first + 1 + static_cast<double>(o.b), 1 + o.k);
  }
  static std::string apply(type& s, Op const& o)
  {
    Out t;
    switch (o.k % 5) {
      case 0:
        t << *++s;
        break;
      case 1: {
        auto old = s++;
        t << *old << *s;
        break;
      }
      case 2:
        t << s();
        break;
      case 3:
        t << s.Collect(o.a % 6);
        break;
      default:
        t << *s.begin() << *s.end() << (s == s.begin()) << (s != s.end());
    }
    return t.str();
  }
  static std::string look(type& s)
  {
    Out t;
    t << *s << *s.begin() << *s.end() << (s == s.begin()) << (s == s.end()) << s.Collect(4);
    return t.str();
  }
};

struct ApproxObj
{
  using type = bwsl::Approx;
  static constexpr const char* name = "approximate value";
  static type make(Op const& o) { return type(value(o.a, o.b)); }
  static std::string apply(type& a, Op const& o)
  {
    Out t;
    auto x = value(o.a, o.b);
    switch (o.k % 4) {
      case 0:
        a.SetAbs(x / 10);
        break;
      case 1:
        a.SetRel(x / 1000);
        break;
      default:
        t << (a == x) << (x == a) << (a != x) << (a < x) << (x < a) << (a <= x) << (x >= a) << (a > x);
    }
    return t.str();
  }
  static std::string look(type const& a)
  {
    Out t;
    for (int i = -30; i <= 30; ++i) {
      auto x = i * 7.3;
      t << (a == x) << (a < x) << (x <= a);
    }
    return t.str();
  }
};

/// The free functions, with the engine some of them need
struct Functions
{
  struct type
  {
    std::mt19937_64 rng;
  };
  static constexpr const char* name = "functions";
  static type make(Op const& o) { return { std::mt19937_64(o.a * 1000 + o.b) }; }
  static std::string apply(type& f, Op const& o)
  {
    Out t;
    std::vector<double> w(2 + o.a % 6);
    for (std::size_t i = 0; i < w.size(); ++i) w[i] = static_cast<double>((o.b + i * (o.a + 3)) % 11) + 0.25;
    switch (o.k) {
      case 0:
        t << bwsl::choose_between(w, f.rng);
        break;
      case 1:
        std::partial_sum(w.begin(), w.end(), w.begin());
        t << bwsl::choose_between_psums(w, f.rng);
        break;
      case 2:
        t << bwsl::choose_with_probability(static_cast<double>(o.a) / 1000, f.rng);
        break;
      case 3: {
        std::vector<int> v(o.a % 3 ? 100 : 20500);
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = static_cast<int>(i / 3 * 2);
        t << bwsl::upper_bound(v.begin(), v.end(), static_cast<int>(o.b * 9)) - v.begin();
        break;
      }
      case 4:
        t << bwsl::cbinomial<long>(static_cast<long>(o.a % 30), static_cast<long>(o.b % 30))
          << bwsl::get_gcd<long>(static_cast<long>(o.a), static_cast<long>(o.b));
        break;
      case 5: {
        auto v = w;
        bwsl::sum_into(v, w);
        bwsl::subtract_into(w, v);
        bwsl::invert(w);
        t << v << w << bwsl::get_inverted(v) << bwsl::accumulate_sum(v) << bwsl::accumulate_product(w)
          << bwsl::l2norm(v) << bwsl::max(w) << bwsl::min(v);
        break;
      }
      case 6: {
        auto s = extents(o.a, o.b, 3);
        auto c = bwsl::index_to_array<std::vector<long>>(o.b % bwsl::accumulate_product(s), s);
        t << c << bwsl::array_to_index(c, s);
        break;
      }
      case 7:
        t << bwsl::lerp(1.0, static_cast<double>(o.a), static_cast<double>(o.b) / 999)
          << bwsl::heaviside(value(o.a, o.b)) << bwsl::heaviside2(value(o.a, o.b)) << bwsl::sgn(value(o.a, o.b))
          << bwsl::absdiff(o.a, o.b) << bwsl::signeddiff<u64, long>(o.a, o.b);
        break;
      case 8: {
        Colour col = Blue;
        Shape sh = Square;
        try {
          FromString(col, o.a % 2 ? "Ultramarine" : "Red" + std::string(o.b % 30, '_'));
          t << static_cast<int>(col) << ToString(col);
          FromString(sh, ToString(static_cast<Colour>(o.b % 4)));
        } catch (std::exception const& e) {
          t << e.what();
        }
        t << ToString(static_cast<Shape>(o.a % 4)) << static_cast<int>(sh);
        break;
      }
      case 9: {
        TempFile fp, fq;
        auto const &p = fp.name, &q = fq.name;
        std::ofstream(p, std::ios::binary) << std::string(o.a, 'x');
        std::ofstream(q, std::ios::binary) << std::string(o.b % 2 ? o.a : o.b, 'x');
        t << bwsl::compare_files(p, q) << bwsl::compare_files(q, p) << bwsl::compare_files(p, p + "none");
        break;
      }
      case 10: {
        auto text = arc::saved(f.rng);
        std::mt19937_64 other;
        arc::restore(other, text);
        t << other() << f.rng();
        break;
      }
      default: {
        std::stringstream io;
        bwsl::accumulators::KnuthWelfordAccumulator a, b;
        for (auto x : w) a.Add(x);
        {
          boost::archive::binary_oarchive ar(io);
          auto const& ca = a;
          ar << ca;
        }
        {
          boost::archive::binary_iarchive ar(io);
          ar >> b;
        }
        t << b.Count() << b.Mean() << b.Variance(true);
      }
    }
    return t.str();
  }
  static std::string look(type const& f)
  {
    auto copy = f.rng;
    return std::to_string(copy());
  }
};

} // namespace obj
