// check: libs=-lboost_serialization
#include "text.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/HistAccumulator.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <unistd.h>

using namespace bwsl::accumulators;
using namespace bwsl::montecarlo;

const char* const pbt::rule =
  "Random histories of every serializable statistics type with a save at a random point (text or "
  "binary archive, between other archived items), restored into a fresh object or one with a "
  "history of its own, then the same continuation on both, comparing every observable answer bit by "
  "bit after every step; up to three save/restore generations; several saves of one evolving object in one archive; also histograms of up to 2^17 bins and groups of up to 4096 "
  "observables. Non-trivial: something was recorded "
  "before the save and the continuation is not empty.";

using Digest = std::vector<std::string>;

static std::string
bits(double d)
{
  if (std::isnan(d)) return "nan";
  char b[64];
  std::snprintf(b, sizeof b, "%a", d);
  return b;
}

template<class T>
static void
transfer(pbt::Ctx& c, T const& from, T& to)
{
  std::stringstream s;
  int before = 41, after = 42;
  std::string mark = "mark";
  bool text = c.s.coin();
  NOTE((text ? "text" : "binary") << " archive");
  auto save = [&](auto& ar) {
    ar << before;
    ar << from;
    ar << mark;
    ar << after;
  };
  int b2 = 0, a2 = 0;
  std::string m2;
  auto load = [&](auto& ar) {
    ar >> b2;
    ar >> to;
    ar >> m2;
    ar >> a2;
  };
  if (text) {
    {
      boost::archive::text_oarchive ar(s);
      save(ar);
    }
    boost::archive::text_iarchive ar(s);
    load(ar);
  } else {
    {
      boost::archive::binary_oarchive ar(s);
      save(ar);
    }
    boost::archive::binary_iarchive ar(s);
    load(ar);
  }
  CHECK(b2 == 41 && a2 == 42 && m2 == "mark",
        "the items around the object come back as " << b2 << " " << m2 << " " << a2);
}

/// Drives one type. Traits: make(), apply(obj, op), digest(obj), op generator.
template<class Tr>
static void
drive(pbt::Ctx& c, Tr tr)
{
  auto a = tr.make(0);
  std::size_t n = 0, recorded = 0, continued = 0;
  using T = decltype(a);
  std::vector<T> copies; // restored objects that must agree with the original
  int generations = 0;
  auto same = [&](const char* when) {
    auto d = tr.digest(a);
    for (std::size_t k = 0; k < copies.size(); ++k) {
      auto e = tr.digest(copies[k]);
      CHECK(d.size() == e.size(), when << ": number of answers " << d.size() << " and " << e.size());
      for (std::size_t i = 0; i < d.size(); ++i) {
        CHECK(d[i] == e[i], when << ": answer " << i << " is " << d[i] << " in the original and "
                                 << e[i] << " in the restored object (generation " << k + 1 << ")");
      }
    }
  };
  while (c.s.more(n, 14, 60)) {
    if (generations < 3 && c.s.coin(1, 6)) {
      auto used = c.s.coin();
      NOTE("save and restore into a " << (used ? "used" : "fresh") << " object");
      auto b = tr.make(1);
      if (used) {
        std::size_t k = 0;
        while (c.s.more(k, 4, 20)) {
          auto op = tr.op(c);
          tr.apply(b, op);
        }
      }
      auto d = tr.digest(a);
      // from the original or from the last restored object
      auto const& from = !copies.empty() && c.s.coin() ? copies.back() : a;
      T const& src = from;
      if (generations == 0) recorded = n;
      transfer(c, src, b);
      CHECK(tr.digest(a) == d, "saving disturbed the original");
      copies.push_back(b);
      ++generations;
      same("right after restoring");
      continue;
    }
    auto op = tr.op(c);
    tr.apply(a, op);
    for (auto& b : copies) tr.apply(b, op);
    if (generations) ++continued;
    same("after a continuation");
  }
  c.nt(generations && recorded > 1 && continued > 0);
  c.cls(generations > 1, "more than one generation");
  c.cls(tr.name());
}

/// One archive that receives the state of an evolving object again and again,
/// alone or in a vector; every state has to come back as it was when saved.
template<class Out, class In, class Tr>
static void
journal(pbt::Ctx& c, Tr tr)
{
  using T = decltype(tr.make(0));
  std::stringstream s;
  std::vector<std::vector<std::string>> states;
  std::vector<int> many;
  {
    Out ar(s);
    auto a = tr.make(0);
    T const& view = a;
    std::size_t n = 0;
    while (c.s.more(n, 8, 40)) {
      if (c.s.coin(1, 3)) {
        // elements of a restored vector of move statistics have no name
        many.push_back(std::is_same<T, MoveStats>::value ? 0 : static_cast<int>(c.s.index(4)));
        if (many.back() > 0) {
          NOTE("save a vector of " << many.back());
          std::vector<T> const v(static_cast<std::size_t>(many.back()), a);
          ar << v;
        } else {
          NOTE("save");
          ar << view;
        }
        states.push_back(tr.digest(a));
      } else {
        auto op = tr.op(c);
        tr.apply(a, op);
      }
    }
  }
  std::size_t different = 0;
  for (std::size_t k = 1; k < states.size(); ++k) different += states[k] != states[k - 1];
  c.nt(different > 1);
  In ar(s);
  auto reused = tr.make(1);
  bool reuse = c.s.coin();
  for (std::size_t k = 0; k < states.size(); ++k) {
    if (many[k] > 0) {
      std::vector<T> v;
      ar >> v;
      CHECK(v.size() == static_cast<std::size_t>(many[k]), "a vector of " << v.size());
      for (auto const& x : v)
        CHECK(tr.digest(x) == states[k], "state " << k << " of the journal comes back as another one in a vector");
      continue;
    }
    auto fresh = tr.make(1);
    auto& to = reuse ? reused : fresh;
    ar >> to;
    auto d = tr.digest(to);
    for (std::size_t i = 0; i < d.size(); ++i)
      CHECK(d[i] == states[k][i], "state " << k << " of the journal: answer " << i << " is " << d[i] << " instead of "
                                           << states[k][i]);
  }
}

template<class Tr>
static void
journals(pbt::Ctx& c, Tr tr)
{
  if (c.s.coin()) {
    journal<boost::archive::text_oarchive, boost::archive::text_iarchive>(c, tr);
  } else {
    journal<boost::archive::binary_oarchive, boost::archive::binary_iarchive>(c, tr);
  }
}

struct Op
{
  int kind;
  double x, w;
  std::size_t i;
};

static Op
any_op(pbt::Ctx& c)
{
  Op o;
  o.kind = static_cast<int>(c.s.index(12));
  o.x = c.s.coin() ? c.s.finite(300) : c.s.real(-5, 5);
  o.w = c.s.real(-0.5, 4);
  o.i = c.s.index(6);
  NOTE("op " << o.kind << " x=" << o.x << " w=" << o.w << " i=" << o.i);
  return o;
}

template<class A>
struct SumTraits
{
  const char* name() const { return "compensated sum"; }
  A make(int) const { return A(); }
  Op op(pbt::Ctx& c) const { return any_op(c); }
  void apply(A& a, Op const& o) const
  {
    if (o.kind == 0) {
      a.Reset();
    } else {
      a.Add(o.x);
    }
  }
  Digest digest(A const& a) const
  {
    return { bits(a.Sum()), std::to_string(a.Count()), bits(a.Mean()) };
  }
};

struct WelfordTraits : SumTraits<KnuthWelfordAccumulator>
{
  using A = KnuthWelfordAccumulator;
  const char* name() const { return "Welford"; }
  Digest digest(A const& a) const
  {
    return { bits(a.Sum()),          bits(a.Mean()),
             bits(a.Variance(true)), bits(a.Variance(false)),
             bits(a.ScaledVariance()), bits(a.StandardDeviation(true)),
             bits(a.StandardDeviation(false)), bits(a.Error(true)),
             bits(a.Error(false)),   std::to_string(a.Count()) };
  }
};

struct WestTraits
{
  using A = WestAccumulator;
  const char* name() const { return "West"; }
  A make(int) const { return A(); }
  Op op(pbt::Ctx& c) const { return any_op(c); }
  void apply(A& a, Op const& o) const
  {
    if (o.kind == 0) {
      a.Reset();
    } else {
      a.Add(o.x, o.w);
    }
  }
  Digest digest(A const& a) const
  {
    return { bits(a.Sum()),
             bits(a.Mean()),
             bits(a.PopulationVariance()),
             bits(a.SampleFrequencyVariance()),
             bits(a.SampleReliabilityVariance()),
             std::to_string(a.Count()) };
  }
};

struct IntegerTraits
{
  using A = bwsl::NaiveInteger;
  const char* name() const { return "NaiveInteger"; }
  A make(int) const { return A(); }
  Op op(pbt::Ctx& c) const { return any_op(c); }
  void apply(A& a, Op const& o) const
  {
    if (o.kind == 0) {
      a.Reset();
    } else {
      // as large as the squares stay representable, judged by the answers
      auto x = std::fmod(o.x, 1000) * (o.i < 2 ? 1e6 : o.i == 2 ? 1e3 : 1);
      auto n = static_cast<double>(a.Count()), s = static_cast<double>(a.Sum());
      auto squares = n < 1 ? 0.0 : n < 2 ? s * s : a.ScaledVariance() + s * s / n;
      if ((n + 1) * (squares + x * x) < 4e18) a.Add(static_cast<long>(x));
    }
  }
  Digest digest(A const& a) const
  {
    return { std::to_string(a.Sum()), std::to_string(a.Count()), a.Count() ? bits(a.Mean()) : "-",
             bits(a.Variance(true)),  bits(a.Variance(false)),   bits(a.ScaledVariance()),
             bits(a.StandardDeviation(true)), bits(a.StandardDeviation(false)) };
  }
};

struct HistTraits
{
  using A = bwsl::HistAccumulator;
  const char* name() const { return "histogram"; }
  A make(int k) const { return A(static_cast<std::size_t>(k ? 3 : 4)); }
  Op op(pbt::Ctx& c) const { return any_op(c); }
  void apply(A& a, Op const& o) const
  {
    switch (o.kind) {
      case 0:
        a.Reset();
        break;
      case 1:
        a.Resize(o.i);
        break;
      case 2:
      case 3:
        a.ForceAdd(o.i + 2, o.x);
        break;
      case 4:
        a.ForceAdd(o.i);
        break;
      case 5:
        if (o.i < a.GetNbins()) a.Add(o.i);
        break;
      default:
        if (o.i < a.GetNbins()) a.Add(o.i, o.x);
    }
  }
  Digest digest(A const& a) const
  {
    Digest d{ std::to_string(a.GetNbins()), std::to_string(a.GetCount()) };
    auto r = a.GetResults();
    d.push_back(std::to_string(r.size()));
    for (std::size_t i = 0; i < a.GetNbins(); ++i) {
      d.push_back(std::to_string(a.GetCount(i)));
      d.push_back(bits(a.GetResult(i)));
      d.push_back(bits(r[i]));
    }
    return d;
  }
};

struct MoveTraits
{
  using A = MoveStats;
  const char* name() const { return "move statistics"; }
  A make(int) const { return A("walk"); }
  Op op(pbt::Ctx& c) const
  {
    auto o = any_op(c);
    o.x = std::fmod(std::fabs(o.x), 1.0);
    return o;
  }
  void apply(A& a, Op const& o) const
  {
    try {
      switch (o.kind) {
        case 0:
          a.Reset();
          break;
        case 1:
        case 2:
        case 3:
          a.Propose();
          break;
        case 4:
        case 5:
          a.Accept(o.x);
          break;
        case 6:
        case 7:
          a.Reject(o.x);
          break;
        case 8:
          a.Impossible();
          break;
        case 9:
          a.Add(MoveResult::Accept(o.x));
          break;
        case 10:
          a.Add(MoveResult::Reject(o.x));
          break;
        default:
          a.Add(MoveResult::Impossible());
      }
    } catch (bwsl::montecarlo::exception::MoveInvalidSequence const&) {
    }
  }
  Digest digest(A const& a) const
  {
    // whether a proposal is pending is visible by proposing on a copy
    auto copy = a;
    std::string pending = "no";
    try {
      copy.Propose();
    } catch (bwsl::montecarlo::exception::MoveInvalidSequence const&) {
      pending = "yes";
    }
    std::ostringstream o;
    o << a;
    return { bits(a.GetAcceptedRatio()), bits(a.GetRejectedRatio()), bits(a.GetImpossibleRatio()),
             bits(a.GetAverageProbability()), bits(copy.GetRejectedRatio()), pending, o.str() };
  }
};

PBT_TEST(kahan, 6000, 300000, 0.3)
{
  drive(c, SumTraits<KahanAccumulator>{});
}
PBT_TEST(neumaier, 6000, 300000, 0.3)
{
  drive(c, SumTraits<NeumaierAccumulator>{});
}
PBT_TEST(welford, 6000, 300000, 0.3)
{
  drive(c, WelfordTraits{});
}
PBT_TEST(west, 6000, 300000, 0.3)
{
  drive(c, WestTraits{});
}
PBT_TEST(naive_integer, 6000, 300000, 0.3)
{
  drive(c, IntegerTraits{});
}
PBT_TEST(histogram, 8000, 400000, 0.3)
{
  drive(c, HistTraits{});
}
PBT_TEST(move_stats, 8000, 400000, 0.3)
{
  drive(c, MoveTraits{});
}

PBT_TEST(several_saves_in_one_archive, 6000, 300000, 0.2)
{
  switch (c.s.index(7)) {
    case 0:
      return journals(c, SumTraits<KahanAccumulator>{});
    case 1:
      return journals(c, SumTraits<NeumaierAccumulator>{});
    case 2:
      return journals(c, WelfordTraits{});
    case 3:
      return journals(c, WestTraits{});
    case 4:
      return journals(c, IntegerTraits{});
    case 5:
      return journals(c, HistTraits{});
    default:
      return journals(c, MoveTraits{});
  }
}

template<class Key>
static void
groups(pbt::Ctx& c, std::vector<Key> const& keys)
{
  using G = bwsl::ObservableGroup<Key>;
  auto file = pbt::scratch() + "/group_" + std::to_string(getpid());
  auto other = file + "_other";
  ::unlink(file.c_str());
  ::unlink(other.c_str());
  G a(file, { keys[0], keys[1] });
  G b;
  bool have = false;
  std::size_t n = 0, measured = 0, continued = 0;
  // what printing appends, header included
  auto print = [&](G& g, bool header) {
    std::ofstream(file, std::ios::trunc) << "kept\n";
    if (header) g.PrintHeaders();
    g.PrintAndReset(17);
    return txt::slurp(file);
  };
  auto state = [&](G const& g) {
    auto copy = g;
    return print(copy, true) ;
  };
  auto same = [&](const char* when) {
    if (!have) return;
    auto x = state(a), y = state(b);
    CHECK(x == y, when << ": the original prints\n" << x << "the restored group prints\n" << y);
  };
  while (c.s.more(n, 14, 60)) {
    switch (c.s.index(6)) {
      case 0: {
        auto used = c.s.coin();
        NOTE("save and restore into a " << (used ? "used" : "fresh") << " group");
        G t = used ? G(other, { keys[2], keys[1], keys[4] }) : G();
        if (used) t.Measure(keys[1], 17.5);
        auto before = state(a);
        transfer(c, static_cast<G const&>(have && c.s.coin() ? b : a), t);
        CHECK(state(a) == before, "saving disturbed the original");
        b = t;
        have = true;
        same("right after restoring");
        break;
      }
      case 1: {
        auto k = keys[c.s.index(keys.size())];
        NOTE("add observable " << k);
        a.AddObservable(k);
        if (have) b.AddObservable(k);
        break;
      }
      case 2: {
        auto h = c.s.coin();
        NOTE("print");
        auto x = print(a, h);
        if (have) {
          auto y = print(b, h);
          CHECK(x == y, "the original prints\n" << x << "the restored group prints\n" << y);
        }
        break;
      }
      default: {
        auto k = keys[c.s.index(keys.size())];
        auto x = c.s.coin() ? c.s.finite(300) : c.s.real(-5, 5);
        NOTE("measure " << k << " " << x);
        bool ra = false, rb = false;
        try {
          a.Measure(k, x);
          ++measured;
        } catch (std::out_of_range const&) {
          ra = true;
        }
        if (have) {
          try {
            b.Measure(k, x);
          } catch (std::out_of_range const&) {
            rb = true;
          }
          CHECK(ra == rb, "the restored group " << (rb ? "lacks" : "has gained") << " observable " << k);
          ++continued;
        }
      }
    }
    same("after a continuation");
  }
  ::unlink(file.c_str());
  ::unlink(other.c_str());
  c.nt(have && measured && continued);
}

PBT_TEST(groups_by_name, 1200, 60000, 0.3)
{
  groups<std::string>(c, { "energy", "density", "a b", "z", "winding" });
}
PBT_TEST(groups_by_number, 1200, 60000, 0.3)
{
  groups<int>(c, { 3, -1, 10, 7, 2000 });
}

PBT_TEST(wide_histogram, 60, 2000, 0.1)
{
  auto n = static_cast<std::size_t>(std::exp2(c.s.real(4, 17)));
  auto bulk = c.s.bulk();
  bwsl::HistAccumulator a(c.s.coin() ? n : 0);
  NOTE("about " << n << " bins, " << a.GetNbins() << " at first");
  auto record = [&](std::vector<bwsl::HistAccumulator*> const& hs) {
    auto k = c.s.urange(1, 200);
    for (std::size_t i = 0; i < k; ++i) {
      auto at = bulk.uedgy(0, n - 1);
      auto x = bulk.real(-2, 2);
      for (auto* h : hs) h->ForceAdd(at, x);
    }
  };
  record({ &a });
  bwsl::HistAccumulator b(c.s.coin() ? 7 : 0);
  if (c.s.coin()) b.ForceAdd(c.s.urange(0, 2 * n), 3.5);
  HistTraits tr;
  auto before = tr.digest(a);
  transfer(c, static_cast<bwsl::HistAccumulator const&>(a), b);
  c.nt();
  CHECK(tr.digest(a) == before, "saving disturbed the original");
  for (int k = 0; k < 2; ++k) {
    auto d = tr.digest(a), e = tr.digest(b);
    CHECK(d.size() == e.size(), "number of answers " << d.size() << " and " << e.size());
    for (std::size_t i = 0; i < d.size(); ++i)
      CHECK(d[i] == e[i], "answer " << i << " is " << d[i] << " in the original and " << e[i] << " in the restored one");
    if (k == 0) record({ &a, &b });
  }
}

PBT_TEST(wide_groups, 60, 2000, 0.1)
{
  auto file = pbt::scratch() + "/group_" + std::to_string(getpid());
  auto n = static_cast<std::size_t>(std::exp2(c.s.real(3, 12)));
  auto bulk = c.s.bulk();
  bwsl::ObservableGroup<std::string> a(file), b(file);
  std::vector<std::string> keys;
  for (std::size_t i = 0; i < n; ++i) {
    keys.push_back("o" + std::string(bulk.index(i % 50 == 0 ? 400 : 12), 'x') + std::to_string(i));
    a.AddObservable(keys.back());
  }
  NOTE(n << " observables");
  c.nt();
  auto record = [&](std::vector<bwsl::ObservableGroup<std::string>*> const& gs) {
    auto k = c.s.urange(1, 3 * n);
    for (std::size_t i = 0; i < k; ++i) {
      auto const& at = keys[bulk.uedgy(0, n - 1)];
      auto x = bulk.real(-2, 2);
      for (auto* g : gs) g->Measure(at, x);
    }
  };
  record({ &a });
  if (c.s.coin()) {
    b.AddObservable("y");
    b.AddObservable(keys[n / 2]);
    b.Measure(keys[n / 2], 9);
  }
  transfer(c, static_cast<bwsl::ObservableGroup<std::string> const&>(a), b);
  record({ &a, &b });
  auto print = [&](bwsl::ObservableGroup<std::string>& g) {
    ::unlink(file.c_str());
    g.PrintHeaders();
    g.PrintAndReset(17);
    auto t = txt::slurp(file);
    ::unlink(file.c_str());
    return t;
  };
  auto x = print(a), y = print(b);
  CHECK(x == y, "the original prints\n" << x << "the restored group prints\n" << y);
}
