// check: factor=4
// check: san_factor=4
// check: fuzz_runs=10000
// check: flags=-DBWSL_ACCUMULATORS_CHECKS
// check: libs=-lboost_serialization
#include "sums.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>

using namespace bwsl::accumulators;
using bwsl::NaiveInteger;
using bwsl::exception::AccumulatorOverflow;

const char* const pbt::rule =
  "Library compiled with its accumulator checks. Integer accumulators fed with values around the "
  "points where the sum and the sum of squares stop being representable (exact 128-bit model of when "
  "to refuse), all accumulators restored from archives whose count is 0..3 below saturation and "
  "driven across it, and ordinary histories. Non-trivial: some addition has to be refused.";

template<class A>
static std::string
saved(A const& a)
{
  std::ostringstream o;
  boost::archive::text_oarchive ar(o, boost::archive::no_header);
  ar << a;
  return o.str();
}

/// Adds and reports whether the addition was refused
template<class F>
static bool
refused(F add)
{
  try {
    add();
    return false;
  } catch (AccumulatorOverflow const&) {
    return true;
  }
}

PBT_TEST(integer_overflow, 60000, 3000000, 0.3)
{
  NaiveInteger a;
  __int128 sum = 0, sum2 = 0;
  unsigned long count = 0;
  std::size_t n = 0;
  bool any = false;
  const __int128 lmax = LONG_MAX, lmin = LONG_MIN;
  auto root = [](__int128 x) { // floor(sqrt(x))
    auto r = static_cast<long>(std::sqrt(static_cast<long double>(x)));
    while (static_cast<__int128>(r) * r > x) --r;
    while (static_cast<__int128>(r + 1) * (r + 1) <= x) ++r;
    return r;
  };
  while (c.s.more(n, 10, 60)) {
    long x = 0;
    switch (c.s.index(6)) {
      case 0:
        x = c.s.range(-100, 100);
        break;
      case 1: { // around the largest value whose square still fits
        x = root(lmax - sum2) + c.s.range(-1, 1);
        if (c.s.coin()) x = -x;
        break;
      }
      case 2: // around the largest value that fits in the sum
        x = static_cast<long>(std::min(lmax, lmax - sum)) - c.s.range(0, 1);
        break;
      case 3:
        x = c.s.edgy(-4000000000L, 4000000000L);
        break;
      case 4:
        x = c.s.edgy(LONG_MIN, LONG_MAX);
        break;
      default:
        x = root((lmax - sum2) / static_cast<long>(c.s.range(1, 8)));
    }
    NOTE("add " << x);
    auto ns = sum + x, ns2 = sum2 + static_cast<__int128>(x) * x;
    bool refuse = ns > lmax || ns < lmin || ns2 > lmax;
    auto before = saved(a);
    auto got = refused([&] { a.Add(x); });
    CHECK(got == refuse, "adding " << x << " to a sum of " << long(sum) << " and sum of squares "
                                   << long(sum2) << (got ? " is refused" : " is accepted"));
    if (refuse) {
      any = true;
      CHECK(saved(a) == before, "a refused addition changed the accumulator: " << before << " -> "
                                                                               << saved(a));
    } else {
      sum = ns;
      sum2 = ns2;
      ++count;
    }
    CHECK(a.Count() == count && a.Sum() == static_cast<long>(sum),
          "count " << a.Count() << " sum " << a.Sum());
  }
  c.nt(any);
  c.cls(any, "some addition refused");
}

/// Text of an archive whose (unique) token "1237" is replaced
static bool
replace_count(std::string& text, std::string const& with)
{
  std::istringstream in(text);
  std::vector<std::string> tok;
  std::string t;
  std::size_t hits = 0;
  while (in >> t) {
    if (t == "1237") {
      t = with;
      ++hits;
    }
    tok.push_back(t);
  }
  if (hits != 1) return false;
  text.clear();
  for (auto const& x : tok) text += x + " ";
  return true;
}

template<class A, class Add>
static void
saturation(pbt::Ctx& c, const char* name, Add add)
{
  A a;
  for (int i = 0; i < 1237; ++i) add(a, 1, i % 2 ? 0.5 : 0.25);
  auto k = c.s.urange(0, 3);
  auto text = saved(a);
  DISCARD_IF(!replace_count(text, std::to_string(ULONG_MAX - k)));
  A b;
  if (c.s.coin()) add(b, 2, 1);
  {
    std::istringstream in(text);
    boost::archive::text_iarchive ar(in, boost::archive::no_header);
    ar >> b;
  }
  NOTE(name << " restored with a count of 2^64-1-" << k);
  CHECK(b.Count() == ULONG_MAX - k, "restored count " << b.Count());
  c.nt();
  auto x = static_cast<double>(c.s.range(0, 1));
  for (std::size_t i = 0; i < k; ++i) {
    CHECK(!refused([&] { add(b, x, 1); }), "addition " << i << " of " << k << " before saturation is refused");
  }
  CHECK(b.Count() == ULONG_MAX, "count " << b.Count());
  for (int i = 0; i < 2; ++i) {
    auto before = saved(b);
    CHECK(refused([&] { add(b, x, 1); }), "a saturated accumulator accepts an addition, its count is now "
                                           << b.Count());
    CHECK(saved(b) == before, "the refused addition changed the accumulator");
    if constexpr (std::is_same_v<A, WestAccumulator>) {
      CHECK(!refused([&] { b.Add(3, 0.0); b.Add(3, -1.0); }),
            "an addition that is not counted is refused");
      CHECK(saved(b) == before, "an addition that is not counted changed the accumulator");
    }
  }
  if (c.s.coin()) {
    b.Reset();
    CHECK(!refused([&] { add(b, x, 1); }), "addition after a reset is refused");
    CHECK(b.Count() == 1, "count after reset and addition " << b.Count());
  }
}

PBT_TEST(saturated_count, 3000, 100000, 0.3)
{
  auto plain = [](auto& a, double x, double) { a.Add(x); };
  switch (c.s.index(5)) {
    case 0:
      return saturation<KahanAccumulator>(c, "Kahan", plain);
    case 1:
      return saturation<NeumaierAccumulator>(c, "Neumaier", plain);
    case 2:
      return saturation<KnuthWelfordAccumulator>(c, "Welford", plain);
    case 3:
      return saturation<WestAccumulator>(c, "West",
                                         [](auto& a, double x, double w) { a.Add(x, w); });
    default:
      return saturation<NaiveInteger>(c, "NaiveInteger", [](auto& a, double x, double) {
        a.Add(a.Count() < 1237 ? (a.Count() % 2 ? 2 : -2) : static_cast<long>(x));
      });
  }
}

PBT_TEST(ordinary_histories, 20000, 1000000, 0.3)
{
  // small integers: every sum is exact with or without the checks
  KahanAccumulator k;
  NeumaierAccumulator m;
  KnuthWelfordAccumulator w;
  WestAccumulator v;
  NaiveInteger n;
  std::vector<long> x;
  std::size_t cnt = 0;
  while (c.s.more(cnt, 20, 100)) {
    if (c.s.coin(1, 15)) {
      NOTE("reset");
      k.Reset();
      m.Reset();
      w.Reset();
      v.Reset();
      n.Reset();
      x.clear();
      continue;
    }
    auto y = c.s.range(-1000, 1000);
    NOTE("add " << y);
    auto d = static_cast<double>(y);
    CHECK(!refused([&] {
      k.Add(d);
      m.Add(d);
      w.Add(d);
      v.Add(d, 1.0);
      n.Add(y);
    }),
          "adding " << y << " is refused");
    x.push_back(y);
  }
  long sum = 0, sum2 = 0;
  for (auto y : x) {
    sum += y;
    sum2 += y * y;
  }
  auto size = static_cast<long>(x.size());
  c.cls("ordinary");
  CHECK(k.Sum() == sum && m.Sum() == sum && n.Sum() == sum,
        "sums " << k.Sum() << " " << m.Sum() << " " << n.Sum() << " expected " << sum);
  CHECK(static_cast<long>(k.Count()) == size && static_cast<long>(m.Count()) == size &&
          static_cast<long>(w.Count()) == size && static_cast<long>(v.Count()) == size &&
          static_cast<long>(n.Count()) == size,
        "counts");
  if (size > 1) {
    auto mean = static_cast<double>(sum) / static_cast<double>(size);
    auto var = static_cast<double>(size * sum2 - sum * sum) / static_cast<double>(size * size);
    CHECK(std::fabs(w.Mean() - mean) < 1e-9 && std::fabs(v.Mean() - mean) < 1e-9 &&
            std::fabs(n.Mean() - mean) < 1e-9,
          "means");
    CHECK(std::fabs(w.Variance(false) - var) < 1e-7 && std::fabs(v.PopulationVariance() - var) < 1e-7 &&
            std::fabs(n.Variance(false) - var) < 1e-7,
          "variances " << w.Variance(false) << " " << v.PopulationVariance() << " "
                       << n.Variance(false) << " expected " << var);
  }
}
