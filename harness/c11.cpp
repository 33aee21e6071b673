// check: cpu=60
// check: libs=-lboost_serialization
// check: factor=4
// check: san_factor=1.5
// check: fuzz_runs=1000
#include "archives.hpp"
#include "sums.hpp"
#include <bwsl/Accumulators.hpp>
#include <deque>
#include <list>

using bwsl::accumulators::KahanAccumulator;
using bwsl::accumulators::NeumaierAccumulator;

const char* const pbt::rule =
  "Histories of up to about 60 operations (add a value, add a block of up to 3000 repeated or "
  "alternating values, feed a container through the apply helper, reset, copy) with values of all "
  "magnitudes: integers, full-precision reals, one large value followed by many at its rounding "
  "level, and large values that cancel; the exact sum is kept as a 2100-bit integer. Non-trivial: at "
  "least three values since the last reset whose exact sum is no double or whose plain "
  "left-to-right sum is wrong.";

/// Values added since the last reset
struct Model
{
  ref::ExactSum exact;
  unsigned long count = 0;
  double naive = 0;
  void add(double x)
  {
    exact.add(x);
    naive += x;
    ++count;
  }
};

template<class A>
static void
compare(A const& a, A const& twin, Model const& m, bool neumaier)
{
  using ref::value;
  CHECK(a.Count() == m.count, "count " << a.Count() << " expected " << m.count);
  CHECK(a.Sum() == twin.Sum() && a.Count() == twin.Count(),
        "the sum " << a.Sum() << " differs from that of an accumulator given the same values "
                   << twin.Sum());
  auto s = a.Sum();
  CHECK(std::isfinite(s), "sum " << s);
  ref::big diff = ref::ExactSum::of(s) - m.exact.total;
  auto err = std::fabs(value(diff));
  auto abs = value(m.exact.abs), sum = std::fabs(value(m.exact.total));
  long double n = static_cast<long double>(m.count), u = ref::u;
  // Kahan: (2u + O(n u^2)) sum|x|.  Neumaier: u |S| + O(n^2 u^2) sum|x|
  auto bound = neumaier ? 2 * u * sum + 4 * (n + 1) * (n + 1) * u * u * abs
                        : (4 * u + 8 * n * u * u) * abs;
  CHECK(err <= bound + 4.94e-324L, "sum " << s << " misses the exact sum "
                                         << double(value(m.exact.total)) << " by " << double(err)
                                         << " but the bound is " << double(bound) << ", "
                                         << m.count << " values, sum of magnitudes " << double(abs));
  if (m.count > 0) {
    auto mean = a.Mean(), want = s / static_cast<double>(m.count);
    CHECK(std::fabs(mean - want) <= 4 * ref::u * std::fabs(want) + 1e-323,
          "mean " << mean << " of sum " << s << " and count " << m.count);
  }
}

template<class A>
static void
history(pbt::Ctx& c, bool neumaier)
{
  A acc, twin;
  Model m;
  auto scale = static_cast<int>(c.s.range(-30, 30));
  auto style = c.s.index(5);
  double last = 1;
  auto value = [&]() -> double {
    switch (style) {
      case 0:
        return static_cast<double>(c.s.range(-1000, 1000));
      case 1:
        return std::ldexp(c.s.real(-1, 1), scale);
      case 2: { // rounding level of the running sum
        auto s = std::fabs(m.naive);
        if (s == 0 || c.s.coin(1, 5)) return std::ldexp(c.s.real(0.5, 1), scale);
        return s * std::ldexp(c.s.real(-1, 1), -static_cast<int>(c.s.range(45, 60)));
      }
      case 3: // cancellation
        if (c.s.coin(1, 3)) return -m.naive;
        return std::ldexp(c.s.real(-1, 1), scale + static_cast<int>(c.s.range(-60, 60)));
      default: {
        auto x = c.s.finite(900);
        return x;
      }
    }
  };
  auto clampv = [&](double x) {
    if (!std::isfinite(x) || std::fabs(x) > 1e290) x = 1;
    if (std::fabs(m.naive + x) > 1e295) x = 0.75;
    return x;
  };
  NOTE((neumaier ? "Neumaier" : "Kahan") << " style " << style);
  std::size_t n = 0;
  bool wrong = false;
  while (c.s.more(n, 30, 120)) {
    switch (c.s.index(8)) {
      case 0:
        if (c.s.coin(1, 2)) {
          NOTE("reset");
          acc.Reset();
          twin = A();
          m = Model();
          break;
        }
        [[fallthrough]];
      case 1: {
        std::vector<double> v;
        std::size_t k = 0;
        while (c.s.more(k, 6, 40)) {
          v.push_back(clampv(value()));
        }
        NOTE("apply " << pbt::show(v));
        A* r = nullptr;
        if (c.s.coin()) {
          r = &bwsl::apply_accumulator(v.begin(), v.end(), acc);
        } else {
          std::list<double> l(v.begin(), v.end());
          r = &bwsl::apply_accumulator(l.cbegin(), l.cend(), acc);
        }
        CHECK(r == &acc, "the apply helper returns another accumulator");
        for (auto x : v) {
          twin.Add(x);
          m.add(x);
        }
        break;
      }
      case 2: {
        auto x = clampv(value()), y = c.s.coin() ? x : clampv(value());
        auto k = c.s.len(3000);
        if (std::fabs(x) > 1e200) x = 1;
        if (std::fabs(y) > 1e200) y = -1;
        NOTE(k << " times alternating " << x << " and " << y);
        for (std::size_t i = 0; i < k; ++i) {
          auto z = i % 2 ? y : x;
          acc.Add(z);
          twin.Add(z);
          m.add(z);
        }
        break;
      }
      case 3: {
        A copy(acc);
        A moved(std::move(copy));
        A other;
        other.Add(3);
        other = moved;
        acc = other;
        NOTE("copy");
        break;
      }
      default: {
        auto x = clampv(value());
        last = x;
        NOTE("add " << x);
        acc.Add(x);
        twin.Add(x);
        m.add(x);
      }
    }
    wrong = wrong || (m.count > 2 && ref::ExactSum::of(m.naive) != m.exact.total);
    if (c.s.coin(1, 4)) compare(acc, twin, m, neumaier);
  }
  compare(acc, twin, m, neumaier);
  c.nt(wrong);
  c.cls(m.count > 1000, "more than 1000 values");
  c.cls(ref::value(m.exact.abs) > 1e6L * std::fabs(ref::value(m.exact.total)) && m.count > 1,
        "massive cancellation");
}

PBT_TEST(kahan, 12000, 600000, 0.3)
{
  history<KahanAccumulator>(c, false);
}

PBT_TEST(neumaier, 12000, 600000, 0.3)
{
  history<NeumaierAccumulator>(c, true);
}

PBT_TEST(long_sums, 60, 2000, 0.3)
{
  // long sequences, where uncompensated errors accumulate
  auto neumaier = c.s.coin();
  auto n = c.s.urange(20000, 120000);
  auto bulk = c.s.bulk();
  auto style = c.s.index(3);
  NOTE((neumaier ? "Neumaier " : "Kahan ") << n << " values, style " << style);
  c.nt();
  KahanAccumulator k, k2;
  NeumaierAccumulator m, m2;
  Model model;
  std::vector<double> v;
  v.reserve(n);
  for (std::size_t i = 0; i < n; ++i) {
    double x = style == 0 ? 0.1 : style == 1 ? bulk.real(0, 1) : bulk.real(-1, 1);
    v.push_back(x);
    model.add(x);
  }
  if (neumaier) {
    bwsl::apply_accumulator(v.begin(), v.end(), m);
    for (auto x : v) m2.Add(x);
    compare(m, m2, model, true);
  } else {
    bwsl::apply_accumulator(v.begin(), v.end(), k);
    for (auto x : v) k2.Add(x);
    compare(k, k2, model, false);
  }
}

template<class A>
static void
huge(pbt::Ctx& c, bool neumaier)
{
  // more values than single-precision arithmetic can count
  A acc, twin;
  Model m;
  NOTE((neumaier ? "Neumaier" : "Kahan"));
  c.nt();
  if (c.s.coin()) {
    acc.Add(5);
    acc.Reset();
  }
  auto groups = c.s.urange(1, 3);
  for (std::size_t g = 0; g < groups; ++g) {
    auto k = (1UL << 24) / groups + c.s.urange(1, 3000000);
    auto x = c.s.coin() ? c.s.real(-1, 1) : 0.1;
    NOTE(k << " times " << x);
    for (std::size_t i = 0; i < k; ++i) acc.Add(x);
    m.exact.add(x, k);
    m.count += k;
  }
  auto text = arc::saved(acc);
  arc::restore(twin, text);
  compare(acc, twin, m, neumaier);
}

PBT_TEST(huge_sums, 6, 40, 0.05)
{
  c.s.coin() ? huge<KahanAccumulator>(c, false) : huge<NeumaierAccumulator>(c, true);
}

template<class A>
static void
counts(pbt::Ctx& c)
{
  A a, b;
  double x = c.s.dyadic(20, -20, 20);
  for (int i = 0; i < 1237; ++i) a.Add(x);
  auto text = arc::saved(a);
  auto n = arc::count(c.s, 1237, ULONG_MAX - 20);
  DISCARD_IF(!arc::replace(text, { { "1237", std::to_string(n) } }));
  NOTE("the sum of 1237 times " << x << " restored as one of " << n << " values");
  if (c.s.coin()) b.Add(7);
  arc::restore(b, text);
  c.nt(n > 1237);
  auto sum = a.Sum();
  auto steps = c.s.urange(0, 9);
  for (std::size_t i = 0;; ++i) {
    CHECK(b.Count() == n + i, "count " << b.Count() << " expected " << n + i);
    CHECK(std::fabs(b.Sum() - sum) <= 1e-14 * std::fabs(sum), "sum " << b.Sum() << " expected " << sum);
    auto want = b.Sum() / static_cast<long double>(n + i);
    CHECK(std::fabs(b.Mean() - want) <= 4 * ref::u * std::fabs(want) + 1e-323L,
          "mean " << b.Mean() << " of sum " << b.Sum() << " and count " << n + i);
    if (i == steps) break;
    b.Add(x);
    sum += x;
  }
  b.Reset();
  CHECK(b.Count() == 0 && b.Sum() == 0, "after a reset: count " << b.Count() << " sum " << b.Sum());
}

PBT_TEST(large_counts, 4000, 200000, 0.3)
{
  c.s.coin() ? counts<KahanAccumulator>(c) : counts<NeumaierAccumulator>(c);
}
