// check: cpu=60
// check: libs=-lboost_serialization
// check: factor=8
// check: san_factor=8
// check: fuzz_runs=10000
#include "archives.hpp"
#include "sums.hpp"
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <bwsl/Accumulators.hpp>

using Acc = bwsl::NaiveInteger;

const char* const pbt::rule =
  "Histories of integer additions (small, alternating, up to 10^8 in magnitude, constants), resets "
  "and copies kept within the domain where count times the sum of squares and the squared sum are "
  "representable; compared with exact 128-bit arithmetic. Non-trivial: at least three values since "
  "the last reset that are not all equal.";

static void
compare(Acc const& a, std::vector<long> const& v)
{
  auto n = v.size();
  __int128 sum = 0, sum2 = 0;
  for (auto x : v) {
    sum += x;
    sum2 += static_cast<__int128>(x) * x;
  }
  CHECK(a.Count() == n, "count " << a.Count() << " expected " << n);
  CHECK(a.Sum() == static_cast<long>(sum), "sum " << a.Sum() << " expected " << long(sum));
  if (n > 0) {
    auto mean = static_cast<long double>(sum) / static_cast<long double>(n);
    CHECK(std::fabs(a.Mean() - mean) <= 4 * ref::u * std::fabs(mean), "mean " << a.Mean()
                                                                              << " expected " << double(mean));
  }
  if (n < 2) {
    CHECK(std::isnan(a.Variance(true)) && std::isnan(a.Variance(false)) &&
            std::isnan(a.ScaledVariance()) && std::isnan(a.StandardDeviation(true)) &&
            std::isnan(a.StandardDeviation(false)),
          "variance with " << n << " values");
    return;
  }
  auto num = static_cast<long double>(static_cast<__int128>(n) * sum2 - sum * sum);
  auto S = num / static_cast<long double>(n);
  auto ok = [](double got, long double want) { return std::fabs(got - want) <= 1e-14L * std::fabs(want); };
  CHECK(ok(a.ScaledVariance(), S),
        "scaled variance " << a.ScaledVariance() << " expected " << double(S) << " of " << pbt::show(v));
  for (int k = 0; k < 2; ++k) {
    auto want = S / static_cast<long double>(k ? n - 1 : n);
    CHECK(ok(a.Variance(k == 1), want), "variance(corrected=" << k << ") " << a.Variance(k == 1)
                                                              << " expected " << double(want) << " of "
                                                              << pbt::show(v));
    CHECK(ok(a.StandardDeviation(k == 1), std::sqrt(want)),
          "standard deviation(corrected=" << k << ") " << a.StandardDeviation(k == 1) << " expected "
                                          << double(std::sqrt(want)));
  }
}

PBT_TEST(naive_integer, 40000, 2000000, 0.3)
{
  Acc a;
  std::vector<long> v;
  __int128 sum2 = 0, abs = 0;
  auto style = c.s.index(4);
  const __int128 lim = LONG_MAX;
  auto fits = [&](long x, std::size_t k) {
    auto ax = static_cast<__int128>(x < 0 ? -static_cast<__int128>(x) : x) * static_cast<__int128>(k);
    auto s2 = sum2 + static_cast<__int128>(x) * x * static_cast<__int128>(k);
    // |sum|^2 <= (sum |x|)^2 and count * sum2 both within long
    return (abs + ax) < (static_cast<__int128>(1) << 40) && (abs + ax) * (abs + ax) <= lim &&
           s2 * static_cast<__int128>(v.size() + k) <= lim;
  };
  auto value = [&]() -> long {
    switch (style) {
      case 0:
        return c.s.range(-10, 10);
      case 1:
        return c.s.range(0, 5);
      case 2:
        return c.s.edgy(-100000000, 100000000);
      default:
        return 1000000 + c.s.range(-3, 3);
    }
  };
  std::size_t n = 0;
  bool nt = false;
  auto note_nt = [&] {
    nt = nt || (v.size() > 2 && std::any_of(v.begin(), v.end(), [&](long x) { return x != v[0]; }));
  };
  auto add = [&](long x, std::size_t k) {
    if (!fits(x, k)) {
      x = 0;
      if (!fits(x, k)) return;
    }
    NOTE("add " << x << " times " << k);
    for (std::size_t i = 0; i < k; ++i) {
      a.Add(x);
      v.push_back(x);
    }
    abs += static_cast<__int128>(x < 0 ? -x : x) * static_cast<__int128>(k);
    sum2 += static_cast<__int128>(x) * x * static_cast<__int128>(k);
  };
  while (c.s.more(n, 20, 80)) {
    switch (c.s.index(8)) {
      case 0:
        if (c.s.coin()) {
          NOTE("reset");
          note_nt();
          a.Reset();
          v.clear();
          sum2 = abs = 0;
          break;
        }
        [[fallthrough]];
      case 1:
        add(value(), c.s.len(60));
        break;
      case 2: {
        NOTE("copy");
        Acc b(a), d(std::move(b)), e;
        e.Add(1);
        e = d;
        a = e;
        break;
      }
      default:
        add(value(), 1);
    }
    if (c.s.coin(1, 3)) compare(a, v);
  }
  compare(a, v);
  note_nt();
  c.nt(nt);
  c.cls(sum2 > (1L << 40), "sum of squares above 2^40");
  c.cls(v.size() < 2, "fewer than two values at the end");
}

static void
compare(Acc const& a, __int128 sum, __int128 sum2, unsigned long n)
{
  CHECK(a.Count() == n, "count " << a.Count() << " expected " << n);
  CHECK(a.Sum() == static_cast<long>(sum), "sum " << a.Sum() << " expected " << long(sum));
  auto ok = [&](double got, long double want, const char* what) {
    CHECK(std::fabs(got - want) <= 1e-14L * std::fabs(want),
          what << " " << got << " expected " << double(want) << " of " << n << " values with sum "
               << long(sum) << " and sum of squares " << long(sum2));
  };
  ok(a.Mean(), static_cast<long double>(sum) / static_cast<long double>(n), "mean");
  auto S = static_cast<long double>(static_cast<__int128>(n) * sum2 - sum * sum) / static_cast<long double>(n);
  ok(a.ScaledVariance(), S, "scaled variance");
  for (int k = 0; k < 2; ++k) {
    auto want = S / static_cast<long double>(k ? n - 1 : n);
    ok(a.Variance(k == 1), want, k ? "corrected variance" : "variance");
    ok(a.StandardDeviation(k == 1), std::sqrt(want), "standard deviation");
  }
}

PBT_TEST(huge_runs, 6, 40, 0.05)
{
  Acc a;
  __int128 sum = 0, sum2 = 0;
  unsigned long n = 0;
  auto groups = c.s.urange(2, 5);
  c.nt();
  for (std::size_t g = 0; g < groups; ++g) {
    auto k = (1UL << 25) / groups + c.s.urange(1, 2000000);
    auto x = c.s.range(-15, 15);
    NOTE(k << " times " << x);
    for (std::size_t i = 0; i < k; ++i) a.Add(x);
    n += k;
    sum += static_cast<__int128>(x) * k;
    sum2 += static_cast<__int128>(x) * x * k;
  }
  compare(a, sum, sum2, n);
}

PBT_TEST(large_counts, 6000, 300000, 0.3)
{
  // a larger count with the same sums: so many additional zeros
  Acc a, b;
  auto x = c.s.range(-50, 50), y = c.s.range(-50, 50);
  __int128 sum = 0, sum2 = 0;
  for (int i = 0; i < 1237; ++i) {
    auto z = i % 2 ? x : y;
    a.Add(z);
    sum += z;
    sum2 += z * z;
  }
  auto text = arc::saved(a);
  auto hi = static_cast<unsigned long>(LONG_MAX / std::max<long>(1, static_cast<long>(sum2) + 300000));
  auto n = arc::count(c.s, 1237, hi);
  DISCARD_IF(!arc::replace(text, { { "1237", std::to_string(n) } }));
  NOTE(x << " and " << y << " alternating, restored with a count of " << n);
  if (c.s.coin()) b.Add(7);
  arc::restore(b, text);
  c.nt(x != y);
  auto steps = c.s.urange(0, 9);
  for (std::size_t i = 0;; ++i) {
    compare(b, sum, sum2, n + i);
    if (i == steps) break;
    auto z = c.s.range(-100, 100);
    b.Add(z);
    sum += z;
    sum2 += z * z;
  }
}
