// check: cpu=60
// check: libs=-lboost_serialization
// check: factor=8
// check: san_factor=8
// check: fuzz_runs=5000
#include "archives.hpp"
#include "sums.hpp"
#include <bwsl/Accumulators.hpp>

using Acc = bwsl::accumulators::KnuthWelfordAccumulator;
using ref::quad;

const char* const pbt::rule =
  "Histories of additions (single, blocks, through the apply helper), resets and copies with values "
  "of a random mean (0 or up to 1e12) and spread (down to 1e-12 of the mean), constants and "
  "integers, scaled down to 2^-860 or up; all statistics compared with two-pass ones in 113-bit arithmetic after random "
  "prefixes. Non-trivial: at least three different values since the last reset.";

static void
compare(Acc const& a, std::vector<double> const& v)
{
  auto n = v.size();
  CHECK(a.Count() == n, "count " << a.Count() << " expected " << n);
  if (n < 2) {
    for (int k = 0; k < 2; ++k) {
      CHECK(std::isnan(a.Variance(k == 1)) && std::isnan(a.StandardDeviation(k == 1)) &&
              std::isnan(a.Error(k == 1)),
            "variance " << a.Variance(k == 1) << " with " << n << " values");
    }
    CHECK(std::isnan(a.ScaledVariance()), "scaled variance with " << n << " values");
  }
  if (n == 0) {
    CHECK(a.Sum() == 0, "empty sum " << a.Sum());
    return;
  }
  quad sum = 0, big = 0;
  for (auto x : v) {
    sum += x;
    big = std::max(big, ref::qabs(x));
  }
  quad mean = sum / static_cast<quad>(n), s = 0;
  for (auto x : v) s += (x - mean) * (x - mean);
  auto nu = 16 * static_cast<long double>(n + 2) * ref::u;
  auto mx = static_cast<long double>(big), S = static_cast<long double>(s);
  auto tolmean = nu * mx;
  CHECK(std::fabs(static_cast<long double>(static_cast<quad>(a.Mean()) - mean)) <= tolmean,
        "mean " << a.Mean() << " expected " << double(mean) << " of " << n << " values");
  CHECK(std::fabs(static_cast<long double>(static_cast<quad>(a.Sum()) - sum)) <=
          tolmean * static_cast<long double>(n) + 4 * ref::u * std::fabs(static_cast<long double>(sum)),
        "sum " << a.Sum() << " expected " << double(sum));
  if (n < 2) return;
  auto tol = nu * (S + mx * std::sqrt(S * static_cast<long double>(n))) +
             static_cast<long double>(n) * nu * mx * nu * mx + 1e-300L;
  auto sv = a.ScaledVariance();
  CHECK(std::fabs(sv - S) <= tol, "scaled variance " << sv << " expected " << double(S)
                                                     << " tolerance " << double(tol) << " of "
                                                     << pbt::show(v));
  for (int k = 0; k < 2; ++k) {
    auto d = static_cast<long double>(k ? n - 1 : n);
    auto var = a.Variance(k == 1), sd = a.StandardDeviation(k == 1), err = a.Error(k == 1);
    CHECK(std::fabs(var - S / d) <= tol / d, "variance(corrected=" << k << ") " << var << " expected "
                                                                   << double(S / d));
    CHECK(var >= 0 && sd >= 0, "negative variance " << var);
    // the square of a subnormal root, or the root of a subnormal square, has few digits
    auto few = var < 1e-280 ? 1e-143 : 0.0;
    CHECK(std::fabs(sd - std::sqrt(var)) <= 1e-15 * sd + few, "standard deviation(" << k << ") " << sd
                                                                              << " of variance " << var);
    auto e = sd / std::sqrt(static_cast<double>(n));
    CHECK(std::fabs(err - e) <= 2e-15 * e + few, "error(" << k << ") " << err << " expected " << e);
  }
}

PBT_TEST(welford, 20000, 1000000, 0.3)
{
  Acc a;
  std::vector<double> v;
  double mean = 0, spread = 1;
  auto style = c.s.index(4);
  if (style == 1) {
    mean = std::ldexp(c.s.real(-1, 1), static_cast<int>(c.s.range(0, 40)));
    spread = std::fabs(mean) * std::ldexp(1.0, -static_cast<int>(c.s.range(0, 40)));
  } else if (style == 2) {
    mean = 0;
    spread = std::ldexp(1.0, static_cast<int>(c.s.range(-100, 100)));
  }
  // very large and very small values
  auto scale = c.s.coin(1, 4) ? static_cast<int>(c.s.range(-360, 360)) : 0;
  // so small that no square is representable: the means still are
  if (c.s.coin(1, 12)) scale = -static_cast<int>(c.s.range(360, 860));
  mean = std::ldexp(mean, scale);
  spread = std::ldexp(spread, scale);
  auto value = [&]() -> double {
    if (style == 0) return std::ldexp(static_cast<double>(c.s.range(-100, 100)), scale);
    if (style == 3) return std::ldexp(c.s.dyadic(20, -20, 20), scale);
    return mean + spread * c.s.real(-1, 1);
  };
  NOTE("mean " << mean << " spread " << spread);
  std::size_t n = 0;
  bool nt = false;
  auto differing = [&] {
    std::size_t k = 0;
    double x = 0, y = 0;
    for (auto z : v) {
      if (k == 0) {
        x = z;
        k = 1;
      } else if (k == 1 && z != x) {
        y = z;
        k = 2;
      } else if (k == 2 && z != x && z != y) {
        return true;
      }
    }
    return false;
  };
  while (c.s.more(n, 25, 100)) {
    switch (c.s.index(9)) {
      case 0:
        if (c.s.coin()) {
          NOTE("reset");
          nt = nt || differing();
          a.Reset();
          v.clear();
          break;
        }
        [[fallthrough]];
      case 1: {
        auto x = value();
        auto k = c.s.len(200);
        NOTE(k << " times " << x);
        for (std::size_t i = 0; i < k; ++i) {
          a.Add(x);
          v.push_back(x);
        }
        break;
      }
      case 2: {
        std::vector<double> w;
        std::size_t k = 0;
        while (c.s.more(k, 6, 40)) w.push_back(value());
        NOTE("apply " << pbt::show(w));
        bwsl::apply_accumulator(w.begin(), w.end(), a);
        v.insert(v.end(), w.begin(), w.end());
        break;
      }
      case 3: {
        NOTE("copy");
        Acc b(a), d(std::move(b)), e;
        e.Add(1);
        e = d;
        a = e;
        break;
      }
      default: {
        auto x = value();
        NOTE("add " << x);
        a.Add(x);
        v.push_back(x);
      }
    }
    if (c.s.coin(1, 4)) compare(a, v);
  }
  compare(a, v);
  c.nt(nt || differing());
  c.cls(style == 1, "large mean, small spread");
  c.cls(v.size() < 2, "fewer than two values at the end");
}

PBT_TEST(long_runs, 40, 1500, 0.3)
{
  auto n = c.s.urange(5000, 60000);
  auto bulk = c.s.bulk();
  auto mean = std::ldexp(1.0, static_cast<int>(c.s.range(0, 30)));
  NOTE(n << " values around " << mean);
  c.nt();
  Acc a;
  std::vector<double> v;
  for (std::size_t i = 0; i < n; ++i) {
    auto x = mean + bulk.real(-1, 1);
    v.push_back(x);
    a.Add(x);
  }
  compare(a, v);
}

PBT_TEST(huge_runs, 6, 40, 0.05)
{
  Acc a;
  std::vector<std::pair<double, unsigned long>> v;
  auto groups = c.s.urange(2, 4);
  unsigned long n = 0;
  quad sum = 0;
  double mx = 0;
  c.nt();
  for (std::size_t g = 0; g < groups; ++g) {
    auto k = (1UL << 24) / groups + c.s.urange(1, 2000000);
    double x = c.s.real(-100, 100);
    NOTE(k << " times " << x);
    for (std::size_t i = 0; i < k; ++i) a.Add(x);
    v.push_back({ x, k });
    n += k;
    sum += static_cast<quad>(x) * static_cast<quad>(k);
    mx = std::max(mx, std::fabs(x));
  }
  quad mean = sum / static_cast<quad>(n), s = 0;
  for (auto const& p : v) s += (p.first - mean) * (p.first - mean) * static_cast<quad>(p.second);
  auto S = static_cast<long double>(s);
  // rounding errors of the recurrence: far below single precision
  auto nu = 4 * static_cast<long double>(n) * ref::u;
  CHECK(a.Count() == n, "count " << a.Count() << " expected " << n);
  CHECK(std::fabs(a.Mean() - static_cast<long double>(mean)) <= nu * mx,
        "mean " << a.Mean() << " expected " << double(mean));
  CHECK(std::fabs(a.Sum() - static_cast<long double>(sum)) <= nu * mx * static_cast<long double>(n),
        "sum " << a.Sum() << " expected " << double(sum));
  auto tol = nu * (S + mx * std::sqrt(S * static_cast<long double>(n)));
  CHECK(std::fabs(a.ScaledVariance() - S) <= tol,
        "scaled variance " << a.ScaledVariance() << " expected " << double(S));
  for (int k = 0; k < 2; ++k) {
    auto d = static_cast<long double>(k ? n - 1 : n);
    long double var = a.Variance(k == 1), sd = a.StandardDeviation(k == 1), e = a.Error(k == 1);
    CHECK(std::fabs(var - S / d) <= tol / d, "variance " << double(var) << " expected " << double(S / d));
    CHECK(sd >= 0 && std::fabs(sd * sd - S / d) <= 2 * tol / d,
          "standard deviation " << double(sd) << " of variance " << double(var));
    CHECK(e >= 0 && std::fabs(e * e - S / d / static_cast<long double>(n)) <=
                      2 * tol / d / static_cast<long double>(n),
          "error " << double(e) << " of standard deviation " << double(sd) << " and count " << n);
  }
}

PBT_TEST(large_counts, 4000, 200000, 0.3)
{
  // the statistics as functions of mean, squared deviations and count
  Acc a, b;
  auto x = c.s.dyadic(20, -10, 10), y = c.s.dyadic(20, -10, 10);
  for (int i = 0; i < 1237; ++i) a.Add(i % 2 ? x : y);
  auto text = arc::saved(a);
  auto n = arc::count(c.s, 1237, ULONG_MAX - 20);
  DISCARD_IF(!arc::replace(text, { { "1237", std::to_string(n) } }));
  NOTE(x << " and " << y << " alternating, restored with a count of " << n);
  if (c.s.coin()) b.Add(7);
  arc::restore(b, text);
  c.nt(x != y);
  auto steps = c.s.urange(0, 9);
  long double mean = a.Mean(), S = a.ScaledVariance();
  for (std::size_t i = 0;; ++i) {
    auto N = static_cast<long double>(n + i);
    CHECK(b.Count() == n + i, "count " << b.Count() << " expected " << n + i);
    auto ok = [&](double got, long double want, const char* what, long double scale = 0) {
      CHECK(std::fabs(got - want) <= 1e-13L * (std::fabs(want) + scale), what << " " << got << " expected "
                                                                   << double(want) << " with count " << n + i);
    };
    auto mag = static_cast<long double>(std::fabs(x) + std::fabs(y));
    ok(b.Mean(), mean, "mean", mag);
    ok(b.Sum(), mean * N, "sum", mag * N);
    ok(b.ScaledVariance(), S, "scaled variance");
    ok(b.Variance(false), S / N, "variance");
    ok(b.Variance(true), S / (N - 1), "corrected variance");
    ok(b.StandardDeviation(false), std::sqrt(S / N), "standard deviation");
    ok(b.StandardDeviation(true), std::sqrt(S / (N - 1)), "corrected standard deviation");
    ok(b.Error(false), std::sqrt(S / N / N), "error");
    ok(b.Error(true), std::sqrt(S / (N - 1) / N), "corrected error");
    if (i == steps) break;
    b.Add(x);
    auto old = mean;
    mean += (x - old) / (N + 1);
    S += (x - old) * (x - mean);
  }
}
