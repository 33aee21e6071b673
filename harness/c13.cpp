// check: cpu=60
// check: libs=-lboost_serialization
// check: factor=20
// check: san_factor=20
// check: fuzz_runs=30000
#include "archives.hpp"
#include "sums.hpp"
#include <bwsl/Accumulators.hpp>

using Acc = bwsl::accumulators::WestAccumulator;
using ref::quad;

const char* const pbt::rule =
  "Histories of weighted additions (unit, integer and real weights over 20 or 120 binary orders, all scaled up to 2^800 or down to 2^-800, zero and "
  "negative weights in between), resets and copies; all statistics compared with the two-pass "
  "weighted formulas in 113-bit arithmetic. Non-trivial: at least three counted values with two "
  "different weights and two different values.";

struct Obs
{
  double m, w;
};

static void
compare(Acc const& a, std::vector<Obs> const& v)
{
  auto n = v.size();
  CHECK(a.Count() == n, "count " << a.Count() << " expected " << n);
  if (n < 2) {
    CHECK(std::isnan(a.PopulationVariance()) && std::isnan(a.SampleFrequencyVariance()) &&
            std::isnan(a.SampleReliabilityVariance()),
          "variance with " << n << " counted values: " << a.PopulationVariance());
  }
  if (n == 0) {
    CHECK(a.Sum() == 0, "empty sum " << a.Sum());
    return;
  }
  quad W = 0, W2 = 0, sum = 0, big = 0, ratio = 1;
  for (auto const& o : v) {
    if (W > 0) ratio = std::max(ratio, (W + o.w) / W);
    W += o.w;
    W2 += static_cast<quad>(o.w) * o.w;
    sum += static_cast<quad>(o.w) * o.m;
    big = std::max(big, ref::qabs(o.m));
  }
  quad mean = sum / W, s = 0;
  for (auto const& o : v) s += o.w * (o.m - mean) * (o.m - mean);
  using ld = long double;
  auto nu = 16 * static_cast<ld>(n + 2) * ref::u;
  auto mx = static_cast<ld>(big), S = static_cast<ld>(s), w = static_cast<ld>(W), r = static_cast<ld>(ratio);
  CHECK(std::fabs(static_cast<ld>(static_cast<quad>(a.Mean()) - mean)) <= nu * mx,
        "mean " << a.Mean() << " expected " << double(mean));
  CHECK(std::fabs(static_cast<ld>(static_cast<quad>(a.Sum()) - sum)) <= 2 * nu * mx * w,
        "weighted sum " << a.Sum() << " expected " << double(sum));
  if (n < 2) return;
  auto tol = nu * (S + mx * std::sqrt(S * w * r)) + w * r * nu * mx * nu * mx + 1e-300L;
  // the very first update may round the step to the first value instead of taking the value itself
  tol += 4 * ref::u * static_cast<ld>(v[0].w) * static_cast<ld>(v[0].m) * static_cast<ld>(v[0].m);
  auto check = [&](double got, quad div, const char* what) {
    auto d = static_cast<ld>(div);
    // relative error of the divisor itself
    auto rel = nu * w / std::fabs(d);
    if (rel > 0.01L) return;
    auto want = S / d;
    CHECK(std::fabs(got - want) <= tol / std::fabs(d) + 2 * rel * std::fabs(want) + 1e-300L,
          what << " " << got << " expected " << double(want) << ", " << n
               << " values, total weight " << double(W));
  };
  check(a.PopulationVariance(), W, "population variance");
  check(a.SampleFrequencyVariance(), W - 1, "frequency-weight sample variance");
  // the divisor may also be taken as (W^2 - W2) / W, as long as no product leaves the range
  if (S * w < 1e-280L || w * w < 1e-280L || S * w > 1e290L || w * w > 1e290L) return;
  check(a.SampleReliabilityVariance(), W - W2 / W, "reliability-weight sample variance");
}

PBT_TEST(west, 25000, 1200000, 0.3)
{
  Acc a;
  std::vector<Obs> v;
  double mean = 0, spread = 1;
  auto style = c.s.index(3), wstyle = c.s.index(5);
  if (style == 1) {
    mean = std::ldexp(c.s.real(-1, 1), static_cast<int>(c.s.range(0, 30)));
    spread = std::fabs(mean) * std::ldexp(1.0, -static_cast<int>(c.s.range(0, 30)));
  }
  // very large and very small values and weights, as long as no product leaves the range
  auto wscale = c.s.coin(1, 4) ? static_cast<int>(c.s.range(-300, 300)) : 0;
  auto mscale = c.s.coin(1, 4) ? static_cast<int>(c.s.range(-200, 200)) : 0;
  // weights whose squares are not representable
  if (c.s.coin(1, 12)) {
    wscale = static_cast<int>(c.s.range(300, 800)) * (c.s.coin() ? 1 : -1);
    mscale = 0;
  }
  mean = std::ldexp(mean, mscale);
  spread = std::ldexp(spread, mscale);
  auto value = [&]() -> double {
    if (style == 0) return std::ldexp(static_cast<double>(c.s.range(-100, 100)), mscale);
    return mean + spread * c.s.real(-1, 1);
  };
  auto unscaled = [&]() -> double {
    switch (wstyle) {
      case 0:
        return 1;
      case 1:
        return static_cast<double>(c.s.range(1, 9));
      case 2:
        return c.s.real(0.01, 1);
      case 3:
        return std::ldexp(c.s.real(0.5, 1), static_cast<int>(c.s.range(-10, 10)));
      default:
        return std::ldexp(c.s.real(0.5, 1), static_cast<int>(c.s.range(-60, 60)));
    }
  };
  auto weight = [&] { return std::ldexp(unscaled(), wscale); };
  NOTE("values around " << mean << " +- " << spread << ", weights of style " << wstyle);
  std::size_t n = 0, ignored = 0;
  while (c.s.more(n, 25, 100)) {
    switch (c.s.index(9)) {
      case 0:
        if (c.s.coin()) {
          NOTE("reset");
          a.Reset();
          v.clear();
          break;
        }
        [[fallthrough]];
      case 1: {
        auto x = value();
        auto w = c.s.coin() ? 0.0 : -weight();
        if (c.s.coin(1, 4)) w = -0.0;
        NOTE("ignored: add " << x << " with weight " << w);
        a.Add(x, w);
        ++ignored;
        break;
      }
      case 2: {
        NOTE("copy");
        Acc b(a), d(std::move(b)), e;
        e.Add(1, 2);
        e = d;
        a = e;
        break;
      }
      default: {
        auto x = value(), w = weight();
        NOTE("add " << x << " with weight " << w);
        a.Add(x, w);
        v.push_back({ x, w });
      }
    }
    if (c.s.coin(1, 3)) compare(a, v);
  }
  compare(a, v);
  bool dw = false, dx = false;
  for (auto const& o : v) {
    dw = dw || o.w != v[0].w;
    dx = dx || o.m != v[0].m;
  }
  c.nt(v.size() > 2 && dw && dx);
  c.cls(ignored > 0, "with ignored values");
  c.cls(v.size() < 2, "fewer than two counted values at the end");
}

PBT_TEST(huge_runs, 6, 40, 0.05)
{
  Acc a;
  struct Group { double m, w; unsigned long k; };
  std::vector<Group> v;
  auto groups = c.s.urange(2, 4);
  unsigned long n = 0;
  quad W = 0, W2 = 0, sum = 0;
  double mx = 0, ratio = 1;
  c.nt();
  for (std::size_t g = 0; g < groups; ++g) {
    auto k = (1UL << 24) / groups + c.s.urange(1, 2000000);
    double x = c.s.real(-100, 100), w = c.s.coin() ? 1.0 : c.s.real(0.1, 3);
    NOTE(k << " times " << x << " with weight " << w);
    for (std::size_t i = 0; i < k; ++i) a.Add(x, w);
    v.push_back({ x, w, k });
    n += k;
    W += static_cast<quad>(w) * static_cast<quad>(k);
    W2 += static_cast<quad>(w) * w * static_cast<quad>(k);
    sum += static_cast<quad>(w) * x * static_cast<quad>(k);
    mx = std::max(mx, std::fabs(x));
  }
  quad mean = sum / W, s = 0;
  for (auto const& g : v) s += g.w * (g.m - mean) * (g.m - mean) * static_cast<quad>(g.k);
  auto S = static_cast<long double>(s), w = static_cast<long double>(W);
  auto nu = 4 * static_cast<long double>(n) * ref::u;
  CHECK(a.Count() == n, "count " << a.Count() << " expected " << n);
  CHECK(std::fabs(a.Mean() - static_cast<long double>(mean)) <= nu * mx,
        "mean " << a.Mean() << " expected " << double(mean));
  CHECK(std::fabs(a.Sum() - static_cast<long double>(sum)) <= 2 * nu * mx * w,
        "sum " << a.Sum() << " expected " << double(sum));
  auto tol = 2 * nu * (S + mx * std::sqrt(S * w));
  auto var = [&](double got, quad div, const char* what) {
    auto d = static_cast<long double>(div);
    CHECK(std::fabs(got - S / d) <= tol / d, what << " " << got << " expected " << double(S / d));
  };
  var(a.PopulationVariance(), W, "population variance");
  var(a.SampleFrequencyVariance(), W - 1, "frequency-weight sample variance");
  var(a.SampleReliabilityVariance(), W - W2 / W, "reliability-weight sample variance");
}

PBT_TEST(large_counts, 4000, 200000, 0.3)
{
  Acc a, b;
  auto x = c.s.dyadic(20, -10, 10), y = c.s.dyadic(20, -10, 10);
  for (int i = 0; i < 1237; ++i) a.Add(i % 2 ? x : y, i % 2 ? 0.5 : 0.25);
  auto text = arc::saved(a);
  auto n = arc::count(c.s, 1237, ULONG_MAX - 20);
  DISCARD_IF(!arc::replace(text, { { "1237", std::to_string(n) } }));
  NOTE(x << " and " << y << " alternating, restored with a count of " << n);
  if (c.s.coin()) b.Add(7, 2);
  arc::restore(b, text);
  c.nt(x != y);
  auto steps = c.s.urange(0, 9);
  for (std::size_t i = 0;; ++i) {
    CHECK(b.Count() == n + i, "count " << b.Count() << " expected " << n + i);
    CHECK(b.Mean() == a.Mean() && b.Sum() == a.Sum() &&
            b.PopulationVariance() == a.PopulationVariance() &&
            b.SampleFrequencyVariance() == a.SampleFrequencyVariance() &&
            b.SampleReliabilityVariance() == a.SampleReliabilityVariance(),
          "with a count of " << n + i << " the weighted statistics differ");
    if (i == steps) break;
    auto w = c.s.coin(1, 3) ? 0.0 : c.s.real(0.1, 1);
    if (w == 0) {
      b.Add(x, w);
      CHECK(b.Count() == n + i, "a value without weight is counted");
      w = 0.5;
    }
    a.Add(x, w);
    b.Add(x, w);
  }
}
