// check: cpu=60
// check: libs=-lboost_serialization
#include "archives.hpp"
#include "sums.hpp"
#include <bwsl/HistAccumulator.hpp>

using H = bwsl::HistAccumulator;

const char* const pbt::rule =
  "Histories of additions, unit additions, forced additions (up to 40 bins beyond the end), resizes "
  "up and down, resets and copies over histograms of 0..30 bins, with real, integer and cancelling "
  "values; every bin, both lists and all counts compared with a model keeping exact sums. "
  "Non-trivial: at least three additions to at least two different bins of which one was added to "
  "more than once, or a resize or forced growth with content.";

struct Bin
{
  ref::ExactSum sum;
  unsigned long count = 0;
};

static void
compare(H const& h, std::vector<Bin> const& bins, unsigned long total, std::size_t norms = ~0UL)
{
  CHECK(h.GetNbins() == bins.size(), "bins " << h.GetNbins() << " expected " << bins.size());
  CHECK(h.GetCount() == total, "total count " << h.GetCount() << " expected " << total);
  auto r = h.GetResults();
  CHECK(r.size() == bins.size(), "list of " << r.size() << " results");
  for (std::size_t i = 0; i < bins.size(); ++i) {
    auto const& b = bins[i];
    CHECK(h.GetCount(i) == b.count, "count of bin " << i << " is " << h.GetCount(i) << " expected " << b.count);
    auto x = h.GetResult(i);
    CHECK(x == r[i], "list entry " << i << " is " << r[i] << " but the single result is " << x);
    if (b.count == 0) {
      CHECK(x == 0, "bin " << i << " received nothing but reports " << x);
      continue;
    }
    auto S = ref::value(b.sum.total), abs = ref::value(b.sum.abs), n = static_cast<long double>(b.count);
    auto want = S / static_cast<long double>(total);
    auto tol = (4 * ref::u * std::fabs(S) + 4 * (n + 1) * (n + 1) * ref::u * ref::u * abs) /
               static_cast<long double>(total);
    CHECK(std::fabs(x - want) <= tol + 1e-322L, "bin " << i << " reports " << x << " expected "
                                                       << double(want) << " (sum " << double(S)
                                                       << ", total count " << total << ")");
  }
  // normalised by each bin that has a result
  for (std::size_t k = 0; k < bins.size(); ++k) {
    auto norm = r[k];
    if (norm == 0 || std::fabs(norm) < 1e-150) continue;
    if (norms-- == 0) break;
    auto q = h.GetResults(k);
    CHECK(q.size() == r.size(), "normalised list of " << q.size());
    for (std::size_t i = 0; i < r.size(); ++i) {
      auto want = r[i] / norm;
      CHECK(q[i] == want || std::fabs(q[i] - want) <= 4 * ref::u * std::fabs(want),
            "normalised by bin " << k << ": entry " << i << " is " << q[i] << " expected " << want);
    }
  }
}

static void
wide(H const& h, std::vector<Bin> const& bins, unsigned long total)
{
  compare(h, bins, total, 2);
}

PBT_TEST(histogram, 15000, 800000, 0.3)
{
  auto n0 = c.s.urange(0, 12);
  H h;
  if (n0 > 0 || c.s.coin()) h = H(n0);
  std::vector<Bin> bins(n0);
  unsigned long total = 0;
  NOTE(n0 << " bins");
  std::size_t n = 0, resized = 0, adds = 0;
  auto style = c.s.index(4);
  // tiny or huge values
  auto const scale = style == 3 ? static_cast<int>(c.s.range(-960, 900)) : 0;
  auto value = [&]() -> double {
    if (style == 0) return static_cast<double>(c.s.range(-5, 20));
    if (style == 1) return c.s.real(-2, 2);
    if (style == 3) return std::ldexp(c.s.real(-1, 1), scale + static_cast<int>(c.s.range(-20, 20)));
    return std::ldexp(c.s.real(-1, 1), static_cast<int>(c.s.range(-50, 50)));
  };
  bool repeat = false, several = false;
  while (c.s.more(n, 25, 120)) {
    switch (c.s.index(11)) {
      case 10: {
        if (bins.empty()) break;
        auto i = c.s.index(bins.size()), j = c.s.index(bins.size());
        auto k = c.s.len(c.s.coin(1, 4) ? 2000 : 120);
        auto x = value();
        NOTE("add " << x << " alternating to bins " << i << " and " << j << ", " << k << " times");
        for (std::size_t q = 0; q < k; ++q) {
          auto at = q % 2 ? j : i;
          h.Add(at, x);
          bins[at].sum.add(x);
          ++bins[at].count;
        }
        total += k;
        adds += k;
        break;
      }
      case 0:
        if (c.s.coin(1, 3)) {
          NOTE("reset");
          h.Reset();
          for (auto& b : bins) b = Bin();
          total = 0;
        }
        break;
      case 1: {
        auto k = c.s.urange(0, 16);
        NOTE("resize to " << k);
        resized += total > 0;
        h.Resize(k);
        bins.resize(k);
        break;
      }
      case 2:
      case 3: {
        auto i = c.s.urange(0, bins.size() + (c.s.coin(1, 6) ? 40 : 3));
        auto unit = c.s.coin(1, 3);
        auto x = unit ? 1.0 : value();
        if (i >= bins.size()) {
          bins.resize(i + 1);
          resized += total > 0;
        }
        NOTE("forced add of " << x << " to bin " << i);
        if (unit) {
          h.ForceAdd(i);
        } else if (style == 0) {
          h.ForceAdd(i, static_cast<int>(x));
        } else {
          h.ForceAdd(i, x);
        }
        bins[i].sum.add(x);
        ++bins[i].count;
        ++total;
        ++adds;
        repeat = repeat || bins[i].count > 1;
        break;
      }
      case 4: {
        NOTE("copy");
        H a(h), b(std::move(a)), d(3);
        d.Add(1);
        d = b;
        h = d;
        break;
      }
      default: {
        if (bins.empty()) break;
        auto i = c.s.index(bins.size());
        auto unit = c.s.coin(1, 3);
        auto x = unit ? 1.0 : value();
        NOTE("add " << x << " to bin " << i);
        if (unit) {
          h.Add(i);
        } else if (style == 0) {
          h.Add(i, static_cast<long>(x));
        } else {
          h.Add(i, x);
        }
        bins[i].sum.add(x);
        ++bins[i].count;
        ++total;
        ++adds;
        repeat = repeat || bins[i].count > 1;
      }
    }
    std::size_t filled = 0;
    for (auto const& b : bins) filled += b.count > 0;
    several = several || filled > 1;
    if (c.s.coin(1, 3)) compare(h, bins, total);
  }
  compare(h, bins, total);
  c.nt((adds > 2 && several && repeat) || resized > 0);
  c.cls(resized > 0, "resized or grown with content");
}

PBT_TEST(long_histories, 300, 10000, 0.2)
{
  auto n0 = c.s.urange(1, 60);
  auto bulk = c.s.bulk();
  H h(n0);
  std::vector<Bin> bins(n0);
  unsigned long total = 0;
  auto n = c.s.urange(100, 6000);
  auto hot = c.s.coin() ? bulk.index(n0) : n0; // one bin gets most of the values
  auto forced = c.s.coin(1, 3);
  NOTE(n0 << " bins, " << n << " values" << (forced ? ", some beyond the end" : ""));
  c.nt();
  for (std::size_t i = 0; i < n; ++i) {
    auto at = hot < n0 && bulk.index(4) ? hot : bulk.index(n0);
    auto x = bulk.real(-2, 2);
    if (forced && bulk.index(200) == 0) {
      at = bins.size() + bulk.index(30);
      bins.resize(at + 1);
      h.ForceAdd(at, x);
    } else {
      h.Add(at, x);
    }
    bins[at].sum.add(x);
    ++bins[at].count;
    ++total;
  }
  compare(h, bins, total);
  if (c.s.coin()) {
    h.Reset();
    for (auto& b : bins) b = Bin();
    compare(h, bins, 0);
  }
}

PBT_TEST(wide_histograms, 40, 1500, 0.1)
{
  auto n0 = static_cast<std::size_t>(std::exp2(c.s.coin(1, 8) ? c.s.real(20, 22) : c.s.real(8, 18)));
  auto bulk = c.s.bulk();
  H h(c.s.coin() ? n0 : 0);
  std::vector<Bin> bins(h.GetNbins());
  unsigned long total = 0;
  NOTE("bins up to about " << n0 << ", " << bins.size() << " at first");
  c.nt();
  auto n = c.s.urange(1, 300);
  for (std::size_t i = 0; i < n; ++i) {
    auto at = bulk.uedgy(0, n0 - 1);
    auto unit = bulk.index(3) == 0;
    auto x = unit ? 1.0 : bulk.real(-2, 2);
    if (at >= bins.size()) {
      bins.resize(at + 1);
      if (unit) {
        h.ForceAdd(at);
      } else {
        h.ForceAdd(at, x);
      }
    } else if (unit) {
      h.Add(at);
    } else {
      h.Add(at, x);
    }
    bins[at].sum.add(x);
    ++bins[at].count;
    ++total;
    if (bulk.index(100) == 0) {
      auto k = bulk.index(n0 + n0 / 3);
      h.Resize(k);
      bins.resize(k);
    }
  }
  wide(h, bins, total);
  if (c.s.coin()) {
    h.Reset();
    for (auto& b : bins) b = Bin();
    wide(h, bins, 0);
  }
}

PBT_TEST(huge_histories, 6, 40, 0.05)
{
  H h(3);
  std::vector<Bin> bins(3);
  unsigned long total = 0;
  c.nt();
  for (std::size_t i = 0; i < 3; ++i) {
    auto k = (1UL << 24) / 3 + c.s.urange(1, 12000000);
    auto x = c.s.coin() ? 1.0 : c.s.real(-2, 2);
    NOTE(k << " times " << x << " into bin " << i);
    for (std::size_t q = 0; q < k; ++q) h.Add(i, x);
    bins[i].sum.add(x, k);
    bins[i].count += k;
    total += k;
  }
  compare(h, bins, total);
}

PBT_TEST(large_counts, 4000, 200000, 0.3)
{
  H a(3), h;
  std::vector<Bin> bins(3);
  auto x = c.s.dyadic(20, -10, 10), y = c.s.dyadic(20, -10, 10);
  for (int i = 0; i < 717; ++i) a.Add(0, x);
  for (int i = 0; i < 1931; ++i) a.Add(2, y);
  auto n0 = arc::count(c.s, 1, ULONG_MAX / 4), n2 = arc::count(c.s, 1, ULONG_MAX / 4);
  auto text = arc::saved(a);
  DISCARD_IF(!arc::replace(text, { { "717", std::to_string(n0) },
                                   { "1931", std::to_string(n2) },
                                   { "2648", std::to_string(n0 + n2) } }));
  NOTE("sums of 717 times " << x << " and 1931 times " << y << " restored with counts " << n0 << " and "
                            << n2);
  if (c.s.coin()) h = H(2);
  arc::restore(h, text);
  c.nt(x != y);
  bins[0].sum.add(x, 717);
  bins[0].count = n0;
  bins[2].sum.add(y, 1931);
  bins[2].count = n2;
  auto total = n0 + n2;
  auto steps = c.s.urange(0, 9);
  for (std::size_t i = 0;; ++i) {
    compare(h, bins, total);
    if (i == steps) break;
    auto at = c.s.index(3);
    h.Add(at, x);
    bins[at].sum.add(x);
    ++bins[at].count;
    ++total;
  }
}
