// check: factor=3
// check: cpu=60
// check: fuzz_runs=800
// check: max_len=400
#include "pbt.hpp"
#include <bwsl/MathUtils.hpp>
#include <deque>

const char* const pbt::rule =
  "Weight vectors (1..60 entries of float, double and long double in vectors, deques and arrays; zeros in any place, "
  "single entries, 40 orders of magnitude, tame ones of any scale, subnormal) with pseudo-random, extreme (always the smallest, "
  "always the largest, alternating) and one-bit generators; frequencies judged over up to 60000 draws "
  "at eight standard deviations plus twelve; vectors of up to 140000 weights, few positive ones or blocks of growing weight. Non-trivial: at least two positive weights and a zero "
  "weight, or a frequency check with probabilities strictly between 0 and 1.";

namespace {

/// Generators to choose from behind one interface of a given width
template<class R>
struct Engine
{
  using result_type = R;
  int kind = 0;
  std::mt19937_64 g{};
  std::uint64_t k = 0;
  static constexpr R min() { return 0; }
  static constexpr R max() { return std::numeric_limits<R>::max(); }
  R operator()()
  {
    ++k;
    switch (kind) {
      case 0:
        return static_cast<R>(g());
      case 1:
        return min();
      case 2:
        return max();
      case 3:
        return k % 2 ? min() : max();
      case 4:
        return k % 2 ? max() : min();
      default:
        return max() / 2;
    }
  }
};

struct Bit
{
  using result_type = unsigned;
  std::mt19937_64 g{};
  static constexpr unsigned min() { return 0; }
  static constexpr unsigned max() { return 1; }
  unsigned operator()() { return g() >> 63; }
};

template<class T>
std::vector<T>
weights(pbt::Ctx& c, bool tame)
{
  std::vector<T> w;
  auto n = c.s.urange(1, c.s.coin(1, 4) ? 60 : 6);
  auto style = c.s.index(tame ? 3 : 5);
  auto zeros = c.s.urange(0, 3);
  bool positive = false;
  for (auto i = 0UL; i < n; ++i) {
    T x = 0;
    if (c.s.raw(3) >= zeros) {
      switch (style) {
        case 0:
          x = static_cast<T>(c.s.urange(1, 8));
          break;
        case 1:
          x = static_cast<T>(c.s.real(0, 1));
          break;
        case 2:
          x = static_cast<T>(std::ldexp(1.0, static_cast<int>(c.s.range(-8, 8))));
          break;
        case 3:
          x = static_cast<T>(std::ldexp(1.0 + c.s.real(0, 1), static_cast<int>(c.s.range(-66, 66))));
          break;
        default:
          x = std::numeric_limits<T>::denorm_min() * static_cast<T>(c.s.urange(0, 5));
      }
    }
    c.s.fold_double(static_cast<double>(x));
    positive = positive || x > 0;
    w.push_back(x);
  }
  // all of them tiny or huge
  if (tame && c.s.coin(1, 4)) {
    auto const e = std::is_same<T, float>::value ? static_cast<int>(c.s.range(-100, 100)) : static_cast<int>(c.s.range(-950, 990));
    for (auto& x : w) x = std::ldexp(x, e);
  }
  if (!positive) w[c.s.index(n)] = style == 4 ? std::numeric_limits<T>::denorm_min() : T(1);
  NOTE("weights " << pbt::show(w));
  return w;
}

template<class T, class C, class P, class G>
void
draws(pbt::Ctx& c, std::vector<T> const& w, C const& cw, P const& ps, G g, std::size_t n, bool judge)
{
  std::vector<std::size_t> count(w.size());
  for (auto i = 0UL; i < n; ++i) {
    auto h = g;
    auto k = bwsl::choose_between(cw, g);
    CHECK(k < w.size(), "draw " << i << " chooses " << k << " of " << w.size());
    CHECK(w[k] > 0, "draw " << i << " chooses " << k << " which has no weight");
    ++count[k];
    if (i < 40 || i % 64 == 0) {
      auto j = bwsl::choose_between_psums(ps, h);
      CHECK(j == k, "draw " << i << " chooses " << j << " from the cumulative weights, " << k
                            << " from the weights");
      CHECK(g() == h(), "the generators are left in different states");
    }
  }
  if (!judge) return;
  long double sum = 0;
  for (auto x : w) sum += static_cast<long double>(x);
  for (auto k = 0UL; k < w.size(); ++k) {
    auto p = static_cast<long double>(w[k]) / sum;
    auto mean = static_cast<long double>(n) * p;
    auto tol = 8 * std::sqrt(mean * (1 - p)) + 12;
    CHECK(std::fabs(static_cast<long double>(count[k]) - mean) <= tol,
          "index " << k << " of weight " << double(w[k]) << "/" << double(sum) << " was chosen "
                   << count[k] << " times in " << n << ", expected " << double(mean) << "+-" << double(tol));
  }
}

template<class T>
void
between(pbt::Ctx& c, bool frequency)
{
  auto w = weights<T>(c, frequency);
  std::vector<T> ps = w;
  for (auto i = 1UL; i < ps.size(); ++i) ps[i] = ps[i - 1] + w[i];
  auto positive = std::count_if(w.begin(), w.end(), [](T x) { return x > 0; });
  auto n = frequency ? c.s.urange(200, 60000) : 40;
  auto seed = c.s.urange(0, ~0ULL);
  if (frequency) {
    c.nt(positive > 1);
    NOTE(n << " draws, seed " << seed);
    if (c.s.coin()) {
      std::mt19937_64 g(seed);
      draws(c, w, w, ps, g, n / 4, true);
      Engine<std::uint32_t> e{ 0, g, 0 };
      draws(c, w, w, ps, e, n, true);
    } else {
      Engine<std::uint64_t> e{ 0, std::mt19937_64(seed), 0 };
      draws(c, w, w, ps, e, n, true);
    }
    return;
  }
  c.nt(positive > 1 && static_cast<std::size_t>(positive) < w.size());
  auto kind = static_cast<int>(c.s.index(6));
  auto width = c.s.index(5);
  NOTE("generator kind " << kind << " width " << width);
  switch (width) {
    case 0:
      draws(c, w, w, ps, Engine<std::uint64_t>{ kind, std::mt19937_64(seed), 0 }, n, false);
      break;
    case 1:
      draws(c, w, w, ps, Engine<std::uint32_t>{ kind, std::mt19937_64(seed), 0 }, n, false);
      break;
    case 2: {
      Engine<std::uint64_t> e{ kind, std::mt19937_64(seed), 0 };
      std::deque<T> dw(w.begin(), w.end()), dp(ps.begin(), ps.end());
      draws(c, w, dw, dp, e, n, false);
      break;
    }
    case 3: {
      w.resize(4, 0);
      if (*std::max_element(w.begin(), w.end()) <= 0) w[2] = 1;
      ps = w;
      for (auto i = 1UL; i < ps.size(); ++i) ps[i] = ps[i - 1] + w[i];
      std::array<T, 4> aw{}, ap{};
      std::copy(w.begin(), w.end(), aw.begin());
      std::copy(ps.begin(), ps.end(), ap.begin());
      draws(c, w, aw, ap, Engine<std::uint32_t>{ kind, std::mt19937_64(seed), 0 }, n, false);
      break;
    }
    default:
      draws(c, w, w, ps, Bit{ std::mt19937_64(seed) }, n, false);
  }
}

template<class T>
void
probability(pbt::Ctx& c)
{
  // rare events need many draws
  auto rare = c.s.coin(1, 3);
  auto q = rare ? std::pow(10.0, -c.s.real(1, 4.5)) : 0.0;
  auto p = static_cast<T>(rare ? (c.s.coin(1, 3) ? 1 - q : q) : c.s.coin(1, 3) ? static_cast<double>(c.s.urange(0, 1)) : c.s.real(0, 1));
  auto seed = c.s.urange(0, ~0ULL);
  auto n = rare ? static_cast<std::uint64_t>(400 / q) : c.s.urange(200, 30000);
  NOTE("probability " << double(p) << ", " << n << " draws, seed " << seed);
  c.nt(p > 0 && p < 1);
  std::mt19937_64 g(seed);
  std::mt19937 h(static_cast<std::uint32_t>(seed));
  for (int which = 0; which < 2; ++which) {
    std::size_t yes = 0;
    for (auto i = 0UL; i < n; ++i) {
      bool b = which ? bwsl::choose_with_probability(p, h) : bwsl::choose_with_probability(p, g);
      yes += b;
    }
    if (p == 0) CHECK(yes == 0, "true " << yes << " times with probability 0");
    if (p == 1) CHECK(yes == n, "false " << n - yes << " times with probability 1");
    auto mean = static_cast<long double>(n) * static_cast<long double>(p);
    auto tol = 8 * std::sqrt(mean * (1 - static_cast<long double>(p))) + 12;
    CHECK(std::fabs(static_cast<long double>(yes) - mean) <= tol, "true " << yes << " times in " << n
                                                                           << ", expected " << double(mean)
                                                                           << "+-" << double(tol));
  }
  for (int kind = 0; kind < 6; ++kind) {
    Engine<std::uint64_t> e{ kind, std::mt19937_64(seed), 0 };
    Engine<std::uint32_t> f{ kind, std::mt19937_64(seed), 0 };
    for (int i = 0; i < 6; ++i) {
      CHECK(!bwsl::choose_with_probability(T(0), e) && !bwsl::choose_with_probability(T(0), f),
            "true with probability 0 and generator " << kind);
      CHECK(bwsl::choose_with_probability(T(1), e) && bwsl::choose_with_probability(T(1), f),
            "false with probability 1 and generator " << kind);
    }
  }
}

} // namespace

PBT_TEST(extreme, 20000, 600000, 0.3)
{
  switch (c.s.index(3)) {
    case 0:
      return between<double>(c, false);
    case 1:
      return between<float>(c, false);
    default:
      return between<long double>(c, false);
  }
}

// more weights than 16-bit numbers
PBT_TEST(long_vectors, 60, 4000, 0.1)
{
  auto n = c.s.coin(1, 8) ? c.s.urange(1000000, 2200000) : c.s.urange(1000, 140000);
  std::vector<double> w(n, 0.0);
  auto seed = c.s.urange(0, ~0ULL);
  std::mt19937_64 g(seed);
  c.nt();
  c.cls(n > 65536, "more than 65536 weights");
  if (c.s.coin()) {
    auto k = c.s.urange(1, 4);
    for (auto i = 0UL; i < k; ++i) w[c.s.coin(1, 3) ? n - 1 - c.s.index(3) : c.s.index(n)] += static_cast<double>(c.s.urange(1, 4));
    NOTE(n << " weights, " << k << " of them positive, seed " << seed);
    std::vector<double> ps(n);
    std::partial_sum(w.begin(), w.end(), ps.begin());
    draws(c, w, w, ps, g, 30, false);
    return;
  }
  auto block = n / c.s.urange(2, 16) + 1;
  NOTE(n << " weights growing in steps of " << block << ", seed " << seed);
  std::vector<std::size_t> count(n / block + 1);
  std::vector<double> want(count.size());
  double sum = 0;
  for (auto i = 0UL; i < n; ++i) {
    w[i] = static_cast<double>(1 + i / block);
    want[i / block] += w[i];
    sum += w[i];
  }
  std::vector<double> ps(n);
  std::partial_sum(w.begin(), w.end(), ps.begin());
  // also for a search that looks at one sum after the other
  const int m = static_cast<int>(std::min(20000UL, std::max(800UL, 300000000UL / n)));
  for (int i = 0; i < m; ++i) {
    auto h = g;
    auto k = bwsl::choose_between_psums(ps, g);
    CHECK(k < n, "draw " << i << " chooses " << k << " of " << n);
    if (i % (n > 200000 ? 5000 : 500) == 0) CHECK(bwsl::choose_between(w, h) == k, "the weights give another choice than their sums");
    ++count[k / block];
  }
  for (auto b = 0UL; b < count.size(); ++b) {
    auto p = want[b] / sum;
    CHECK(std::fabs(static_cast<double>(count[b]) - m * p) <= 8 * std::sqrt(m * p * (1 - p)) + 12,
          "block " << b << " was chosen " << count[b] << " times in " << m << ", expected " << m * p);
  }
}

PBT_TEST(frequencies, 400, 20000, 0.05)
{
  switch (c.s.index(3)) {
    case 0:
      return between<double>(c, true);
    case 1:
      return between<float>(c, true);
    default:
      return between<long double>(c, true);
  }
}

PBT_TEST(probabilities, 400, 20000, 0.05)
{
  switch (c.s.index(3)) {
    case 0:
      return probability<double>(c);
    case 1:
      return probability<float>(c);
    default:
      return probability<long double>(c);
  }
}
