// check: factor=4
// check: fuzz_runs=1500
// check: max_len=400
#include "pbt.hpp"
#include <bwsl/MathUtils.hpp>
#include <deque>

const char* const pbt::rule =
  "Sorted sequences (vectors, deques, plain arrays and bounds-checking iterators over short, int, long, "
  "unsigned, unsigned long, float, double and long double) of lengths 0..80, around the threshold of 10000, up to 60000, and above 10^6, "
  "with uniform, geometric, clustered, duplicated and outlier-ridden spacing; queried at elements, at "
  "their floating-point neighbours, between them and outside, against a counting definition of the "
  "bound; plus computed sequences of up to 2^50 elements with a closed form. Non-trivial: the length exceeds the threshold and the answer is neither end.";

namespace {

/// Random-access iterator that refuses to leave [begin, end] or to read the end
template<class T>
struct Checked
{
  using iterator_category = std::random_access_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;

  T const* data = nullptr;
  difference_type n = 0, at = 0;

  void in() const
  {
    if (at < 0 || at > n)
      throw pbt::Failure{ "the iterator leaves the sequence: position " + std::to_string(at) + " of " +
                          std::to_string(n) };
  }
  reference operator*() const
  {
    if (at < 0 || at >= n)
      throw pbt::Failure{ "element " + std::to_string(at) + " of " + std::to_string(n) + " is read" };
    return data[at];
  }
  pointer operator->() const { return &**this; }
  reference operator[](difference_type k) const { return *(*this + k); }
  Checked& operator+=(difference_type k)
  {
    at += k;
    in();
    return *this;
  }
  Checked& operator-=(difference_type k) { return *this += -k; }
  Checked& operator++() { return *this += 1; }
  Checked& operator--() { return *this += -1; }
  Checked operator++(int)
  {
    auto t = *this;
    ++*this;
    return t;
  }
  Checked operator--(int)
  {
    auto t = *this;
    --*this;
    return t;
  }
  friend Checked operator+(Checked a, difference_type k) { return a += k; }
  friend Checked operator+(difference_type k, Checked a) { return a += k; }
  friend Checked operator-(Checked a, difference_type k) { return a -= k; }
  friend difference_type operator-(Checked const& a, Checked const& b) { return a.at - b.at; }
  friend bool operator==(Checked const& a, Checked const& b) { return a.at == b.at; }
  friend bool operator!=(Checked const& a, Checked const& b) { return a.at != b.at; }
  friend bool operator<(Checked const& a, Checked const& b) { return a.at < b.at; }
  friend bool operator>(Checked const& a, Checked const& b) { return a.at > b.at; }
  friend bool operator<=(Checked const& a, Checked const& b) { return a.at <= b.at; }
  friend bool operator>=(Checked const& a, Checked const& b) { return a.at >= b.at; }
};

/// Iterator over a sequence that is computed instead of stored: blocks of r
/// equal numbers, element i being i minus i modulo r.
struct Virtual
{
  using iterator_category = std::random_access_iterator_tag;
  using value_type = double;
  using difference_type = std::ptrdiff_t;
  using pointer = double const*;
  using reference = double;

  difference_type n = 0, r = 1, at = 0;

  reference operator*() const
  {
    if (at < 0 || at >= n)
      throw pbt::Failure{ "element " + std::to_string(at) + " of " + std::to_string(n) + " is read" };
    return static_cast<double>(at - at % r);
  }
  reference operator[](difference_type k) const { return *(*this + k); }
  Virtual& operator+=(difference_type k)
  {
    at += k;
    if (at < 0 || at > n)
      throw pbt::Failure{ "the iterator leaves the sequence: position " + std::to_string(at) + " of " +
                          std::to_string(n) };
    return *this;
  }
  Virtual& operator-=(difference_type k) { return *this += -k; }
  Virtual& operator++() { return *this += 1; }
  Virtual& operator--() { return *this += -1; }
  Virtual operator++(int)
  {
    auto t = *this;
    ++*this;
    return t;
  }
  Virtual operator--(int)
  {
    auto t = *this;
    --*this;
    return t;
  }
  friend Virtual operator+(Virtual a, difference_type k) { return a += k; }
  friend Virtual operator+(difference_type k, Virtual a) { return a += k; }
  friend Virtual operator-(Virtual a, difference_type k) { return a -= k; }
  friend difference_type operator-(Virtual const& a, Virtual const& b) { return a.at - b.at; }
  friend bool operator==(Virtual const& a, Virtual const& b) { return a.at == b.at; }
  friend bool operator!=(Virtual const& a, Virtual const& b) { return a.at != b.at; }
  friend bool operator<(Virtual const& a, Virtual const& b) { return a.at < b.at; }
  friend bool operator>(Virtual const& a, Virtual const& b) { return a.at > b.at; }
  friend bool operator<=(Virtual const& a, Virtual const& b) { return a.at <= b.at; }
  friend bool operator>=(Virtual const& a, Virtual const& b) { return a.at >= b.at; }
};

template<class T>
T
limit()
{
  return std::numeric_limits<T>::max() / 4;
}

template<class T>
T
clamp(double x)
{
  auto lim = static_cast<double>(limit<T>());
  auto lo = std::is_unsigned<T>::value ? 0.0 : -lim;
  x = std::min(std::max(x, lo), lim);
  auto t = static_cast<T>(x);
  return t > limit<T>() ? limit<T>() : t;
}

template<class T>
std::vector<T>
sorted(pbt::Ctx& c, std::size_t n)
{
  auto shape = c.s.index(7);
  auto b = c.s.bulk();
  auto scale = c.s.oneof({ 1.0, 10.0, 1e3, 1e6, 1e12, 1e-3 });
  if (!std::is_floating_point<T>::value) scale = std::max(scale, 1.0);
  auto distinct = c.s.urange(1, 40);
  static const char* names[] = { "uniform", "ramp", "duplicates", "geometric", "clusters", "outlier", "tiny" };
  NOTE("shape " << names[shape] << " scale " << scale << " distinct " << distinct);
  std::vector<T> v(n);
  auto unit = [&] { return std::ldexp(static_cast<double>(b.raw((1ULL << 53) - 1)), -53); };
  for (auto i = 0UL; i < n; ++i) {
    double x = 0;
    switch (shape) {
      case 0:
        x = (unit() - 0.5) * scale;
        break;
      case 1:
        x = static_cast<double>(i) * scale / 8;
        break;
      case 2:
        x = static_cast<double>(b.raw(distinct)) * scale;
        break;
      case 3:
        x = std::exp((unit() - 0.3) * 60) * (b.raw(1) ? 1 : -1);
        break;
      case 4:
        x = static_cast<double>(b.raw(distinct)) * scale + unit() * scale * 1e-3;
        break;
      case 5:
        x = i == 0 ? -1e30 : i + 1 == n ? 1e30 : i + 2 == n ? 1e18 : unit() * scale;
        break;
      default:
        x = static_cast<double>(b.raw(2000)) * 5e-324 * static_cast<double>(b.raw(distinct));
    }
    v[i] = clamp<T>(x);
  }
  std::sort(v.begin(), v.end());
  return v;
}

template<class T, class V>
void
query(pbt::Ctx& c, std::vector<T> const& v, V x)
{
  // counting definition of the bound
  auto want = 0UL;
  {
    auto lo = 0UL, hi = v.size();
    while (lo < hi) {
      auto m = (lo + hi) / 2;
      if (x < v[m]) {
        hi = m;
      } else {
        lo = m + 1;
      }
    }
    want = lo;
  }
  if (want > 0 && x < v[want - 1]) throw pbt::Failure{ "harness: bad reference" };
  NOTE("query " << x << " expected position " << want << " of " << v.size());
  c.nt(v.size() > 10000 && want > 0 && want < v.size());
  Checked<T> first{ v.data(), static_cast<long>(v.size()), 0 };
  auto last = first;
  last.at = last.n;
  auto r = bwsl::upper_bound(first, last, x);
  CHECK(r.at == static_cast<long>(want), "position " << r.at << " expected " << want << " for value " << x
                                                     << " in a sequence of " << v.size());
  auto p = bwsl::upper_bound(v.begin(), v.end(), x) - v.begin();
  CHECK(p == static_cast<long>(want), "position " << p << " expected " << want << " through vector iterators");
  auto q = bwsl::upper_bound(v.data(), v.data() + v.size(), x) - v.data();
  CHECK(q == static_cast<long>(want), "position " << q << " expected " << want << " through pointers");
}

template<class T>
T
neighbour(T x, int d)
{
  if constexpr (std::is_floating_point<T>::value) {
    return std::nextafter(x, d > 0 ? limit<T>() : -limit<T>());
  } else {
    if (std::is_unsigned<T>::value && x == 0 && d < 0) return x;
    return static_cast<T>(x + static_cast<T>(d));
  }
}

template<class T>
void
search(pbt::Ctx& c, int large)
{
  std::size_t n = large > 1 ? c.s.urange(1000001, 3000000) : large ? (c.s.coin() ? c.s.urange(9995, 10010) : c.s.urange(10001, 60000)) : c.s.len(80);
  NOTE("length " << n);
  auto v = sorted<T>(c, n);
  if (!large) NOTE(pbt::show(v));
  std::deque<T> d(v.begin(), v.end());
  auto queries = c.s.urange(1, large > 1 ? 3 : large ? 12 : 6);
  for (auto k = 0UL; k < queries; ++k) {
    T x{};
    if (n == 0) {
      x = clamp<T>(c.s.finite());
    } else {
      auto i = c.s.coin(1, 3) ? (c.s.coin() ? c.s.urange(0, std::min<std::size_t>(3, n - 1))
                                            : n - 1 - c.s.urange(0, std::min<std::size_t>(3, n - 1)))
                              : c.s.index(n);
      switch (c.s.index(8)) {
        case 0:
        case 1:
          x = v[i];
          break;
        case 2:
          x = neighbour(v[i], 1);
          break;
        case 3:
          x = neighbour(v[i], -1);
          break;
        case 4:
          x = static_cast<T>(v[i] + (v[std::min(i + 1, n - 1)] - v[i]) / 2);
          break;
        case 5:
          x = static_cast<T>(v[0] + (v[n - 1] - v[0]) / 16 * static_cast<T>(c.s.index(17)));
          break;
        case 6:
          x = clamp<T>(c.s.finite());
          break;
        default:
          x = c.s.coin() ? limit<T>() : clamp<T>(-1e300);
      }
    }
    query(c, v, x);
    auto r = bwsl::upper_bound(d.begin(), d.end(), x) - d.begin();
    CHECK(r == std::upper_bound(v.begin(), v.end(), x) - v.begin(),
          "position " << r << " through deque iterators for " << x);
    if constexpr (std::is_same<T, double>::value) {
      // a value of another type
      query(c, v, static_cast<int>(c.s.range(-2000, 2000)));
    } else if (n > 0) {
      // a real value, between or next to the elements
      auto y = static_cast<double>(v[c.s.index(n)]);
      switch (c.s.index(4)) {
        case 0:
          y += c.s.oneof({ 0.5, -0.5, 0.25, -0.75 });
          break;
        case 1:
          y = std::nextafter(y, c.s.coin() ? 1e300 : -1e300);
          break;
        case 2:
          y += c.s.real(-3, 3);
          break;
        default:
          y = std::min(std::max(c.s.finite(), -1e18), 1e18);
      }
      query(c, v, y);
      if constexpr (std::is_same<T, int>::value) {
        query(c, v, c.s.coin() ? static_cast<long>(x) : c.s.edgy(-(1L << 60), 1L << 60));
      }
    }
  }
}

void
any(pbt::Ctx& c, int large)
{
  switch (c.s.index(large ? 9 : 8)) {
    case 1:
      return search<float>(c, large);
    case 2:
      return search<int>(c, large);
    case 3:
      return search<long>(c, large);
    case 4:
      return search<unsigned long>(c, large);
    case 5:
      return search<long double>(c, large);
    case 6:
      return search<short>(c, large);
    case 7:
      return search<unsigned>(c, large);
    default:
      return search<double>(c, large);
  }
}

} // namespace

PBT_TEST(small, 40000, 1000000, 0.2)
{
  any(c, 0);
}

PBT_TEST(threshold, 1500, 60000, 0.2)
{
  any(c, 1);
  c.cls("around or above the threshold");
}

PBT_TEST(millions, 60, 1500, 0.05)
{
  any(c, 2);
  c.cls("more than a million elements");
}

PBT_TEST(computed_sequences, 4000, 200000, 0.2)
{
  auto n = static_cast<long>(c.s.coin(1, 3) ? c.s.urange(1, 30000)
                                            : c.s.urange(1, 1UL << c.s.urange(14, 50)));
  auto r = static_cast<long>(c.s.coin() ? 1 : c.s.urange(1, c.s.coin() ? 5000 : 20));
  NOTE(n << " elements in blocks of " << r);
  Virtual first{ n, r, 0 }, last{ n, r, n };
  for (int k = 0; k < 4; ++k) {
    auto b = static_cast<long>(c.s.coin(1, 4) ? c.s.uedgy(0, 3) : c.s.urange(0, static_cast<std::uint64_t>(n / r + 1)));
    if (c.s.coin(1, 4)) b = n / r - b;
    auto x = static_cast<double>(b * r);
    auto want = b < 0 ? 0 : std::min(n, (b + 1) * r);
    switch (c.s.index(4)) {
      case 0:
        x += 0.5;
        break;
      case 1:
        x -= 0.5;
        want = b < 1 ? 0 : std::min(n, b * r);
        break;
      default:;
    }
    NOTE("value " << x);
    auto got = bwsl::upper_bound(first, last, x).at;
    CHECK(got == want, "position " << got << " expected " << want << " for " << x);
    c.nt(n > 10001 && want > 0 && want < n);
    c.cls(n > (1L << 32), "more than 2^32 elements");
  }
}
