// check: factor=8
// check: san_factor=5
// check: fuzz_runs=60000
#include "sums.hpp"
#include <bwsl/MathUtils.hpp>
#include <deque>
#include <list>
#include <vector>

using ref::quad;
using wide = __int128;

const char* const pbt::rule =
  "Vectors, deques, lists and arrays of int, long, unsigned long, float and double with 0..40 elements, "
  "empty ones included, whose sums and products are exact by construction (small integers and dyadic "
  "fractions); results compared with 128-bit integer arithmetic in units of 2^-8; "
  "results in types wider than the elements, elements of all magnitudes including the extreme ones of "
  "their type, and containers of 1000..100000 elements. Non-trivial: at least "
  "three elements of which two differ.";

namespace {

/// Elements are k/scale, so that all exact results are multiples of 1/scale^2
template<class T>
struct Elements
{
  std::vector<T> v;
  std::vector<wide> k;
  int scale = 1;
};

template<class T>
Elements<T>
elements(pbt::Ctx& c, std::size_t n, int bits)
{
  Elements<T> e;
  e.scale = std::is_floating_point<T>::value && c.s.coin() ? 16 : 1;
  auto lim = (1L << bits) - 1;
  for (auto i = 0UL; i < n; ++i) {
    auto x = c.s.edgy(std::is_unsigned<T>::value ? 0 : -lim, lim);
    e.k.push_back(x);
    e.v.push_back(static_cast<T>(x) / static_cast<T>(e.scale));
  }
  NOTE("elements " << pbt::show(e.v));
  return e;
}

template<class C>
auto
vec(C const& x)
{
  return std::vector<typename C::value_type>(x.begin(), x.end());
}

template<class C, class T = typename C::value_type>
void
reductions(pbt::Ctx& c, C const& x, Elements<T> const& e)
{
  auto n = e.v.size();
  wide sum = 0, sq = 0;
  for (auto k : e.k) {
    sum += k;
    sq += k * k;
  }
  auto copy = vec(x);
  auto s = bwsl::accumulate_sum(x);
  CHECK(quad(s) * e.scale == quad(sum), "sum " << s << " expected " << double(quad(sum) / e.scale));
  auto s2 = bwsl::accumulate_sum<C, double>(x);
  CHECK(quad(s2) * e.scale == quad(sum), "sum in double " << s2);
  auto q = bwsl::sum_squared<C, T>(x);
  auto want = quad(sq) / (e.scale * e.scale);
  CHECK(quad(q) == want, "sum of squares " << q << " expected " << double(want));
  auto q2 = bwsl::sum_squared<C, double>(x);
  CHECK(quad(q2) == want, "sum of squares in double " << q2 << " expected " << double(want));
  auto norm = bwsl::l2norm(x);
  auto eps = std::is_same<T, float>::value ? 1.2e-7 : 2.3e-16;
  auto root = std::sqrt(static_cast<long double>(want));
  CHECK(std::fabs(norm - root) <= eps * root, "norm " << norm << " expected " << double(root));
  if (n > 0) {
    auto big = bwsl::max(x), small = bwsl::min(x);
    CHECK(big == *std::max_element(e.v.begin(), e.v.end()), "maximum " << big);
    CHECK(small == *std::min_element(e.v.begin(), e.v.end()), "minimum " << small);
  }
  CHECK(copy == vec(x), "the container was modified");
  c.cls(n == 0, "empty container");
}

template<class C, class T = typename C::value_type>
void
products(pbt::Ctx& c, C const& x, Elements<T> const& e)
{
  quad p = 1;
  for (auto v : e.v) p *= quad(v);
  auto got = bwsl::accumulate_product(x);
  CHECK(quad(got) == p, "product " << got << " expected " << double(p));
  auto d = bwsl::accumulate_product<C, double>(x);
  CHECK(quad(d) == p, "product in double " << d << " expected " << double(p));
  c.cls(p == 0, "zero product");
}

template<class C, class T = typename C::value_type>
void
updates(C x, C y)
{
  auto a = vec(x), b = vec(y);
  auto n = a.size();
  std::vector<T> sum(n), diff(n), neg(n);
  for (auto i = 0UL; i < n; ++i) {
    sum[i] = static_cast<T>(a[i] + b[i]);
    diff[i] = static_cast<T>(a[i] - b[i]);
    neg[i] = static_cast<T>(-a[i]);
  }
  auto l = x;
  auto& r = bwsl::sum_into(l, y);
  CHECK(&r == &l, "sum_into does not return its left argument");
  CHECK(vec(l) == sum, "sum_into gives " << pbt::show(l) << " expected " << pbt::show(sum));
  CHECK(vec(y) == b, "sum_into changes the right argument");
  bool ok = true;
  if (std::is_unsigned<T>::value)
    for (auto i = 0UL; i < n; ++i) ok = ok && !(a[i] < b[i]);
  if (ok) {
    l = x;
    auto& s = bwsl::subtract_into(l, y);
    CHECK(&s == &l, "subtract_into does not return its left argument");
    CHECK(vec(l) == diff, "subtract_into gives " << pbt::show(l) << " expected " << pbt::show(diff));
    CHECK(vec(y) == b, "subtract_into changes the right argument");
  }
  if (std::is_unsigned<T>::value) return;
  auto m = bwsl::get_inverted(x);
  CHECK(vec(m) == neg, "get_inverted gives " << pbt::show(m) << " expected " << pbt::show(neg));
  CHECK(vec(x) == a, "get_inverted changes its argument");
  auto same = x;
  bwsl::sum_into(same, same);
  for (auto k = 0UL; k < n; ++k) diff[k] = static_cast<T>(a[k] + a[k]);
  CHECK(vec(same) == diff, "a container added to itself gives " << pbt::show(same));
  bwsl::subtract_into(same, same);
  CHECK(vec(same) == std::vector<T>(n, T(0)), "a container subtracted from itself gives " << pbt::show(same));
  auto& i = bwsl::invert(x);
  CHECK(&i == &x, "invert does not return its argument");
  CHECK(vec(x) == neg, "invert gives " << pbt::show(x) << " expected " << pbt::show(neg));
}

template<class T>
void
containers(pbt::Ctx& c)
{
  bool array = c.s.coin(1, 4);
  auto n = array ? 5 : c.s.len(40);
  auto e = elements<T>(c, n, std::is_same<T, float>::value ? 9 : 11);
  bool distinct = false;
  for (auto& x : e.v) distinct = distinct || x != e.v[0];
  c.nt(n >= 3 && distinct);
  auto f = elements<T>(c, n, 10);
  // few factors, so that the product is exact
  auto p = e;
  if (!array && n > 5) {
    p.v.resize(c.s.urange(0, 5));
    p.k.resize(p.v.size());
  }
  {
    auto m = std::is_same<T, int>::value || std::is_same<T, float>::value ? 16 : 1024;
    for (auto i = 0UL; i < p.v.size(); ++i) {
      p.k[i] %= m;
      p.v[i] = static_cast<T>(static_cast<long>(p.k[i])) / static_cast<T>(p.scale);
    }
  }
  if (c.s.coin(1, 3)) {
    // many factors, almost all of them one
    for (auto i = 0UL; i < c.s.urange(0, 20) && !array; ++i) {
      p.v.push_back(T(1));
      p.k.push_back(p.scale);
    }
  }
  switch (array ? 3 : c.s.index(3)) {
    case 0: {
      reductions(c, e.v, e);
      products(c, p.v, p);
      updates(e.v, f.v);
      break;
    }
    case 1: {
      using C = std::conditional_t<std::is_same<T, int>::value || std::is_same<T, float>::value, std::vector<T>, std::deque<T>>;
      reductions(c, C(e.v.begin(), e.v.end()), e);
      products(c, C(p.v.begin(), p.v.end()), p);
      updates(C(e.v.begin(), e.v.end()), C(f.v.begin(), f.v.end()));
      break;
    }
    case 2: {
      using C = std::conditional_t<std::is_same<T, long>::value || std::is_same<T, float>::value, std::vector<T>, std::list<T>>;
      reductions(c, C(e.v.begin(), e.v.end()), e);
      products(c, C(p.v.begin(), p.v.end()), p);
      updates(C(e.v.begin(), e.v.end()), C(f.v.begin(), f.v.end()));
      break;
    }
    default: {
      std::array<T, 5> a{}, b{}, d{};
      std::copy(e.v.begin(), e.v.end(), a.begin());
      std::copy(f.v.begin(), f.v.end(), b.begin());
      std::copy(p.v.begin(), p.v.end(), d.begin());
      reductions(c, a, e);
      products(c, d, p);
      updates(a, b);
    }
  }
}

} // namespace

PBT_TEST(helpers, 20000, 1000000, 0.3)
{
  switch (c.s.index(5)) {
    case 0:
      return containers<int>(c);
    case 1:
      return containers<double>(c);
    case 2:
      return containers<long>(c);
    case 3:
      return containers<float>(c);
    default:
      return containers<unsigned long>(c);
  }
}

template<class T, class R>
static void
wider(pbt::Ctx& c)
{
  // results that only the requested result type can hold
  auto n = c.s.len(40);
  std::vector<T> v;
  quad sum = 0, sq = 0;
  auto hi = static_cast<long>(std::min<quad>(quad(std::numeric_limits<T>::max()), 1L << 23));
  auto lo = std::is_unsigned<T>::value ? 0 : -hi;
  for (auto i = 0UL; i < n; ++i) {
    auto x = c.s.edgy(lo, hi);
    v.push_back(static_cast<T>(x));
    sum += x;
    sq += quad(x) * x;
  }
  NOTE("elements of " << sizeof(T) << " bytes, results of " << sizeof(R) << ": " << pbt::show(v));
  c.nt(n > 1 && sq > 1L << 31);
  auto s = bwsl::accumulate_sum<std::vector<T>, R>(v);
  CHECK(quad(s) == sum, "sum " << s << " expected " << double(sum));
  auto q = bwsl::sum_squared<std::vector<T>, R>(v);
  CHECK(quad(q) == sq, "sum of squares " << q << " expected " << double(sq));
  std::vector<T> few(v.begin(), v.begin() + static_cast<long>(std::min<std::size_t>(n, 2)));
  quad p = 1;
  for (auto x : few) p *= quad(x);
  auto got = bwsl::accumulate_product<std::vector<T>, R>(few);
  CHECK(quad(got) == p, "product " << got << " expected " << double(p));
}

PBT_TEST(wider_results, 8000, 400000, 0.3)
{
  switch (c.s.index(7)) {
    case 0:
      return wider<int, long>(c);
    case 1:
      return wider<int, double>(c);
    case 2:
      return wider<short, long>(c);
    case 3:
      return wider<unsigned char, double>(c);
    case 4:
      return wider<float, double>(c);
    case 5:
      return wider<unsigned, unsigned long>(c);
    default:
      return wider<long, long double>(c);
  }
}

template<class T>
static void
scaled(pbt::Ctx& c, int emax)
{
  // k * 2^e with a common exponent: everything exact far from one
  auto e = static_cast<int>(c.s.range(-emax, emax));
  auto n = c.s.len(12);
  std::vector<T> v, w;
  quad sum = 0, sq = 0;
  for (auto i = 0UL; i < n; ++i) {
    auto k = c.s.edgy(-300, 300);
    v.push_back(std::ldexp(static_cast<T>(k), e));
    w.push_back(std::ldexp(static_cast<T>(c.s.edgy(-300, 300)), e));
    sum += quad(v.back());
    sq += quad(v.back()) * quad(v.back());
  }
  NOTE("elements " << pbt::show(v));
  c.nt(n > 1 && e != 0);
  CHECK(quad(bwsl::accumulate_sum(v)) == sum, "sum " << bwsl::accumulate_sum(v));
  auto q = bwsl::sum_squared<std::vector<T>, T>(v);
  CHECK(quad(q) == sq, "sum of squares " << q << " expected " << double(sq));
  auto norm = bwsl::l2norm(v);
  auto root = std::sqrt(static_cast<long double>(sq));
  CHECK(std::fabs(norm - root) <= (std::is_same<T, float>::value ? 1.2e-7L : 2.3e-16L) * root,
        "norm " << norm << " expected " << double(root));
  if (n > 0) {
    CHECK(bwsl::max(v) == *std::max_element(v.begin(), v.end()), "maximum " << bwsl::max(v));
    CHECK(bwsl::min(v) == *std::min_element(v.begin(), v.end()), "minimum " << bwsl::min(v));
    quad p = 1;
    std::vector<T> few(v.begin(), v.begin() + static_cast<long>(std::min<std::size_t>(n, 2)));
    for (auto x : few) p *= quad(x);
    CHECK(quad(bwsl::accumulate_product(few)) == p, "product " << bwsl::accumulate_product(few));
  }
  updates(v, w);
}

PBT_TEST(magnitudes, 8000, 400000, 0.3)
{
  c.s.coin() ? scaled<double>(c, 480) : scaled<float>(c, 50);
}

template<class T>
static void
extremes(pbt::Ctx& c)
{
  auto n = c.s.urange(1, 12);
  std::vector<T> v;
  for (auto i = 0UL; i < n; ++i) {
    T x{};
    if constexpr (std::is_floating_point<T>::value) {
      x = static_cast<T>(c.s.coin(1, 4) ? c.s.oneof<double>({ INFINITY, -INFINITY, 5e-324, -5e-324, 1.7e308, -1.7e308, 0 })
                                        : c.s.finite(900));
    } else if constexpr (std::is_unsigned<T>::value) {
      x = static_cast<T>(c.s.uedgy(0, std::numeric_limits<T>::max()));
    } else {
      x = static_cast<T>(c.s.edgy(std::numeric_limits<T>::min(), std::numeric_limits<T>::max()));
    }
    v.push_back(x);
  }
  NOTE("elements " << pbt::show(v));
  c.nt(n > 1);
  T big = v[0], small = v[0];
  for (auto x : v) {
    if (x > big) big = x;
    if (x < small) small = x;
  }
  CHECK(bwsl::max(v) == big, "maximum " << +bwsl::max(v));
  CHECK(bwsl::min(v) == small, "minimum " << +bwsl::min(v));
  CHECK(bwsl::max(std::list<T>(v.begin(), v.end())) == big && bwsl::min(std::deque<T>(v.begin(), v.end())) == small,
        "extremes of other containers");
  // sums of two, where the result is representable
  if constexpr (std::is_integral<T>::value) {
    for (auto i = 1UL; i < n; ++i) {
      std::vector<T> a{ v[i - 1] }, b{ v[i] };
      auto s = static_cast<wide>(v[i - 1]) + v[i], d = static_cast<wide>(v[i - 1]) - v[i];
      auto fits = [](wide x) { return x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max(); };
      if (fits(s)) {
        auto l = a;
        CHECK(bwsl::sum_into(l, b)[0] == static_cast<T>(s), +a[0] << "+" << +b[0] << " gives " << +l[0]);
        CHECK(bwsl::accumulate_sum(std::vector<T>{ v[i - 1], v[i] }) == static_cast<T>(s), "sum of two");
      }
      if (fits(d)) {
        auto l = a;
        CHECK(bwsl::subtract_into(l, b)[0] == static_cast<T>(d), +a[0] << "-" << +b[0] << " gives " << +l[0]);
      }
      auto p = static_cast<quad>(v[i - 1]) * static_cast<quad>(v[i]);
      if (p <= quad(std::numeric_limits<T>::max()) && p >= quad(std::numeric_limits<T>::min())) {
        CHECK(quad(bwsl::accumulate_product(std::vector<T>{ v[i - 1], v[i] })) == p, "product of two");
      }
      auto sq = static_cast<quad>(v[i]) * static_cast<quad>(v[i]);
      if (sq <= quad(std::numeric_limits<T>::max())) {
        CHECK(quad(bwsl::sum_squared<std::vector<T>, T>(b)) == sq, "square of " << +v[i]);
        CHECK(std::fabs(bwsl::l2norm(b) - std::fabs(static_cast<double>(v[i]))) <=
                4e-16 * std::fabs(static_cast<double>(v[i])),
              "norm of " << +v[i] << " is " << bwsl::l2norm(b));
      }
      if (std::is_signed<T>::value && v[i] != std::numeric_limits<T>::min()) {
        CHECK(bwsl::get_inverted(b)[0] == static_cast<T>(-v[i]), "inverse of " << +v[i]);
      }
    }
  }
}

PBT_TEST(extreme_values, 12000, 600000, 0.3)
{
  switch (c.s.index(8)) {
    case 0:
      return extremes<signed char>(c);
    case 1:
      return extremes<short>(c);
    case 2:
      return extremes<int>(c);
    case 3:
      return extremes<unsigned>(c);
    case 4:
      return extremes<long>(c);
    case 5:
      return extremes<unsigned long>(c);
    case 6:
      return extremes<float>(c);
    default:
      return extremes<double>(c);
  }
}

template<class T>
static void
large(pbt::Ctx& c)
{
  auto n = c.s.coin(1, 4) ? c.s.urange(100000, sizeof(T) < 8 ? 500000 : 3000000) : c.s.urange(1000, 100000);
  auto b = c.s.bulk();
  std::vector<T> v(n), w(n);
  quad sum = 0, sq = 0;
  auto base = b.index(2) ? 0L : 50L;
  for (auto i = 0UL; i < n; ++i) {
    v[i] = static_cast<T>(static_cast<long>(b.index(10)) + (std::is_unsigned<T>::value ? 0 : -5) + base);
    w[i] = static_cast<T>(b.index(40));
  }
  auto hi = c.s.index(n), lo = c.s.index(n);
  v[hi] = T(90);
  if (lo != hi) v[lo] = std::is_unsigned<T>::value ? T(0) : static_cast<T>(-90);
  for (auto x : v) {
    sum += quad(x);
    sq += quad(x) * quad(x);
  }
  NOTE(n << " elements, the largest at " << hi << " and the smallest at " << lo);
  c.nt(lo != hi);
  CHECK(quad(bwsl::accumulate_sum<std::vector<T>, long>(v)) == sum, "sum");
  CHECK(quad(bwsl::accumulate_sum(v)) == sum, "sum " << bwsl::accumulate_sum(v));
  CHECK(quad(bwsl::sum_squared<std::vector<T>, double>(v)) == sq, "sum of squares");
  auto root = std::sqrt(static_cast<long double>(sq));
  CHECK(std::fabs(bwsl::l2norm(v) - root) <= 2.3e-16L * root, "norm " << bwsl::l2norm(v));
  CHECK(bwsl::max(v) == v[hi], "maximum " << bwsl::max(v));
  if (lo != hi) {
    CHECK(bwsl::min(v) == v[lo], "minimum " << bwsl::min(v));
  }
  auto l = v;
  bwsl::sum_into(l, w);
  for (auto i = 0UL; i < n; ++i) CHECK(l[i] == static_cast<T>(v[i] + w[i]), "element " << i << " of the sum");
  bwsl::subtract_into(l, w);
  CHECK(l == v, "subtracting again");
  if (std::is_signed<T>::value) {
    bwsl::invert(l);
    for (auto i = 0UL; i < n; ++i) CHECK(l[i] == static_cast<T>(-v[i]), "element " << i << " of the inverse");
    CHECK(bwsl::get_inverted(l) == v, "inverting again");
  }
}

PBT_TEST(large_containers, 60, 3000, 0.1)
{
  switch (c.s.index(4)) {
    case 0:
      return large<int>(c);
    case 1:
      return large<long>(c);
    case 2:
      return large<double>(c);
    default:
      return large<unsigned long>(c);
  }
}
