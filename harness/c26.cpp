// check: factor=6
// check: san_factor=5
// check: fuzz_runs=60000
#include "sums.hpp"
#include <bwsl/MathUtils.hpp>

using ref::quad;
using wide = __int128;

const char* const pbt::rule =
  "Arguments from the whole range of short, int, long, long long and their unsigned versions, float, "
  "double and long double, with weight on limits, powers of two and small values; results compared with "
  "128-bit integers or quadruple precision. Non-trivial: a result beyond 16 bits or a negative one, a "
  "binomial with 2<=k<=n-2, a greatest common divisor above 1, a parameter of interpolation other than "
  "0 and 1.";

namespace {

template<class T>
T
any(pbt::Ctx& c)
{
  if constexpr (std::is_signed<T>::value) {
    return static_cast<T>(c.s.edgy(std::numeric_limits<T>::min(), std::numeric_limits<T>::max()));
  } else {
    return static_cast<T>(c.s.uedgy(0, std::numeric_limits<T>::max()));
  }
}

template<class T>
bool
fits(wide x)
{
  return x >= wide(std::numeric_limits<T>::min()) && x <= wide(std::numeric_limits<T>::max());
}

std::string
str(wide x)
{
  std::ostringstream o;
  if (x < 0) {
    o << "-";
    x = -x;
  }
  auto hi = static_cast<std::uint64_t>(x / 1000000000000000000LL);
  if (hi) o << hi << std::setfill('0') << std::setw(18);
  o << static_cast<std::uint64_t>(x % 1000000000000000000LL);
  return o.str();
}

/// (n choose k), or -1 when it exceeds the signed 128-bit range / 2^40
wide
choose(wide n, wide k)
{
  if (k > n) return 0;
  if (k > n - k) k = n - k;
  wide r = 1;
  for (wide i = 1; i <= k; ++i) {
    if (r > (wide(1) << 126) / (n + 1 - i)) return -1;
    r = r * (n + 1 - i) / i;
    if (r > (wide(1) << 66)) return -1;
  }
  return r;
}

template<class T>
void
binomial(pbt::Ctx& c)
{
  wide max = std::numeric_limits<T>::max();
  wide n = 0, k = 0;
  switch (c.s.index(4)) {
    case 0:
      n = any<T>(c);
      if (n < 0) n = -(n + 1);
      k = c.s.range(0, 3);
      break;
    case 1: {
      // near the largest representable result
      k = c.s.range(0, 35);
      wide lo = k, hi = max;
      while (lo < hi) {
        auto m = lo + (hi - lo + 1) / 2;
        auto r = choose(m, k);
        if (r >= 0 && r <= max) {
          lo = m;
        } else {
          hi = m - 1;
        }
      }
      n = std::max<wide>(0, lo - c.s.range(0, 3));
      break;
    }
    default:
      n = c.s.range(0, 80);
      k = c.s.range(0, 85);
  }
  n = std::min(n, max);
  if (c.s.coin(1, 3) && k <= n) k = n - k;
  k = std::min(k, max);
  auto want = choose(n, k);
  NOTE("binomial of " << str(n) << " and " << str(k) << " in " << sizeof(T) << " bytes");
  if (want < 0 || want > max) {
    c.cls("binomial out of range");
    throw pbt::Discard{};
  }
  c.nt(k >= 2 && k + 2 <= n);
  auto got = bwsl::cbinomial<T>(static_cast<T>(n), static_cast<T>(k));
  auto d = static_cast<double>(want);
  auto tol = want > (wide(1) << 53) ? std::ldexp(d, -52) : 0.0;
  CHECK(std::fabs(got - d) <= tol, "binomial " << got << " expected " << d);
}

template<class T>
void
divisor(pbt::Ctx& c)
{
  T a = any<T>(c), b = any<T>(c);
  if (c.s.coin()) {
    wide f = c.s.range(1, 5000);
    wide x = c.s.range(-300, 300), y = c.s.range(-300, 300);
    if (fits<T>(x * f) && fits<T>(y * f)) {
      a = static_cast<T>(x * f);
      b = static_cast<T>(y * f);
    }
  }
  if (c.s.coin(1, 10)) a = 0;
  if (c.s.coin(1, 10)) b = 0;
  // the magnitudes have to be representable
  DISCARD_IF(!fits<T>(-wide(a)) && std::is_signed<T>::value);
  DISCARD_IF(!fits<T>(-wide(b)) && std::is_signed<T>::value);
  NOTE("greatest common divisor of " << a << " and " << b);
  wide x = wide(a) < 0 ? -wide(a) : wide(a), y = wide(b) < 0 ? -wide(b) : wide(b);
  while (y != 0) {
    auto t = x % y;
    x = y;
    y = t;
  }
  c.nt(x > 1);
  auto got = bwsl::get_gcd(a, b);
  wide g = got;
  CHECK((g < 0 ? -g : g) == x, "divisor " << got << " expected " << str(x));
  if (!(a < T(0)) && !(b < T(0))) CHECK(g == x, "negative divisor " << got << " of non-negative numbers");
}

template<class T>
void
integers(pbt::Ctx& c)
{
  T a = any<T>(c), b = any<T>(c);
  if (c.s.coin(1, 3)) {
    auto near = wide(a) + c.s.range(-2, 2);
    if (fits<T>(near)) b = static_cast<T>(near);
  }
  if (c.s.coin(1, 4)) {
    a = static_cast<T>(any<short>(c));
    if (std::is_unsigned<T>::value) a = static_cast<T>(a & T(0x7fff));
  }
  NOTE("integers " << +a << " and " << +b);
  c.nt(wide(a) < 0 || wide(a) > 65535);
  auto s = bwsl::sgn(a);
  CHECK(s == (wide(a) > 0) - (wide(a) < 0), "sign " << s << " of " << +a);
  auto diff = wide(a) - wide(b);
  auto mag = diff < 0 ? -diff : diff;
  if (fits<T>(mag)) {
    auto d = bwsl::absdiff(a, b);
    CHECK(wide(d) == mag, "absolute difference " << +d << " expected " << str(mag));
  }
  wide x = a;
  if (x < (wide(1) << 40) && x > -(wide(1) << 40) && fits<T>(x * x)) {
    auto q = bwsl::square(a);
    CHECK(wide(q) == x * x, "square " << +q << " of " << +a);
  }
  if (x < (wide(1) << 40) && x > -(wide(1) << 40) && fits<T>(x * x * x)) {
    auto q = bwsl::cube(a);
    CHECK(wide(q) == x * x * x, "cube " << +q << " of " << +a);
  }
}

template<class T, class R>
void
signed_difference(pbt::Ctx& c)
{
  T a = any<T>(c), b = any<T>(c);
  if (c.s.coin(1, 3)) {
    auto near = wide(a) + c.s.range(-3, 3);
    if (fits<T>(near)) b = static_cast<T>(near);
  }
  if (c.s.coin(1, 4)) {
    // differences at the limits of the result
    auto end = c.s.coin() ? wide(std::numeric_limits<R>::min()) + c.s.range(0, 2)
                          : wide(std::numeric_limits<R>::max()) - c.s.range(0, 2);
    if (c.s.coin()) a = static_cast<T>(c.s.range(0, 3));
    if (fits<T>(wide(a) - end)) b = static_cast<T>(wide(a) - end);
    if (fits<T>(wide(b) + end) && c.s.coin()) a = static_cast<T>(wide(b) + end);
  }
  auto diff = wide(a) - wide(b);
  NOTE("signed difference of " << +a << " and " << +b << " in " << sizeof(R) << " bytes");
  if (!fits<R>(diff)) {
    c.cls("signed difference out of range");
    throw pbt::Discard{};
  }
  c.nt(diff < 0);
  auto d = bwsl::signeddiff<T, R>(a, b);
  CHECK(wide(d) == diff, "signed difference " << +d << " expected " << str(diff));
}

template<class T>
void
floating(pbt::Ctx& c)
{
  auto maxexp = std::numeric_limits<T>::max_exponent / 3 - 2;
  auto make = [&]() -> T { return static_cast<T>(c.s.finite(std::min(maxexp, 300))); };
  T x = make(), y = make();
  NOTE("numbers " << double(x) << " and " << double(y));
  auto eps = static_cast<quad>(std::numeric_limits<T>::epsilon());
  auto tiny = static_cast<quad>(std::numeric_limits<T>::denorm_min());
  auto near = [&](T got, quad want, int ulps) {
    auto e = static_cast<quad>(got) - want;
    auto w = want < 0 ? -want : want;
    return (e < 0 ? -e : e) <= w * eps * ulps + tiny * ulps;
  };
  CHECK(bwsl::sgn(x) == (x > 0) - (x < 0), "sign of " << double(x));
  CHECK(near(bwsl::square(x), quad(x) * quad(x), 1), "square of " << double(x));
  CHECK(near(bwsl::cube(x), quad(x) * quad(x) * quad(x), 2), "cube of " << double(x));
  auto d = quad(x) - quad(y);
  CHECK(near(bwsl::absdiff(x, y), d < 0 ? -d : d, 1), "absolute difference");
  CHECK(bwsl::absdiff(x, y) >= 0, "negative absolute difference");
  CHECK(bwsl::heaviside(x) == (x >= 0 ? T(1) : T(0)), "step at " << double(x));
  CHECK(bwsl::heaviside2(x) == (x > 0 ? T(1) : x < 0 ? T(0) : T(0.5)), "half step at " << double(x));
  CHECK(bwsl::heaviside(T(0)) == 1 && bwsl::heaviside(-T(0)) == 1 && bwsl::heaviside2(T(0)) == T(0.5) &&
          bwsl::heaviside2(-T(0)) == T(0.5),
        "step at zero");
  CHECK(bwsl::heaviside(tiny > 0 ? -std::numeric_limits<T>::denorm_min() : T(-1)) == 0, "step just below zero");

  T t{};
  switch (c.s.index(5)) {
    case 0:
      t = static_cast<T>(c.s.range(-3, 3));
      break;
    case 1:
      t = static_cast<T>(c.s.range(-16, 32)) / T(16);
      break;
    case 2:
      t = static_cast<T>(c.s.real(-1000, 1000));
      break;
    default:
      t = static_cast<T>(c.s.real(0, 1));
  }
  NOTE("parameter " << double(t));
  c.nt(t != 0 && t != 1);
  auto mag = [](quad v) { return v < 0 ? -v : v; };
  auto check = [&](T got, quad p, const char* what) {
    auto want = quad(x) + p * (quad(y) - quad(x));
    auto tol = eps * 6 * (mag(x) + mag(y)) * (1 + mag(p)) + tiny * 8;
    CHECK(mag(quad(got) - want) <= tol, what << " gives " << double(got) << " expected " << double(want));
  };
  check(bwsl::lerp(x, y, t), quad(t), "interpolation");
  CHECK(bwsl::lerp(x, y, T(0)) == x, "interpolation at 0 gives " << double(bwsl::lerp(x, y, T(0))));
  CHECK(bwsl::lerp(x, y, T(1)) == y, "interpolation at 1 gives " << double(bwsl::lerp(x, y, T(1))));
  long j = c.s.edgy(-100000, 100000);
  if (j == 0) j = 1;
  auto i = c.s.coin(1, 4) ? j : c.s.edgy(-200000, 200000);
  NOTE("fraction " << i << "/" << j);
  check(bwsl::lerpi(i, j, x, y), quad(i) / quad(j), "integer interpolation");
  check(bwsl::lerpi(static_cast<int>(i), static_cast<int>(j), x, y), quad(i) / quad(j), "integer interpolation");
  auto ui = static_cast<unsigned long>(std::abs(i)), uj = static_cast<unsigned long>(std::abs(j));
  check(bwsl::lerpi(ui, uj, x, y), quad(ui) / quad(uj), "unsigned interpolation");
  // positions as large as the floating type represents
  auto digits = std::min(62, std::numeric_limits<T>::digits);
  auto far = 1L << c.s.urange(17, static_cast<unsigned>(digits));
  auto fj = c.s.coin() ? far : far - static_cast<long>(c.s.urange(0, 9));
  auto fi = c.s.coin() ? fj / 2 : fj - static_cast<long>(c.s.urange(0, 1000));
  if (c.s.coin(1, 3)) fi = -fi;
  check(bwsl::lerpi(fi, fj, x, y), quad(fi) / quad(fj), "integer interpolation");
  if (fi > 0) {
    check(bwsl::lerpi(static_cast<unsigned long>(fi), static_cast<unsigned long>(fj), x, y), quad(fi) / quad(fj),
          "unsigned interpolation");
  }
  CHECK(bwsl::lerpi(fj, fj, x, y) == y, "integer interpolation at 1");
  CHECK(bwsl::lerpi(0L, j, x, y) == x, "integer interpolation at 0");
  CHECK(bwsl::lerpi(j, j, x, y) == y, "integer interpolation at 1");
}

} // namespace

PBT_TEST(binomials, 20000, 1000000, 0.3)
{
  switch (c.s.index(6)) {
    case 0:
      return binomial<long>(c);
    case 1:
      return binomial<int>(c);
    case 2:
      return binomial<unsigned long>(c);
    case 3:
      return binomial<unsigned>(c);
    case 4:
      return binomial<short>(c);
    default:
      return binomial<long long>(c);
  }
}

PBT_TEST(divisors, 20000, 1000000, 0.3)
{
  switch (c.s.index(4)) {
    case 0:
      return divisor<long>(c);
    case 1:
      return divisor<int>(c);
    case 2:
      return divisor<unsigned long>(c);
    default:
      return divisor<long long>(c);
  }
}

PBT_TEST(integer_helpers, 20000, 1000000, 0.3)
{
  switch (c.s.index(6)) {
    case 0:
      return integers<long>(c);
    case 1:
      return integers<int>(c);
    case 2:
      return integers<unsigned long>(c);
    case 3:
      return integers<unsigned>(c);
    case 4:
      return integers<short>(c);
    default:
      return integers<unsigned short>(c);
  }
}

PBT_TEST(signed_differences, 20000, 1000000, 0.3)
{
  switch (c.s.index(6)) {
    case 0:
      return signed_difference<unsigned long, long>(c);
    case 1:
      return signed_difference<unsigned, int>(c);
    case 2:
      return signed_difference<unsigned, long>(c);
    case 3:
      return signed_difference<unsigned long, int>(c);
    case 4:
      return signed_difference<unsigned short, int>(c);
    default:
      return signed_difference<unsigned short, short>(c);
  }
}

PBT_TEST(floating_helpers, 20000, 1000000, 0.3)
{
  switch (c.s.index(3)) {
    case 0:
      return floating<double>(c);
    case 1:
      return floating<float>(c);
    default:
      return floating<long double>(c);
  }
}
