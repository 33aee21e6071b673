// check: factor=4
// check: san_factor=4
// check: fuzz_runs=15000
#include "spaces.hpp"
#include <bwsl/LogSpace.hpp>

const char* const pbt::rule =
  "Logarithmic spaces of float, double and long double with 1..1500 points, given by positive end points "
  "of any scale and ratio or by exponents and a base above one, driven by random histories of prefix, "
  "postfix and call stepping, collecting, begin, end, copies and comparisons over up to five positions, "
  "compared with first*(last/first)^(i/n); prefixes of spaces of up to 2^63 "
  "points, and all points of spaces of up to 2^25. Non-trivial: more than one point, at least two stepping "
  "operations, and a collection or end position.";

template<class T>
static void
space(pbt::Ctx& c, unsigned long full = 0)
{
  auto n = full ? spaces::count(c.s, full) : c.s.coin(1, 8) ? c.s.urange(1, 1500) : c.s.urange(1, 24);
  auto bound = std::min(std::numeric_limits<T>::max_exponent - 24, 900);
  T a{}, b{};
  long double first = 0, last = 0;
  long lo = 0, hi = 0;
  double base = 0;
  bool exponents = c.s.coin(1, 3);
  // the ratio of the ends stays representable, also as a double: it may be computed first
  auto span = std::min(std::numeric_limits<T>::max_exponent, std::numeric_limits<double>::max_exponent) - 8;
  if (exponents) {
    base = c.s.coin() ? c.s.oneof({ 2.0, 10.0, 1.5, M_E }) : 1 + std::fabs(c.s.real(0.01, 9));
    auto lim = static_cast<long>(static_cast<double>(bound) / std::log2(base));
    lim = std::min(std::max(lim, 1L), 300L);
    lo = c.s.range(-lim, lim - 1);
    hi = c.s.range(lo + 1, lim);
    hi = std::min(hi, lo + std::max(1L, static_cast<long>(span / std::log2(base))));
    first = std::pow(static_cast<long double>(base), static_cast<long double>(lo));
    last = std::pow(static_cast<long double>(base), static_cast<long double>(hi));
    NOTE("from " << base << "^" << lo << " to " << base << "^" << hi << " in " << n << " steps");
  } else {
    a = static_cast<T>(std::ldexp(c.s.real(1, 2), static_cast<int>(c.s.range(-bound, bound - 1))));
    switch (c.s.index(3)) {
      case 0:
        b = static_cast<T>(std::ldexp(c.s.real(1, 2), static_cast<int>(c.s.range(-bound, bound - 1))));
        break;
      case 1:
        b = a * static_cast<T>(c.s.urange(2, 100));
        break;
      default:
        b = a + a / static_cast<T>(c.s.urange(1, 10000));
    }
    if (b < a) std::swap(a, b);
    if (std::ilogb(b) - std::ilogb(a) > span) b = std::ldexp(a, span);
    if (!(a < b)) b = a * 2;
    first = static_cast<long double>(a);
    last = static_cast<long double>(b);
    NOTE("from " << double(a) << " to " << double(b) << " in " << n << " steps");
  }
  auto eps = static_cast<long double>(std::numeric_limits<T>::epsilon());
  auto deps = std::max(eps, static_cast<long double>(DBL_EPSILON)); // exponents are divided in double
  auto ratio = std::log(last / first), size = std::fabs(std::log(first)) + std::fabs(std::log(last));
  // the ratio of neighbouring points has to be representable, also as a double
  auto top = std::min(static_cast<long double>(std::numeric_limits<T>::max()), static_cast<long double>(DBL_MAX));
  DISCARD_IF(ratio / static_cast<long double>(n) > std::log(top) - 3);
  auto value = [=](unsigned long i) {
    return first * std::exp(ratio * static_cast<long double>(i) / static_cast<long double>(n));
  };
  auto rel = [=](unsigned long i) {
    auto x = static_cast<long double>(i);
    return 4 * deps * (x + (size + ratio) * (1 + x / static_cast<long double>(n)) + 4);
  };
  auto tol = [=](unsigned long i) { return value(i) * rel(i); };
  auto s = exponents ? bwsl::LogSpace<T>(lo, hi, n, base) : bwsl::LogSpace<T>(a, b, n);
  auto end = *s.end();
  CHECK(std::fabs(static_cast<long double>(end) - last) <= last * 4 * deps * (exponents ? 4 + size : 0),
        "the end holds " << double(end) << " instead of " << double(last));
  if (!exponents) {
    CHECK(*s.begin() == a, "the beginning holds " << double(*s.begin()) << " instead of " << double(a));
  }
  if (full) {
    c.nt();
    return spaces::many(c, s, end, n, full, value, tol);
  }
  // strictly increasing unless the ratio drowns in rounding
  if (ratio / static_cast<long double>(n) > 16 * deps * (size + 4)) {
    auto v = s.Collect(n);
    for (auto i = 1UL; i < v.size(); ++i)
      CHECK(v[i - 1] < v[i], "points " << i - 1 << " and " << i << " are " << double(v[i - 1]) << " and "
                                       << double(v[i]));
  }
  // points beyond the end, and their ratios to the first, have to be representable as well
  auto limit = n;
  auto room = std::log(top) - 3 - std::max(0.0L, std::log(first));
  while (limit < 4 * n + 16 && ratio * static_cast<long double>(limit + 1) < room * static_cast<long double>(n)) ++limit;
  spaces::explore(c, s, end, n, limit, value, tol);
}

static void
any(pbt::Ctx& c, unsigned long full)
{
  switch (c.s.index(3)) {
    case 0:
      return space<double>(c, full);
    case 1:
      return space<float>(c, full);
    default:
      return space<long double>(c, full);
  }
}

PBT_TEST(logarithmic, 6000, 250000, 0.3)
{
  any(c, 0);
}

PBT_TEST(prefixes_of_long_spaces, 500, 20000, 0.1)
{
  any(c, 1);
}

PBT_TEST(long_spaces, 8, 100, 0.05)
{
  any(c, 1UL << 25);
}
