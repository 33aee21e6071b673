// check: factor=4
// check: san_factor=4
// check: fuzz_runs=15000
#include "spaces.hpp"
#include <bwsl/LinSpace.hpp>

const char* const pbt::rule =
  "Linear spaces of float, double and long double with 1..3000 points and end points of any sign, scale "
  "and distance, driven by random histories of prefix, postfix and call stepping, collecting, begin, "
  "end, copies and comparisons over up to five positions, compared with first+i*(last-first)/n; "
  "prefixes of spaces of up to 2^63 points, and all points of spaces of up to 2^25. "
  "Non-trivial: more than one point, at least two stepping operations, and a collection or end position.";

template<class T>
static void
space(pbt::Ctx& c, unsigned long full = 0)
{
  auto n = full ? spaces::count(c.s, full) : c.s.coin(1, 8) ? c.s.urange(1, 3000) : c.s.urange(1, 24);
  auto bound = std::numeric_limits<T>::max_exponent - 8; // steps beyond the end stay representable
  T a{}, b{};
  switch (c.s.index(4)) {
    case 0:
      a = static_cast<T>(full ? 0 : c.s.range(-20, 20));
      b = a + static_cast<T>(c.s.urange(1, 40));
      break;
    case 1:
      a = static_cast<T>(c.s.finite(std::min(bound, 1000)));
      b = a + std::fabs(a) / static_cast<T>(c.s.urange(1, 1000000));
      break;
    case 2:
      a = static_cast<T>(c.s.real(-1, 1));
      b = static_cast<T>(c.s.real(-1, 1));
      break;
    default:
      a = static_cast<T>(c.s.finite(std::min(bound, 1000)));
      b = static_cast<T>(c.s.finite(std::min(bound, 1000)));
  }
  if (b < a) std::swap(a, b);
  if (!(a < b)) b = a + std::max(std::fabs(a), T(1));
  // a step number times the whole distance stays representable: the points may be computed in that order
  if (b / 4 - a / 4 > 0) {
    auto over = std::ilogb(b / 4 - a / 4) + 2 + std::ilogb(4 * static_cast<T>(n) + 16) + 4 - std::numeric_limits<T>::max_exponent;
    if (over > 0) {
      a = std::ldexp(a, -over);
      b = std::ldexp(b, -over);
    }
    DISCARD_IF(!(a < b));
  }
  NOTE("from " << double(a) << " to " << double(b) << " in " << n << " steps");
  // steps that underflow are not resolved
  DISCARD_IF((b - a) / static_cast<T>(n) < std::numeric_limits<T>::min() * 4);
  auto first = static_cast<long double>(a), last = static_cast<long double>(b);
  auto eps = static_cast<long double>(std::numeric_limits<T>::epsilon());
  auto value = [=](unsigned long i) {
    using ref::quad;
    return static_cast<long double>(quad(first) +
                                    quad(i) * (quad(last) - quad(first)) / quad(n));
  };
  auto tol = [=](unsigned long i) {
    auto f = std::max(1.0L, static_cast<long double>(i) / static_cast<long double>(n));
    auto rel = static_cast<long double>(i) / static_cast<long double>(n);
    return eps * std::min(8 * f * std::max(std::fabs(first), std::fabs(last)),
                          8 * std::fabs(first) + 8 * rel * (last - first));
  };
  if (full) {
    spaces::many(c, bwsl::LinSpace<T>(a, b, n), b, n, full, value, tol);
    c.nt();
  } else {
    spaces::explore(c, bwsl::LinSpace<T>(a, b, n), b, n, 4 * n + 16, value, tol);
  }
}

static void
any(pbt::Ctx& c, unsigned long full)
{
  switch (c.s.index(3)) {
    case 0:
      return space<double>(c, full);
    case 1:
      return space<float>(c, full);
    default:
      return space<long double>(c, full);
  }
}

PBT_TEST(linear, 10000, 400000, 0.3)
{
  any(c, 0);
}

PBT_TEST(prefixes_of_long_spaces, 500, 20000, 0.1)
{
  any(c, 1);
}

PBT_TEST(long_spaces, 8, 100, 0.05)
{
  any(c, 1UL << 25);
}
