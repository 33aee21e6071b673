// Exact and high-precision reference arithmetic on doubles.
#pragma once
#include "pbt.hpp"
#include <boost/multiprecision/cpp_int.hpp>

namespace ref {

using big = boost::multiprecision::cpp_int;
using quad = __float128;

static const double u = 1.1102230246251565e-16; // 2^-53

/// Exact sum of doubles: integer multiples of 2^-1074
struct ExactSum
{
  big total = 0, abs = 0;
  void add(double x, unsigned long times = 1)
  {
    if (x == 0) return;
    int e = 0;
    auto m = std::frexp(x, &e);
    auto i = static_cast<long long>(std::ldexp(m, 53));
    e -= 53; // x = i * 2^e
    if (e < -1074) {
      i >>= -1074 - e;
      e = -1074;
    }
    big v = i;
    v <<= e + 1074;
    v *= times;
    total += v;
    if (v < 0) v = -v;
    abs += v;
  }
  /// scaled exact value of a double
  static big of(double x)
  {
    ExactSum s;
    s.add(x);
    return s.total;
  }
};

/// |num| / 2^1074 as a long double, good to about 60 bits
inline long double
value(big const& n)
{
  if (n == 0) return 0;
  big a = n < 0 ? big(-n) : n;
  auto bits = static_cast<long>(boost::multiprecision::msb(a)) + 1;
  long shift = bits > 64 ? bits - 64 : 0;
  big top = a >> static_cast<unsigned>(shift);
  auto v = std::ldexp(static_cast<long double>(static_cast<unsigned long long>(top)),
                      static_cast<int>(shift - 1074));
  return n < 0 ? -v : v;
}

inline quad
qabs(quad x)
{
  return x < 0 ? -x : x;
}
inline double
qsqrt(quad x)
{
  return static_cast<double>(std::sqrt(static_cast<long double>(x)));
}

} // namespace ref
