// Exact model of rational numbers and generators for the library's ones.
#pragma once
#include "pbt.hpp"
#include <bwsl/RationalNum.hpp>

namespace rat {

using wide = __int128;

inline std::string
str(wide x)
{
  if (x == 0) return "0";
  bool neg = x < 0;
  std::string s;
  while (x != 0) {
    auto r = static_cast<int>(x % 10);
    s += static_cast<char>('0' + (r < 0 ? -r : r));
    x /= 10;
  }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}

inline wide
gcd(wide a, wide b)
{
  if (a < 0) a = -a;
  if (b < 0) b = -b;
  while (b != 0) {
    auto t = a % b;
    a = b;
    b = t;
  }
  return a;
}

/// A fraction in canonical form
struct Q
{
  wide n = 0, d = 1;
  Q() = default;
  Q(wide num, wide den)
  {
    auto g = gcd(num, den);
    if (den < 0) g = -g;
    n = num / g;
    d = den / g;
  }
};

inline int
sign(wide x)
{
  return (x > 0) - (x < 0);
}

/// Sign of a - b
inline int
order(Q const& a, Q const& b)
{
  return sign(a.n * b.d - b.n * a.d);
}

/// Representable together with its negation
template<class T>
bool
fits(wide x)
{
  return x <= std::numeric_limits<T>::max() && x >= -static_cast<wide>(std::numeric_limits<T>::max());
}

/// An integer whose typical size varies between a digit and the whole type
template<class T>
T
integer(pbt::Ctx& c, int maxbits = std::numeric_limits<T>::digits)
{
  auto bits = c.s.oneof({ 2, 4, maxbits / 4, maxbits / 3, maxbits / 2 - 1, maxbits / 2, maxbits });
  bits = std::max(1, std::min(bits, maxbits));
  auto lim = static_cast<std::int64_t>((~0ULL) >> (64 - bits));
  return static_cast<T>(c.s.edgy(-lim, lim));
}

template<class T>
T
nonzero(pbt::Ctx& c, int maxbits = std::numeric_limits<T>::digits)
{
  auto x = integer<T>(c, maxbits);
  return x == 0 ? T(1) : x;
}

template<class T>
void
check(bwsl::RationalNum<T> const& r, Q const& q, const char* what)
{
  CHECK(r.GetNum() == q.n && r.GetDen() == q.d, what << " is " << r.GetNum() << "//" << r.GetDen()
                                                     << " expected " << str(q.n) << "//" << str(q.d));
}

} // namespace rat
