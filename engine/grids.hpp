// Generators of grid extents shared by the grid and lattice harnesses.
#pragma once
#include "pbt.hpp"

namespace gen {

using sizes_t = std::vector<std::size_t>;

inline unsigned __int128
product(sizes_t const& v)
{
  unsigned __int128 p = 1;
  for (auto x : v) p *= x;
  return p;
}

/// Largest number of dimensions to try
inline std::size_t
dims(pbt::Src& s)
{
  return s.coin(1, 8) ? s.coin(1, 4) ? 100 : 24 : 6;
}

/// Extents >= 1 in `dmin..dmax` dimensions whose product is at most `cap`.
inline sizes_t
extents(pbt::Src& s, std::size_t dmin, std::size_t dmax, std::uint64_t cap)
{
  auto d = s.urange(dmin, dmax);
  sizes_t v;
  auto style = s.urange(0, 3);
  auto left = cap;
  for (std::size_t i = 0; i < d; ++i) {
    std::uint64_t x = 1;
    switch (style) {
      case 0: // small, all different
        x = s.urange(1, std::min<std::uint64_t>(left, 6));
        break;
      case 1: // same everywhere if possible
        x = i == 0 ? s.urange(1, std::min<std::uint64_t>(left, 8)) : v[0];
        if (x > left) x = 1;
        break;
      case 2: // one dominating direction
        x = s.coin() ? s.urange(1, std::min<std::uint64_t>(left, 3))
                     : s.uedgy(1, left);
        break;
      default:
        x = s.uedgy(1, std::max<std::uint64_t>(
                         1, static_cast<std::uint64_t>(std::pow(
                              static_cast<double>(cap), 1.0 / static_cast<double>(d)))));
        if (x > left) x = left;
    }
    v.push_back(x);
    left /= x;
  }
  // put the interesting extents anywhere
  for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[s.index(i)]);
  return v;
}

/// Extents in exactly `d` dimensions whose product is in [lo/2^d .. hi]: large
/// grids, with isotropic, elongated and flat shapes.
inline sizes_t
big_extents(pbt::Src& s, std::size_t d, std::uint64_t lo, std::uint64_t hi)
{
  auto target = std::exp(s.real(std::log(static_cast<double>(lo)), std::log(static_cast<double>(hi))));
  std::vector<double> w(d, 1.0);
  if (s.coin())
    for (auto& x : w) x = hi <= 700 && s.coin(1, 3) ? 1e-3 : s.real(0.05, 1);
  double sum = 0;
  for (auto x : w) sum += x;
  sizes_t v(d);
  for (std::size_t k = 0; k < d; ++k)
    v[k] = std::max<std::uint64_t>(
      1, static_cast<std::uint64_t>(std::pow(target, w[k] / sum) + (k ? s.real(-1.5, 1.5) : 0.0)));
  // the last extent fills up to the target
  std::uint64_t p = 1;
  for (std::size_t k = 0; k + 1 < d; ++k) p *= v[k];
  v[d - 1] = std::max<std::uint64_t>(1, static_cast<std::uint64_t>(target) / p);
  while (product(v) > hi && v[d - 1] > 1) --v[d - 1];
  if (product(v) > hi) throw pbt::Discard{};
  for (std::size_t i = d; i > 1; --i) std::swap(v[i - 1], v[s.index(i)]);
  return v;
}

/// Sites worth looking at on a large grid: the ends, around powers of two,
/// and random ones.
inline std::vector<std::size_t>
sample_sites(pbt::Src& s, std::size_t n, std::size_t count)
{
  std::vector<std::size_t> v{ 0, n - 1, n / 2 };
  for (std::size_t p = 64; p < n; p *= 4)
    for (std::size_t k = p - 1; k <= p + 1; ++k)
      if (k < n) v.push_back(k);
  auto bulk = s.bulk();
  for (std::size_t i = 0; i < count; ++i) v.push_back(bulk.index(n));
  return v;
}

/// Row-major digits of an index, independent of the library
inline std::vector<long>
digits(std::uint64_t index, sizes_t const& size)
{
  std::vector<long> c(size.size());
  for (std::size_t k = size.size(); k-- > 0;) {
    c[k] = static_cast<long>(index % size[k]);
    index /= size[k];
  }
  return c;
}

inline std::uint64_t
undigits(std::vector<long> const& c, sizes_t const& size)
{
  std::uint64_t i = 0;
  for (std::size_t k = 0; k < size.size(); ++k) {
    i = i * size[k] + static_cast<std::uint64_t>(c[k]);
  }
  return i;
}

inline long
wrap(__int128 x, std::size_t L)
{
  auto l = static_cast<__int128>(L);
  auto r = x % l;
  return static_cast<long>(r < 0 ? r + l : r);
}

} // namespace gen
