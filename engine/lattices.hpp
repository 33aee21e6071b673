// Generators of Bravais lattices and finite lattices, with an independent model.
#pragma once
#include <algorithm>
#include <functional>
#include "grids.hpp"
#include <bwsl/Lattice.hpp>

namespace gen {

using real = long double;
using rvec = std::vector<real>;
static const real pi = 3.14159265358979323846264338327950288L;

/// Row j of `a` is the j-th primitive vector, row j of `b` the j-th dual vector
struct BravaisModel
{
  std::string name;
  std::size_t dim = 0;
  std::vector<rvec> a, b;
  std::vector<std::vector<long>> dirs;
  double cond = 1; // sum |a_j| |b_j|
  double spread = 1; // max |a_j| max |b_j|
  real unit = 1; // power of two that all lengths are multiplied with
  bool skewed() const
  {
    for (std::size_t i = 0; i < dim; ++i)
      for (std::size_t j = 0; j < dim; ++j)
        if (i != j && a[i][j] != 0) return true;
    return false;
  }

  rvec position(std::vector<long> const& c) const
  {
    rvec p(dim, 0);
    for (std::size_t j = 0; j < dim; ++j)
      for (std::size_t i = 0; i < dim; ++i) p[i] += static_cast<real>(c[j]) * a[j][i];
    return p;
  }
  /// Components on the lattice basis
  template<class V>
  rvec components(V const& x) const
  {
    rvec p(dim, 0);
    for (std::size_t j = 0; j < dim; ++j)
      for (std::size_t i = 0; i < dim; ++i) p[j] += static_cast<real>(x[i]) * b[j][i];
    return p;
  }
};

template<class V>
real
norm(V const& v)
{
  real s = 0;
  for (auto x : v) s += static_cast<real>(x) * static_cast<real>(x);
  return std::sqrt(s);
}

inline bool
invert(std::vector<rvec> m, std::vector<rvec>& out)
{
  auto n = m.size();
  out.assign(n, rvec(n, 0));
  for (std::size_t i = 0; i < n; ++i) out[i][i] = 1;
  for (std::size_t k = 0; k < n; ++k) {
    auto p = k;
    for (std::size_t i = k; i < n; ++i)
      if (std::fabs(m[i][k]) > std::fabs(m[p][k])) p = i;
    if (std::fabs(m[p][k]) < 1e-6L) return false;
    std::swap(m[p], m[k]);
    std::swap(out[p], out[k]);
    auto d = m[k][k];
    for (std::size_t j = 0; j < n; ++j) {
      m[k][j] /= d;
      out[k][j] /= d;
    }
    for (std::size_t i = 0; i < n; ++i) {
      if (i == k) continue;
      auto f = m[i][k];
      for (std::size_t j = 0; j < n; ++j) {
        m[i][j] -= f * m[k][j];
        out[i][j] -= f * out[k][j];
      }
    }
  }
  return true;
}

inline void
complete(BravaisModel& m)
{
  std::vector<rvec> inv;
  if (!invert(m.a, inv)) throw pbt::Discard{};
  // inv is the inverse of the matrix of rows a_j: its columns are the duals
  m.b.assign(m.dim, rvec(m.dim, 0));
  for (std::size_t j = 0; j < m.dim; ++j)
    for (std::size_t i = 0; i < m.dim; ++i) m.b[j][i] = inv[i][j];
  m.cond = 0;
  real la = 0, lb = 0;
  for (std::size_t j = 0; j < m.dim; ++j) {
    m.cond += static_cast<double>(norm(m.a[j]) * norm(m.b[j]));
    la = std::max(la, norm(m.a[j]));
    lb = std::max(lb, norm(m.b[j]));
  }
  m.spread = static_cast<double>(la * lb);
}

struct BravaisCase
{
  BravaisModel m;
  bwsl::Bravais br;
};

inline bwsl::Bravais
build(BravaisModel const& m)
{
  std::vector<double> pv, iv;
  std::vector<long> nb;
  for (auto const& r : m.a)
    for (auto x : r) pv.push_back(static_cast<double>(x));
  for (auto const& r : m.b)
    for (auto x : r) iv.push_back(static_cast<double>(x));
  for (auto const& d : m.dirs)
    for (auto x : d) nb.push_back(x);
  return bwsl::Bravais(m.dim, 2 * m.dirs.size(), pv, iv, nb);
}

inline BravaisCase
predefined(std::size_t kind)
{
  auto unit = [](std::size_t d) {
    BravaisModel m;
    m.dim = d;
    m.a.assign(d, rvec(d, 0));
    for (std::size_t i = 0; i < d; ++i) {
      m.a[i][i] = 1;
      std::vector<long> n(d, 0);
      n[i] = 1;
      m.dirs.push_back(n);
    }
    return m;
  };
  BravaisModel m;
  bwsl::Bravais const* br = nullptr;
  switch (kind) {
    case 0:
      m = unit(1);
      m.name = "chain";
      br = &bwsl::ChainLattice;
      break;
    case 1:
      m = unit(2);
      m.name = "square";
      br = &bwsl::SquareLattice;
      break;
    case 2:
      m = unit(2);
      m.name = "triangular";
      m.a[1] = { 0.5L, std::sqrt(3.0L) / 2 };
      m.dirs = { { 1, 0 }, { 0, 1 }, { 1, -1 } };
      br = &bwsl::TriangularLattice;
      break;
    default:
      m = unit(3);
      m.name = "cubic";
      br = &bwsl::CubicLattice;
  }
  complete(m);
  return { m, *br };
}

/// A user-defined lattice: random primitive vectors, moderately conditioned.
inline BravaisCase
custom(pbt::Src& s, std::size_t dmax, double maxcond)
{
  BravaisModel m;
  m.name = "custom";
  m.dim = s.urange(1, dmax);
  auto style = s.urange(0, 3);
  for (std::size_t j = 0; j < m.dim; ++j) {
    rvec r;
    for (std::size_t i = 0; i < m.dim; ++i) {
      double x = 0;
      switch (style) {
        case 0: // orthorhombic
          x = i == j ? s.real(0.25, 4) : 0;
          break;
        case 1: // small skew
          x = (i == j ? s.real(0.5, 2) : 0) + (i < j ? s.real(-1, 1) : 0);
          break;
        case 2: // dyadic entries: exact arithmetic
          x = static_cast<double>(s.range(-8, 8)) / 4 + (i == j ? 1.5 : 0);
          break;
        default:
          x = s.real(-2, 2);
      }
      // the constructor takes doubles: the model uses exactly those
      r.push_back(static_cast<real>(x));
    }
    m.a.push_back(r);
  }
  auto g = s.coin(1, 10) ? s.urange(5, 20) : s.urange(0, 4);
  auto reach = s.coin(1, 10) ? 60 : 2;
  for (std::size_t k = 0; k < g; ++k) {
    std::vector<long> d;
    for (std::size_t i = 0; i < m.dim; ++i) d.push_back(s.range(-reach, reach));
    m.dirs.push_back(d);
  }
  complete(m);
  DISCARD_IF(m.cond > maxcond || m.spread > 4 * maxcond);
  if (s.coin(1, 8)) {
    // other units of length
    m.unit = std::ldexp(1.0L, static_cast<int>(s.coin(1, 3) ? s.range(-400, 400) : s.range(-60, 60)));
    for (auto& r : m.a)
      for (auto& x : r) x *= m.unit;
    for (auto& r : m.b)
      for (auto& x : r) x /= m.unit;
  }
  return { m, build(m) };
}

inline BravaisCase
bravais(pbt::Src& s, std::size_t dmax = 4, double maxcond = 30)
{
  if (s.coin(2, 5)) return custom(s, dmax, maxcond);
  return predefined(s.urange(0, 3));
}

inline std::string
show(BravaisModel const& m)
{
  std::ostringstream o;
  o << m.name;
  if (m.name == "custom") {
    o << std::setprecision(17) << " a=";
    for (auto const& r : m.a) o << pbt::show(r);
    o << " dirs=";
    for (auto const& r : m.dirs) o << pbt::show(r);
  }
  return o.str();
}

struct LatticeCase
{
  BravaisModel m;
  bwsl::Bravais br;
  sizes_t size;
  bool closed;
  bwsl::Lattice lat;
  std::size_t n() const { return static_cast<std::size_t>(product(size)); }
};

inline LatticeCase
lattice(pbt::Ctx& c, std::uint64_t maxsites, double maxcond = 8, int closedof4 = 3,
        std::uint64_t minsites = 0, std::size_t dmax = 3)
{
  auto b = bravais(c.s, dmax, maxcond);
  auto size = minsites > 0 ? big_extents(c.s, b.m.dim, minsites, maxsites)
                           : extents(c.s, b.m.dim, b.m.dim, maxsites);
  bool closed = c.s.coin(static_cast<unsigned>(closedof4), 4);
  // the library takes long for very elongated skewed lattices
  if (closed) {
    real lo = 1e30L, hi = 0;
    for (std::size_t j = 0; j < b.m.dim; ++j) {
      auto x = norm(b.m.a[j]) * static_cast<real>(size[j]);
      lo = std::min(lo, x);
      hi = std::max(hi, x);
    }
    auto work = static_cast<real>(product(size)) * (1 + hi / lo / 2) * std::pow(3.0L, static_cast<real>(b.m.dim));
    DISCARD_IF(work > 3e7L || (work > 3e6L && b.m.skewed()));
  }
  NOTE("lattice " << show(b.m) << " extents " << pbt::show(size) << (closed ? " closed" : " open"));
  auto bt = closed ? bwsl::HyperCubicGrid::boundaries_t::Closed
                   : bwsl::HyperCubicGrid::boundaries_t::Open;
  bwsl::Lattice lat;
  if (closed && c.s.coin()) {
    lat = bwsl::Lattice(b.br, size); // closed is the default
  } else {
    lat = bwsl::Lattice(b.br, size, bt);
  }
  switch (c.s.urange(0, 2)) {
    case 1: {
      auto copy = lat;
      return { b.m, b.br, size, closed, copy };
    }
    case 2: {
      bwsl::Lattice other(bwsl::ChainLattice, { 3 });
      other = lat;
      return { b.m, b.br, size, closed, std::move(other) };
    }
    default:
      return { b.m, b.br, size, closed, lat };
  }
}

inline std::vector<long>
minus(std::vector<long> a, std::vector<long> const& b)
{
  for (std::size_t i = 0; i < a.size(); ++i) a[i] -= b[i];
  return a;
}

/// Length of the shortest periodic image of the separation d: enumeration of
/// every image that can be shorter than the best one known, direction by
/// direction along the orthogonalised periods.
inline real
shortest(BravaisModel const& m, sizes_t const& size, std::vector<long> const& d)
{
  auto dim = m.dim;
  // periods, shortest first
  std::vector<std::size_t> order(dim);
  for (std::size_t j = 0; j < dim; ++j) order[j] = j;
  auto length = [&](std::size_t j) { return norm(m.a[j]) * static_cast<real>(size[j]); };
  std::sort(order.begin(), order.end(), [&](std::size_t x, std::size_t y) { return length(x) < length(y); });
  std::vector<rvec> p(dim), o(dim);
  std::vector<real> o2(dim);
  auto dot = [](rvec const& x, rvec const& y) {
    real r = 0;
    for (std::size_t k = 0; k < x.size(); ++k) r += x[k] * y[k];
    return r;
  };
  for (std::size_t j = 0; j < dim; ++j) {
    p[j] = m.a[order[j]];
    for (auto& x : p[j]) x *= static_cast<real>(size[order[j]]);
    o[j] = p[j];
    for (std::size_t k = 0; k < j; ++k) {
      auto f = dot(p[j], o[k]) / o2[k];
      for (std::size_t q = 0; q < dim; ++q) o[j][q] -= f * o[k][q];
    }
    o2[j] = dot(o[j], o[j]);
  }
  std::vector<long> c(dim);
  for (std::size_t j = 0; j < dim; ++j) c[j] = wrap(d[j], size[j]);
  real best = norm(m.position(c));
  std::function<void(std::size_t, real)> visit = [&](std::size_t left, real used) {
    if (left == 0) {
      best = std::min(best, norm(m.position(c)));
      return;
    }
    auto j = left - 1;
    auto t = dot(m.position(c), o[j]) / o2[j];
    auto L = static_cast<long>(size[order[j]]);
    auto start = c[order[j]];
    auto n0 = -std::lround(t);
    // nearest first, on both sides while they can still improve
    for (long k = 0;; ++k) {
      bool any = false;
      for (int side = 0; side < (k ? 2 : 1); ++side) {
        auto n = n0 + (side ? -k : k);
        auto h = (t + static_cast<real>(n)) * (t + static_cast<real>(n)) * o2[j];
        if (used + h > best * best * (1 + 1e-9L) + 1e-24L * m.unit * m.unit) continue;
        any = true;
        c[order[j]] = start + n * L;
        visit(j, used + h);
      }
      if (!any && k > 0) break;
    }
    c[order[j]] = start;
  };
  visit(dim, 0);
  return best;
}

} // namespace gen
