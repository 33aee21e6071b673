// check: factor=20
// check: san_factor=6
#include "lattices.hpp"

const char* const pbt::rule =
  "Predefined lattices and random user-defined ones of 1..4 dimensions whose dual basis is the "
  "inverse of the direct one (condition up to 1000), integer points up to 2^40 and arbitrary real "
  "vectors up to 2^200 and down to 2^-200. Non-trivial: at least two dimensions and a basis that is not diagonal, or a predefined "
  "lattice in two or more dimensions, with a non-zero point.";

static bool
interesting(gen::BravaisModel const& m, std::vector<long> const& p)
{
  bool diag = true;
  for (std::size_t j = 0; j < m.dim; ++j)
    for (std::size_t i = 0; i < m.dim; ++i) diag = diag && (i == j || m.a[j][i] == 0);
  return m.dim > 1 && (!diag || m.name != "custom") &&
         std::any_of(p.begin(), p.end(), [](long x) { return x != 0; });
}

static std::vector<long>
point(pbt::Src& s, std::size_t dim)
{
  std::vector<long> v;
  for (std::size_t i = 0; i < dim; ++i) v.push_back(s.coin(3, 4) ? s.range(-5, 5) : s.coin(1, 4) ? s.edgy(-(1L << 40), 1L << 40) : s.range(-1000, 1000));
  return v;
}

PBT_TEST(inverse_of_points, 50000, 3000000, 0.3)
{
  auto b = gen::bravais(c.s, c.s.coin(1, 6) ? 9 : 4, 1000);
  auto p = point(c.s, b.m.dim);
  NOTE(gen::show(b.m) << " point " << pbt::show(p));
  c.nt(interesting(b.m, p));
  c.cls(b.m.name.c_str());
  auto x = b.br.GetRealSpace(p);
  auto r = b.br.GetInverseVector(x);
  CHECK(r.size() == b.m.dim, "dimension " << r.size());
  gen::real scale = 1;
  for (auto y : p) scale += std::fabs(static_cast<gen::real>(y));
  for (std::size_t i = 0; i < b.m.dim; ++i) {
    CHECK(std::fabs(r[i] - static_cast<double>(p[i])) <= 1e-13 * scale * (b.m.cond + b.m.spread),
          "point " << pbt::show(p) << " comes back as " << pbt::show(r));
  }
}

PBT_TEST(components_of_vectors, 50000, 3000000, 0.3)
{
  auto b = gen::bravais(c.s, c.s.coin(1, 6) ? 9 : 4, 1000);
  std::vector<double> x;
  // short and long ones
  auto const e = c.s.coin(1, 4) ? static_cast<int>(c.s.range(-200, 200)) : 0;
  for (std::size_t i = 0; i < b.m.dim; ++i) x.push_back(std::ldexp(c.s.real(-100, 100) * static_cast<double>(b.m.unit), e));
  NOTE(gen::show(b.m) << " vector " << pbt::show(x));
  c.nt(interesting(b.m, { 1 }));
  auto r = b.br.GetInverseVector(x);
  CHECK(r.size() == b.m.dim, "dimension " << r.size());
  // rebuild with the library's own primitive vectors
  std::vector<gen::real> y(b.m.dim, 0);
  for (std::size_t j = 0; j < b.m.dim; ++j) {
    std::vector<long> e(b.m.dim, 0);
    e[j] = 1;
    auto a = b.br.GetRealSpace(e);
    for (std::size_t i = 0; i < b.m.dim; ++i) y[i] += static_cast<gen::real>(r[j]) * a[i];
  }
  auto scale = std::ldexp(b.m.unit, e) + gen::norm(x);
  for (std::size_t i = 0; i < b.m.dim; ++i) {
    CHECK(std::fabs(y[i] - x[i]) <= 1e-13L * scale * b.m.cond,
          "components " << pbt::show(r) << " rebuild " << pbt::show(y) << " from " << pbt::show(x));
  }
}

PBT_TEST(reciprocal_duality, 50000, 3000000, 0.3)
{
  auto b = gen::bravais(c.s, c.s.coin(1, 6) ? 9 : 4, 1000);
  auto n = point(c.s, b.m.dim), m = point(c.s, b.m.dim);
  NOTE(gen::show(b.m) << " n=" << pbt::show(n) << " m=" << pbt::show(m));
  c.nt(interesting(b.m, n) && interesting(b.m, m));
  auto k = b.br.GetReciprocalSpace(n);
  auto x = b.br.GetRealSpace(m);
  CHECK(k.size() == b.m.dim, "dimension " << k.size());
  gen::real dot = 0, ref = 0, sn = 1, sm = 1;
  for (std::size_t i = 0; i < b.m.dim; ++i) {
    dot += static_cast<gen::real>(k[i]) * x[i];
    ref += static_cast<gen::real>(n[i]) * static_cast<gen::real>(m[i]);
    sn += std::fabs(static_cast<gen::real>(n[i]));
    sm += std::fabs(static_cast<gen::real>(m[i]));
  }
  ref *= 2 * gen::pi;
  // |k| <= 2 pi sum |n_j||b_j| and |x| <= sum |m_j||a_j|
  gen::real na = 0, nb = 0;
  for (std::size_t j = 0; j < b.m.dim; ++j) {
    na = std::max(na, gen::norm(b.m.a[j]));
    nb = std::max(nb, gen::norm(b.m.b[j]));
  }
  CHECK(std::fabs(dot - ref) <= 1e-13L * sn * sm * na * nb,
        "scalar product " << double(dot) << " expected " << double(ref));
}
