// check: cpu=90
// check: factor=4
// check: san_factor=0.3
// check: fuzz_runs=1000
#include "lattices.hpp"

const char* const pbt::rule =
  "Lattices over predefined and random user-defined Bravais lattices (condition number up to 10), "
  "isotropic and strongly anisotropic extents, up to 60 sites (all pairs) and 100..70000 sites "
  "(sampled pairs), open and closed; against the exhaustive minimum over a box of images that provably contains it. Non-trivial: "
  "closed with at least two dimensions and some separation whose plain difference is not the "
  "shortest, or open with at least two dimensions and two sites.";

PBT_TEST(minimum_image, 15000, 300000, 0.3)
{
  auto l = gen::lattice(c, 60, 10);
  auto n = l.n();
  auto const& m = l.m;
  gen::real diam = m.unit;
  for (std::size_t j = 0; j < m.dim; ++j)
    diam += static_cast<gen::real>(l.size[j]) * gen::norm(m.a[j]);
  auto tol = 1e-12L * diam;
  // shortest length for every displacement class
  std::vector<gen::real> best(n);
  bool folded = false;
  for (std::size_t i = 0; i < n; ++i) {
    auto d = gen::digits(i, l.size);
    auto plain = gen::norm(m.position(d));
    best[i] = l.closed ? gen::shortest(m, l.size, d) : plain;
    folded = folded || best[i] < plain - tol;
  }
  c.nt(m.dim > 1 && n > 1 && (folded || !l.closed));
  c.cls(folded, "some separation is folded");
  c.cls(!l.closed, "open");
  c.cls(m.name.c_str());
  std::vector<std::vector<double>> dist(n, std::vector<double>(n));
  for (std::size_t a = 0; a < n; ++a) {
    auto ca = gen::digits(a, l.size);
    auto pos = l.lat.GetPosition(a);
    auto rp = m.position(ca);
    CHECK(pos.size() == m.dim, "position of dimension " << pos.size());
    for (std::size_t k = 0; k < m.dim; ++k) {
      CHECK(std::fabs(pos[k] - rp[k]) <= tol, "position of site " << a << " is " << pbt::show(pos));
    }
    for (std::size_t b = 0; b < n; ++b) {
      auto cb = gen::digits(b, l.size);
      auto diff = gen::minus(cb, ca);
      auto plain = m.position(diff);
      auto v = l.lat.GetVector(a, b);
      auto d = l.lat.GetDistance(a, b);
      dist[a][b] = d;
      CHECK(v.size() == m.dim, "vector of dimension " << v.size());
      CHECK(std::fabs(d - gen::norm(v)) <= tol,
            "distance " << d << " of sites " << a << "," << b << " with vector " << pbt::show(v));
      std::vector<gen::real> off(m.dim);
      for (std::size_t k = 0; k < m.dim; ++k) off[k] = v[k] - plain[k];
      if (!l.closed) {
        CHECK(gen::norm(off) <= tol, "open: vector " << a << "->" << b << " is " << pbt::show(v)
                                                     << " expected " << pbt::show(plain));
        continue;
      }
      auto comp = m.components(off);
      for (std::size_t k = 0; k < m.dim; ++k) {
        auto t = comp[k] / static_cast<gen::real>(l.size[k]);
        CHECK(std::fabs(t - std::round(t)) < 1e-8L,
              "vector " << a << "->" << b << " " << pbt::show(v) << " is no periodic image of "
                        << pbt::show(plain));
      }
      std::vector<long> w;
      for (std::size_t k = 0; k < m.dim; ++k) w.push_back(gen::wrap(diff[k], l.size[k]));
      auto shortest = best[gen::undigits(w, l.size)];
      CHECK(gen::norm(v) <= shortest + tol,
            "vector " << a << "->" << b << " " << pbt::show(v) << " has length "
                      << double(gen::norm(v)) << " but an image of length " << double(shortest)
                      << " exists");
    }
  }
  for (std::size_t a = 0; a < n; ++a) {
    for (std::size_t b = 0; b < n; ++b) {
      auto d = dist[a][b];
      CHECK((d < 1e-9L * m.unit) == (a == b), "distance " << d << " between " << a << " and " << b);
      CHECK(std::fabs(d - dist[b][a]) <= tol, "distances " << d << " and " << dist[b][a]);
      if (l.closed) {
        auto s = l.lat.GetMappedSite(a, b);
        CHECK(std::fabs(d - dist[0][s]) <= tol, "distance is not translation invariant");
      }
    }
  }
  auto bulk = c.s.bulk();
  for (int k = 0; k < 60; ++k) {
    auto x = bulk.index(n), y = bulk.index(n), z = bulk.index(n);
    CHECK(dist[x][z] <= dist[x][y] + dist[y][z] + tol,
          "triangle inequality fails for " << x << "," << y << "," << z);
  }
}

static void
large(pbt::Ctx& c, std::uint64_t most, std::uint64_t least)
{
  auto l = gen::lattice(c, most, 8, 3, least);
  auto n = l.n();
  auto const& m = l.m;
  c.nt(m.dim > 1);
  c.cls(!l.closed, "open");
  c.cls(n > 4096, "more than 4096 sites");
  gen::real diam = m.unit;
  for (std::size_t j = 0; j < m.dim; ++j)
    diam += static_cast<gen::real>(l.size[j]) * gen::norm(m.a[j]);
  auto tol = 1e-12L * diam;
  auto sites = gen::sample_sites(c.s, n, 30);
  for (auto a : sites) {
    auto ca = gen::digits(a, l.size);
    auto pos = l.lat.GetPosition(a);
    auto rp = m.position(ca);
    for (std::size_t k = 0; k < m.dim; ++k)
      CHECK(std::fabs(pos[k] - rp[k]) <= tol, "position of site " << a << " is " << pbt::show(pos));
    for (auto b : sites) {
      auto cb = gen::digits(b, l.size);
      auto diff = gen::minus(cb, ca);
      auto plain = m.position(diff);
      auto v = l.lat.GetVector(a, b);
      auto d = l.lat.GetDistance(a, b);
      CHECK(v.size() == m.dim, "vector of dimension " << v.size());
      CHECK(std::fabs(d - gen::norm(v)) <= tol,
            "distance " << d << " of sites " << a << "," << b << " with vector " << pbt::show(v));
      CHECK((d < 1e-9L * m.unit) == (a == b), "distance " << d << " between " << a << " and " << b);
      CHECK(std::fabs(d - l.lat.GetDistance(b, a)) <= tol,
            "distances " << d << " and " << l.lat.GetDistance(b, a) << " of " << a << "," << b);
      std::vector<gen::real> off(m.dim);
      for (std::size_t k = 0; k < m.dim; ++k) off[k] = v[k] - plain[k];
      if (!l.closed) {
        CHECK(gen::norm(off) <= tol, "open: vector " << a << "->" << b << " is " << pbt::show(v)
                                                     << " expected " << pbt::show(plain));
        continue;
      }
      auto comp = m.components(off);
      for (std::size_t k = 0; k < m.dim; ++k) {
        auto t = comp[k] / static_cast<gen::real>(l.size[k]);
        CHECK(std::fabs(t - std::round(t)) < 1e-8L,
              "vector " << a << "->" << b << " " << pbt::show(v) << " is no periodic image of "
                        << pbt::show(plain));
      }
      auto shortest = gen::shortest(m, l.size, diff);
      CHECK(gen::norm(v) <= shortest + tol,
            "vector " << a << "->" << b << " " << pbt::show(v) << " has length "
                      << double(gen::norm(v)) << " but an image of length " << double(shortest)
                      << " exists");
    }
  }
}

PBT_TEST(large_lattices, 60, 2000, 0.1)
{
  large(c, c.s.coin(1, 20) ? 70000 : c.s.coin(1, 3) ? 6000 : 700, 60);
}

PBT_TEST(huge_lattices, 6, 60, 0.02)
{
  large(c, 140000, 66000);
  c.cls("more than 65536 sites");
}
