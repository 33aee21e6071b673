// check: factor=30
// check: san_factor=8
#include "lattices.hpp"

const char* const pbt::rule =
  "Predefined and random user-defined Bravais lattices of 1..4 dimensions with 0..4 neighbour "
  "directions, integer points from the origin out to 2^40 and every neighbour of them; neighbours far away. Non-trivial: "
  "at least two dimensions with two different points, or a user-defined lattice with neighbours.";

static std::vector<long>
point(pbt::Src& s, std::size_t dim)
{
  std::vector<long> v;
  auto big = s.coin(1, 4);
  for (std::size_t i = 0; i < dim; ++i)
    v.push_back(big ? s.edgy(-(1L << 40), 1L << 40) : s.range(-12, 12));
  return v;
}

template<class V>
static void
close(std::vector<double> const& got, V const& ref, gen::real scale, const char* what)
{
  CHECK(got.size() == ref.size(), what << " has dimension " << got.size());
  for (std::size_t i = 0; i < ref.size(); ++i) {
    CHECK(std::fabs(static_cast<gen::real>(got[i]) - static_cast<gen::real>(ref[i])) <=
            1e-14L * scale,
          what << " component " << i << " is " << got[i] << " expected " << double(ref[i]));
  }
}

PBT_TEST(geometry, 60000, 4000000, 0.3)
{
  auto b = gen::bravais(c.s, c.s.coin(1, 6) ? 9 : 4, 1e6);
  auto p = point(c.s, b.m.dim), q = point(c.s, b.m.dim);
  NOTE(gen::show(b.m) << " p=" << pbt::show(p) << " q=" << pbt::show(q));
  c.nt((b.m.dim > 1 && p != q) || (b.m.name == "custom" && !b.m.dirs.empty()));
  c.cls(b.m.name.c_str());
  CHECK(b.br.GetDim() == b.m.dim, "dimension " << b.br.GetDim());
  CHECK(b.br.GetGamma() == 2 * b.m.dirs.size(), "coordination " << b.br.GetGamma());
  auto scale = [&](std::vector<long> const& x) {
    gen::real s = 0;
    for (std::size_t j = 0; j < b.m.dim; ++j)
      for (auto y : b.m.a[j]) s += std::fabs(static_cast<gen::real>(x[j]) * y);
    return s;
  };
  close(b.br.GetRealSpace(p), b.m.position(p), scale(p), "position");
  auto d = gen::minus(q, p);
  auto ref = b.m.position(d);
  // the difference of two rounded positions is as good
  auto far = scale(p) + scale(q);
  close(b.br.GetVector(p, q), ref, far, "vector");
  auto dist = b.br.GetDistance(p, q);
  auto tol = 1e-14L * far * 2;
  CHECK(std::fabs(static_cast<gen::real>(dist) - gen::norm(ref)) <= tol,
        "distance " << dist << " expected " << double(gen::norm(ref)));
  auto dv = b.br.GetDistanceVector(p, q);
  close(dv.second, ref, far, "vector of the combined query");
  CHECK(dv.first == dist || std::fabs(dv.first - dist) <= 4e-16 * dist,
        "combined query distance " << dv.first << " vs " << dist);
  // neighbours
  for (std::size_t g = 0; g < b.m.dirs.size(); ++g) {
    for (int side = 0; side < 2; ++side) {
      auto r = p;
      for (std::size_t i = 0; i < b.m.dim; ++i) r[i] += (side ? -1 : 1) * b.m.dirs[g][i];
      auto nb = b.br.GetNeighbor(p, 2 * g + static_cast<std::size_t>(side));
      CHECK(nb == r, "neighbour " << 2 * g + side << " is " << pbt::show(nb) << " expected "
                                  << pbt::show(r));
    }
  }
}

PBT_TEST(predefined_neighbours, 20000, 1000000, 0.3)
{
  auto kind = c.s.urange(0, 3);
  static const std::size_t gamma[] = { 2, 4, 6, 6 };
  auto b = gen::predefined(kind);
  auto p = point(c.s, b.m.dim);
  for (auto& x : p) x %= 1L << 30;
  NOTE(b.m.name << " neighbours of " << pbt::show(p));
  c.nt(b.m.dim > 1);
  CHECK(b.br.GetGamma() == gamma[kind], "coordination " << b.br.GetGamma());
  std::vector<std::vector<long>> all;
  // rounding of the positions
  double noise = 0;
  for (auto x : p) noise += 1e-14 * std::fabs(static_cast<double>(x));
  for (std::size_t k = 0; k < gamma[kind]; ++k) {
    auto n = b.br.GetNeighbor(p, k);
    auto d = b.br.GetDistance(p, n);
    CHECK(std::fabs(d - 1) < 1e-12 + noise, "neighbour " << k << " " << pbt::show(n) << " at distance " << d);
    CHECK(std::find(all.begin(), all.end(), n) == all.end(), "neighbour " << k << " repeats");
    all.push_back(n);
  }
  // all points at distance one are neighbours
  std::size_t count = 0;
  auto dim = b.m.dim;
  for (long k = 0; k < (dim == 1 ? 5 : dim == 2 ? 25 : 125); ++k) {
    auto q = p;
    long r = k;
    for (std::size_t i = 0; i < dim; ++i, r /= 5) q[i] += r % 5 - 2;
    if (std::fabs(b.br.GetDistance(p, q) - 1) < 1e-9 + noise) ++count;
  }
  CHECK(count == gamma[kind], count << " points at distance one");
}

PBT_TEST(far_neighbours, 20000, 1000000, 0.3)
{
  // directions and points of any size the coordinates can hold
  auto dim = c.s.urange(1, c.s.coin(1, 6) ? 30 : 5), g = c.s.urange(1, 6);
  bwsl::Bravais::realvec_t unit(dim * dim, 0.0);
  for (auto i = 0UL; i < dim; ++i) unit[i * dim + i] = 1.0;
  auto const lim = 1L << c.s.urange(2, 61);
  std::vector<long> dirs;
  for (auto i = 0UL; i < dim * g; ++i) dirs.push_back(c.s.edgy(-lim, lim));
  bwsl::Bravais const br(dim, 2 * g, unit, unit, dirs);
  std::vector<long> p;
  for (auto i = 0UL; i < dim; ++i) p.push_back(c.s.edgy(-lim, lim));
  NOTE("directions " << pbt::show(dirs) << " from " << pbt::show(p));
  c.nt(lim > 1L << 31);
  CHECK(br.GetGamma() == 2 * g, "coordination " << br.GetGamma());
  for (auto k = 0UL; k < 2 * g; ++k) {
    auto want = p;
    for (auto i = 0UL; i < dim; ++i) {
      auto const v = dirs[k / 2 * dim + i];
      want[i] += k % 2 ? -v : v;
    }
    auto n = br.GetNeighbor(p, k);
    CHECK(n == want, "neighbour " << k << " is " << pbt::show(n) << " expected " << pbt::show(want));
  }
}
