// check: cpu=90
// check: factor=12
// check: san_factor=2
// check: fuzz_runs=2000
#include "lattices.hpp"

const char* const pbt::rule =
  "Lattices over predefined and random user-defined Bravais lattices (0..4 neighbour directions, "
  "possibly zero or repeated ones), extents 1 upwards with up to 150 sites (all sites and all "
  "pairs of sites) and 200..90000 sites (all sites, sampled pairs), open and closed; 20..1500 directions on lattices of up to 60 sites. Non-trivial: at least three sites in at least two dimensions, or "
  "open boundaries with some missing neighbour.";

static std::vector<std::size_t>
reference(gen::LatticeCase const& l, std::size_t i, bool* missing = nullptr)
{
  auto ci = gen::digits(i, l.size);
  std::vector<std::size_t> ref;
  for (auto const& d : l.m.dirs) {
    for (int side = 1; side >= -1; side -= 2) {
      std::vector<long> w;
      bool on = true;
      for (std::size_t k = 0; k < ci.size(); ++k) {
        auto x = ci[k] + side * d[k];
        on = on && x >= 0 && x < static_cast<long>(l.size[k]);
        w.push_back(gen::wrap(x, l.size[k]));
      }
      if (l.closed || on) ref.push_back(gen::undigits(w, l.size));
      if (missing) *missing = *missing || !on;
    }
  }
  std::sort(ref.begin(), ref.end());
  return ref;
}

PBT_TEST(large_lattices, 8, 400, 0.1)
{
  auto l = gen::lattice(c, c.s.coin(1, 4) ? 90000 : 6000, 10, 2, 200);
  auto n = l.n();
  c.nt();
  c.cls(n > 65536, "more than 65536 sites");
  for (std::size_t i = 0; i < n; ++i) {
    auto ref = reference(l, i);
    auto got = l.lat.GetNeighbors(i);
    CHECK(l.lat.GetCoordination(i) == got.size(),
          "coordination " << l.lat.GetCoordination(i) << " of site " << i << " with list "
                          << pbt::show(got));
    std::sort(got.begin(), got.end());
    CHECK(got == ref, "neighbours of " << i << ": " << pbt::show(got) << " expected "
                                       << pbt::show(ref));
    for (auto b : ref)
      CHECK(l.lat.AreNeighbors(i, b) && l.lat.AreNeighbors(b, i),
            i << " and " << b << " are neighbours but AreNeighbors denies it");
  }
  auto sites = gen::sample_sites(c.s, n, 60);
  for (auto a : sites) {
    auto ref = reference(l, a);
    for (auto b : sites)
      CHECK(l.lat.AreNeighbors(a, b) == std::binary_search(ref.begin(), ref.end(), b),
            "AreNeighbors(" << a << "," << b << ")=" << l.lat.AreNeighbors(a, b));
  }
}

static void
lists_of(pbt::Ctx& c, std::uint64_t most, std::size_t dims)
{
  auto l = gen::lattice(c, most, 30, 2, 0, dims);
  auto n = l.n();
  bool missing = false;
  std::vector<std::vector<std::size_t>> lists;
  for (std::size_t i = 0; i < n; ++i) {
    auto ref = reference(l, i, &missing);
    auto got = l.lat.GetNeighbors(i);
    CHECK(l.lat.GetCoordination(i) == got.size(),
          "coordination " << l.lat.GetCoordination(i) << " of site " << i << " with list "
                          << pbt::show(got));
    std::sort(got.begin(), got.end());
    CHECK(got == ref, "neighbours of " << i << ": " << pbt::show(got) << " expected "
                                       << pbt::show(ref));
    lists.push_back(got);
  }
  c.nt((n > 2 && l.m.dim > 1 && !l.m.dirs.empty()) || (!l.closed && missing));
  c.cls(!l.closed && missing, "open with missing neighbours");
  c.cls(l.m.name.c_str());
  if (l.closed) {
    CHECK(l.lat.GetCoordination() == 2 * l.m.dirs.size(),
          "coordination number " << l.lat.GetCoordination());
  }
  for (std::size_t a = 0; a < n; ++a) {
    for (std::size_t b = 0; b < n; ++b) {
      auto in = std::count(lists[a].begin(), lists[a].end(), b);
      auto back = std::count(lists[b].begin(), lists[b].end(), a);
      CHECK(in == back, "neighbourhood of " << a << " and " << b << " is not symmetric");
      CHECK(l.lat.AreNeighbors(a, b) == (in > 0),
            "AreNeighbors(" << a << "," << b << ")=" << l.lat.AreNeighbors(a, b));
    }
  }
}

PBT_TEST(neighbour_lists, 6000, 400000, 0.3)
{
  lists_of(c, 150, c.s.coin(1, 10) ? 5 : 3);
}

PBT_TEST(many_directions, 60, 4000, 0.1)
{
  // hundreds of directions, distinct and repeated ones, on small lattices
  auto b = gen::predefined(c.s.urange(0, 3));
  auto m = b.m;
  m.name += " with many directions";
  auto count = c.s.coin() ? c.s.urange(480, 1500) : c.s.urange(20, 479);
  auto reach = c.s.coin(1, 3) ? 40L : c.s.range(1, 6);
  m.dirs.clear();
  for (std::size_t k = 0; k < count; ++k) {
    std::vector<long> d;
    for (std::size_t i = 0; i < m.dim; ++i) d.push_back(c.s.range(-reach, reach));
    m.dirs.push_back(d);
  }
  auto br = gen::build(m);
  auto size = gen::extents(c.s, m.dim, m.dim, 60);
  bool closed = c.s.coin(2, 3);
  NOTE(m.name << ": " << count << " directions up to " << reach << " extents " << pbt::show(size)
              << (closed ? " closed" : " open"));
  bwsl::Lattice lat(br, size, closed ? bwsl::HyperCubicGrid::boundaries_t::Closed
                                     : bwsl::HyperCubicGrid::boundaries_t::Open);
  gen::LatticeCase l{ m, br, size, closed, lat };
  auto n = l.n();
  c.nt(n > 1);
  c.cls(2 * count > 1000 && closed, "more than 1000 neighbours");
  if (closed)
    CHECK(lat.GetCoordination() == 2 * count, "coordination number " << lat.GetCoordination());
  for (int k = 0; k < 12; ++k) {
    auto i = c.s.index(n);
    auto ref = reference(l, i);
    auto got = l.lat.GetNeighbors(i);
    CHECK(l.lat.GetCoordination(i) == got.size(),
          "coordination " << l.lat.GetCoordination(i) << " of site " << i << " with "
                          << got.size() << " neighbours");
    CHECK(got.size() == ref.size(), got.size() << " neighbours of " << i << " instead of "
                                               << ref.size());
    std::sort(got.begin(), got.end());
    CHECK(got == ref, "neighbours of " << i << ": " << pbt::show(got) << " expected "
                                       << pbt::show(ref));
    auto j = c.s.index(n);
    CHECK(l.lat.AreNeighbors(i, j) == std::binary_search(ref.begin(), ref.end(), j),
          "AreNeighbors(" << i << "," << j << ")=" << l.lat.AreNeighbors(i, j));
  }
}

PBT_TEST(many_dimensions, 100, 4000, 0.05)
{
  lists_of(c, 16, 8);
}
