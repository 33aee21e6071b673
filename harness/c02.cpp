// check: factor=12
// check: san_factor=3
#include "grids.hpp"
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>

using bwsl::HyperCubicGrid;
using B = HyperCubicGrid::boundaries_t;

const char* const pbt::rule =
  "Random grids of 1..6 dimensions (up to 2^61 sites), open or closed, with coordinate vectors up "
  "to 50 periods (small extents: 1000) off the grid and pairs of sites; lattices (chain, square, "
  "cubic, triangular, up to 64 sites) with the same vectors. Non-trivial: at least two dimensions, "
  "and a component that has to be wrapped (or is off an open grid), or a displacement with a "
  "negative component.";

static std::vector<long>
far_coords(pbt::Src& s, gen::sizes_t const& size, bool& off)
{
  std::vector<long> v;
  for (auto L : size) {
    auto base = static_cast<__int128>(s.uedgy(0, L - 1));
    long periods = 0;
    switch (s.urange(0, 4)) {
      case 0:
        periods = s.range(-2, 2);
        break;
      case 1:
        periods = L < 1000 ? s.range(-1000, 1000) : s.range(-50, 50);
        break;
      default:;
    }
    auto x = base + static_cast<__int128>(periods) * static_cast<__int128>(L);
    auto lim = static_cast<__int128>(1) << 61;
    if (x > lim || x < -lim) x = base - (periods < 0 ? static_cast<__int128>(L) : 0);
    off = off || x < 0 || x >= static_cast<__int128>(L);
    v.push_back(static_cast<long>(x));
  }
  return v;
}

template<class G>
static void
check_enforce(G const& g, gen::sizes_t const& size, B b, std::vector<long> const& v)
{
  auto w = v;
  g.EnforceBoundaries(w);
  if (b == B::Open) {
    CHECK(w == v, "open boundaries changed " << pbt::show(v) << " into " << pbt::show(w));
    return;
  }
  std::vector<long> ref;
  for (std::size_t i = 0; i < v.size(); ++i) ref.push_back(gen::wrap(v[i], size[i]));
  CHECK(w == ref, "enforcing closed boundaries on " << pbt::show(v) << " gives " << pbt::show(w)
                                                    << " expected " << pbt::show(ref));
  CHECK(g.IsOnGrid(w), "the result is not on the grid");
  auto w2 = w;
  g.EnforceBoundaries(w2);
  CHECK(w2 == w, "enforcing twice changes the result to " << pbt::show(w2));
}

PBT_TEST(enforce_grid, 60000, 4000000, 0.3)
{
  auto size = gen::extents(c.s, 1, gen::dims(c.s), 1ULL << 61);
  auto b = c.s.coin(2, 3) ? B::Closed : B::Open;
  bool off = false;
  auto v = far_coords(c.s, size, off);
  NOTE("extents " << pbt::show(size) << (b == B::Closed ? " closed " : " open ") << pbt::show(v));
  c.nt(size.size() > 1 && off);
  c.cls(b == B::Open, "open");
  c.cls(off, "off the grid");
  check_enforce(HyperCubicGrid(size, b), size, b, v);
}

PBT_TEST(enforce_lattice, 12000, 800000, 0.3)
{
  auto kind = c.s.index(4);
  auto const& br = kind == 0   ? bwsl::ChainLattice
                   : kind == 1 ? bwsl::SquareLattice
                   : kind == 2 ? bwsl::TriangularLattice
                               : bwsl::CubicLattice;
  auto size = gen::extents(c.s, br.GetDim(), br.GetDim(), 64);
  auto b = c.s.coin() ? B::Closed : B::Open;
  bool off = false;
  auto v = far_coords(c.s, size, off);
  NOTE("lattice " << kind << " extents " << pbt::show(size)
                  << (b == B::Closed ? " closed " : " open ") << pbt::show(v));
  c.nt(size.size() > 1 && off);
  c.cls(b == B::Open, "open");
  bwsl::Lattice l(br, size, b);
  check_enforce(l, size, b, v);
  check_enforce(l.GetGrid(), size, b, v);
  // and through the base class
  HyperCubicGrid const& g = l;
  check_enforce(g, size, b, v);
}

PBT_TEST(mapping, 60000, 4000000, 0.3)
{
  auto size = gen::extents(c.s, 1, gen::dims(c.s), 1ULL << 61);
  auto b = c.s.coin(2, 3) ? B::Closed : B::Open;
  HyperCubicGrid g(size, b);
  std::vector<long> ca, d, cb;
  bool neg = false;
  for (auto L : size) {
    auto x = c.s.uedgy(0, L - 1), y = c.s.uedgy(0, L - 1);
    if (b == B::Open && y < x) std::swap(x, y);
    ca.push_back(static_cast<long>(x));
    cb.push_back(static_cast<long>(y));
    neg = neg || y < x;
    d.push_back(gen::wrap(static_cast<__int128>(y) - static_cast<__int128>(x), L));
  }
  auto a = gen::undigits(ca, size), e = gen::undigits(cb, size), i = gen::undigits(d, size);
  NOTE("extents " << pbt::show(size) << (b == B::Closed ? " closed" : " open") << " a=" << a << " "
                  << pbt::show(ca) << " b=" << e << " " << pbt::show(cb));
  c.nt(size.size() > 1 && a != e && (neg || b == B::Open));
  c.cls(b == B::Open, "open");
  c.cls(neg, "wrapping displacement");
  auto m = g.GetMappedSite(a, e);
  CHECK(m == i, "GetMappedSite = " << m << " expected " << i);
  auto u = g.GetUnMappedSite(i, a);
  CHECK(u == e, "GetUnMappedSite(" << i << "," << a << ") = " << u << " expected " << e);
  CHECK(g.GetMappedSite(a, a) == 0, "a site is not mapped onto site 0 relative to itself");
  CHECK(g.GetMappedSite(0, e) == e && g.GetUnMappedSite(e, 0) == e,
        "mapping relative to site 0 is not the identity");
}

PBT_TEST(mapping_all, 400, 40000, 0.3)
{
  auto size = gen::extents(c.s, 1, 4, 40);
  auto b = c.s.coin(2, 3) ? B::Closed : B::Open;
  HyperCubicGrid g(size, b);
  auto n = g.GetNumSites();
  NOTE("all pairs of sites, extents " << pbt::show(size) << (b == B::Closed ? " closed" : " open"));
  c.nt(size.size() > 1 && n > 2);
  for (std::size_t a = 0; a < n; ++a) {
    auto ca = gen::digits(a, size);
    for (std::size_t e = 0; e < n; ++e) {
      auto ce = gen::digits(e, size);
      std::vector<long> d, t;
      bool inside = true, tin = true;
      for (std::size_t k = 0; k < size.size(); ++k) {
        auto L = static_cast<long>(size[k]);
        inside = inside && ce[k] >= ca[k];
        tin = tin && ce[k] + ca[k] < L;
        d.push_back((ce[k] - ca[k] + L) % L);
        t.push_back((ce[k] + ca[k]) % L);
      }
      if (b == B::Closed || inside) {
        CHECK(g.GetMappedSite(a, e) == gen::undigits(d, size),
              "GetMappedSite(" << a << "," << e << ")=" << g.GetMappedSite(a, e));
      }
      if (b == B::Closed || tin) {
        CHECK(g.GetUnMappedSite(e, a) == gen::undigits(t, size),
              "GetUnMappedSite(" << e << "," << a << ")=" << g.GetUnMappedSite(e, a));
      }
    }
  }
}
