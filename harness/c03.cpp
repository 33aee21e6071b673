// check: factor=12
// check: san_factor=3
#include "grids.hpp"
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Lattice.hpp>

using bwsl::HyperCubicGrid;
using B = HyperCubicGrid::boundaries_t;

const char* const pbt::rule =
  "Pairs of sites of random grids of 1..6 dimensions (up to 2^61 sites, odd and even extents, "
  "separations at and next to half the extent), and walks of up to 200 hops on closed and open "
  "grids and lattices, half of them closed into loops. Non-trivial: a pair whose separation must be "
  "folded, or a walk that crosses a boundary (open: visits at least two sites).";

PBT_TEST(jump_pair, 80000, 5000000, 0.3)
{
  auto size = gen::extents(c.s, 1, gen::dims(c.s), 1ULL << 61);
  auto b = c.s.coin(3, 4) ? B::Closed : B::Open;
  HyperCubicGrid g(size, b);
  std::vector<long> ca, cb, ref;
  bool folded = false, half = false;
  for (auto Lu : size) {
    auto L = static_cast<long>(Lu);
    auto x = static_cast<long>(c.s.uedgy(0, Lu - 1));
    long y = 0;
    if (c.s.coin()) { // around half an extent away, either way
      auto d = L / 2 + c.s.range(-1, 1);
      y = gen::wrap(static_cast<__int128>(x) + (c.s.coin() ? d : -d), Lu);
    } else {
      y = static_cast<long>(c.s.uedgy(0, Lu - 1));
    }
    ca.push_back(x);
    cb.push_back(y);
    auto d = y - x;
    if (b == B::Closed) {
      // the representative in (-L/2, L/2]
      auto r = gen::wrap(d, Lu);
      if (r > L - r) r -= L;
      folded = folded || r != d;
      half = half || r == L - r;
      d = r;
    }
    ref.push_back(d);
  }
  auto a = gen::undigits(ca, size), e = gen::undigits(cb, size);
  NOTE("extents " << pbt::show(size) << (b == B::Closed ? " closed" : " open") << " from "
                  << pbt::show(ca) << " to " << pbt::show(cb));
  c.nt(folded || (b == B::Open && a != e && size.size() > 1));
  c.cls(folded, "folded");
  c.cls(half, "exactly half an extent");
  c.cls(b == B::Open, "open");
  auto j = g.GetJump(a, e);
  CHECK(j == ref, "jump " << pbt::show(j) << " expected " << pbt::show(ref));
}

PBT_TEST(jump_all_pairs, 400, 40000, 0.3)
{
  auto size = gen::extents(c.s, 1, 4, 48);
  auto b = c.s.coin(3, 4) ? B::Closed : B::Open;
  HyperCubicGrid g(size, b);
  auto n = g.GetNumSites();
  NOTE("all pairs of sites, extents " << pbt::show(size) << (b == B::Closed ? " closed" : " open"));
  c.nt(n > 3);
  for (std::size_t a = 0; a < n; ++a) {
    auto ca = gen::digits(a, size);
    for (std::size_t e = 0; e < n; ++e) {
      auto ce = gen::digits(e, size);
      auto j = g.GetJump(a, e);
      CHECK(j.size() == size.size(), "jump of dimension " << j.size());
      for (std::size_t k = 0; k < size.size(); ++k) {
        auto L = static_cast<long>(size[k]), d = ce[k] - ca[k];
        if (b == B::Open) {
          CHECK(j[k] == d, "jump " << a << "->" << e << " " << pbt::show(j));
        } else {
          CHECK((j[k] - d) % L == 0 && 2 * j[k] > -L && 2 * j[k] <= L,
                "jump " << a << "->" << e << " " << pbt::show(j));
        }
      }
    }
  }
}

template<class G>
static void
walk(pbt::Ctx& c, G const& g, gen::sizes_t const& size, B b, bwsl::Lattice const* lat)
{
  auto dim = size.size();
  std::vector<long> pos, unwrapped(dim, 0), total(dim, 0);
  for (auto L : size) pos.push_back(static_cast<long>(c.s.urange(0, L - 1)));
  auto start = pos;
  bool crossed = false, moved = false;
  auto hop = [&](std::vector<long> const& h) {
    auto a = gen::undigits(pos, size);
    std::vector<long> next;
    for (std::size_t k = 0; k < dim; ++k) {
      auto raw = pos[k] + h[k];
      auto w = b == B::Closed ? gen::wrap(raw, size[k]) : raw;
      crossed = crossed || w != raw;
      moved = moved || h[k] != 0;
      next.push_back(w);
      unwrapped[k] += h[k];
    }
    auto e = gen::undigits(next, size);
    auto j = g.GetJump(a, e);
    for (std::size_t k = 0; k < dim; ++k) total[k] += j[k];
    pos = next;
  };
  auto limit = [&](std::size_t k) { return (static_cast<long>(size[k]) - 1) / 2; };
  std::size_t n = 0;
  bool biased = c.s.coin();
  while (c.s.more(n, 40, 200)) {
    std::vector<long> h(dim, 0);
    for (std::size_t k = 0; k < dim; ++k) {
      auto m = limit(k);
      auto lo = -m, hi = m;
      if (b == B::Open) {
        // on an open grid any hop that stays on the grid is allowed
        lo = -pos[k];
        hi = static_cast<long>(size[k]) - 1 - pos[k];
      } else if (biased && k == 0) {
        lo = 0;
      }
      h[k] = c.s.range(lo, hi);
    }
    hop(h);
  }
  CHECK(total == unwrapped, "jumps sum to " << pbt::show(total) << " but the walker moved by "
                                            << pbt::show(unwrapped));
  bool loop = c.s.coin();
  NOTE("start " << pbt::show(start) << ", " << n << " hops, displacement " << pbt::show(unwrapped));
  if (loop) {
    // go back to the start with allowed hops, not necessarily the way it came
    for (int guard = 0; pos != start && guard < 10000; ++guard) {
      std::vector<long> h(dim, 0);
      for (std::size_t k = 0; k < dim; ++k) {
        auto d = start[k] - pos[k];
        if (b == B::Closed && c.s.coin(1, 4)) d = d > 0 ? d - static_cast<long>(size[k]) : d;
        auto m = b == B::Closed ? limit(k) : static_cast<long>(size[k]);
        h[k] = std::max(-m, std::min(m, d));
      }
      if (std::all_of(h.begin(), h.end(), [](long x) { return x == 0; })) break; // extent 2
      hop(h);
    }
    if (pos == start) {
      CHECK(total == unwrapped, "closed walk: jumps sum to " << pbt::show(total) << " expected "
                                                             << pbt::show(unwrapped));
      std::vector<long> turns;
      for (std::size_t k = 0; k < dim; ++k) {
        CHECK(total[k] % static_cast<long>(size[k]) == 0,
              "the jumps of a closed walk sum to " << pbt::show(total));
        turns.push_back(unwrapped[k] / static_cast<long>(size[k]));
      }
      c.cls(std::any_of(turns.begin(), turns.end(), [](long t) { return t != 0; }),
            "loop with winding");
      c.cls(std::any_of(turns.begin(), turns.end(), [](long t) { return t < 0; }),
            "loop with negative winding");
      if (lat) {
        auto w = lat->GetWinding(total);
        CHECK(w == turns, "winding " << pbt::show(w) << " expected " << pbt::show(turns));
      }
    }
  }
  c.nt(crossed || (b == B::Open && moved && n > 1));
}

PBT_TEST(walk_grid, 6000, 400000, 0.3)
{
  auto size = gen::extents(c.s, 1, 4, 1ULL << 40);
  auto b = c.s.coin(3, 4) ? B::Closed : B::Open;
  NOTE("extents " << pbt::show(size) << (b == B::Closed ? " closed" : " open"));
  walk(c, HyperCubicGrid(size, b), size, b, nullptr);
}

PBT_TEST(walk_lattice, 5000, 300000, 0.3)
{
  auto kind = c.s.index(4);
  auto const& br = kind == 0   ? bwsl::ChainLattice
                   : kind == 1 ? bwsl::SquareLattice
                   : kind == 2 ? bwsl::TriangularLattice
                               : bwsl::CubicLattice;
  auto size = gen::extents(c.s, br.GetDim(), br.GetDim(), 80);
  auto b = c.s.coin(3, 4) ? B::Closed : B::Open;
  NOTE("lattice " << kind << " extents " << pbt::show(size)
                  << (b == B::Closed ? " closed" : " open"));
  bwsl::Lattice l(br, size, b);
  walk(c, l, size, b, &l);
}

PBT_TEST(winding_quotient, 10000, 600000, 0.3)
{
  // any jump that is a multiple of the extents, as accumulated by many loops
  auto kind = c.s.index(3);
  auto const& br = kind == 0   ? bwsl::ChainLattice
                   : kind == 1 ? bwsl::SquareLattice
                               : bwsl::CubicLattice;
  auto size = gen::extents(c.s, br.GetDim(), br.GetDim(), 40);
  bwsl::Lattice l(br, size);
  std::vector<long> jump, turns;
  for (auto L : size) {
    auto most = c.s.coin() ? 1L << 40 : LONG_MAX / static_cast<long>(L);
    auto t = c.s.coin() ? c.s.edgy(-most, most) : c.s.range(-most, most);
    turns.push_back(t);
    jump.push_back(t * static_cast<long>(L));
  }
  NOTE("extents " << pbt::show(size) << " jumps " << pbt::show(jump));
  c.nt(size.size() > 1);
  auto w = l.GetWinding(jump);
  CHECK(w == turns, "winding " << pbt::show(w) << " expected " << pbt::show(turns));
}
