// check: factor=12
// check: san_factor=4
#include "grids.hpp"
#include <bwsl/HyperCubicGrid.hpp>
#include <bwsl/Pairs.hpp>
#include <unordered_set>

using bwsl::HyperCubicGrid;
using B = HyperCubicGrid::boundaries_t;

const char* const pbt::rule =
  "Numbers of values n from 1 to 2^32-1 with pairs (a,b) at the corners and anywhere; all n*n pairs "
  "for n<=40 (distinctness decided exactly); grids with up to 2^31 sites. Non-trivial: n>1 and a!=b.";

PBT_TEST(pair_bijection, 60000, 4000000, 0.3)
{
  std::size_t n = c.s.uedgy(1, 0xffffffffULL);
  std::size_t a = c.s.uedgy(0, n - 1), b = c.s.uedgy(0, n - 1);
  std::size_t a2 = c.s.coin() ? a : c.s.uedgy(0, n - 1), b2 = c.s.coin() ? b : c.s.uedgy(0, n - 1);
  NOTE("n=" << n << " (a,b)=(" << a << "," << b << ") (a2,b2)=(" << a2 << "," << b2 << ")");
  c.nt(n > 1 && a != b);
  c.cls(n > 65536, "n*n beyond 32 bits");
  namespace p = bwsl::pairs;
  auto i = p::GetPairIndex(a, b, n);
  CHECK(p::GetNumPairs(n) == n * n, "number of pairs " << p::GetNumPairs(n));
  CHECK(i < n * n, "index " << i);
  auto q = p::GetPair(i, n);
  CHECK(q.first == a && q.second == b,
        "index " << i << " splits into (" << q.first << "," << q.second << ")");
  CHECK(p::GetPairIndex(std::make_pair(a, b), n) == i, "the pair-argument form differs");
  auto j = p::GetPairIndex(a2, b2, n);
  CHECK((i == j) == (a == a2 && b == b2), "indices " << i << " and " << j);
  // any index at all comes from exactly the pair it splits into
  auto k = c.s.uedgy(0, n * n - 1);
  auto r = p::GetPair(k, n);
  CHECK(r.first < n && r.second < n, "index " << k << " splits outside");
  CHECK(p::GetPairIndex(r, n) == k && p::GetPairIndex(r.first, r.second, n) == k,
        "index " << k << " does not come back");
}

PBT_TEST(pair_exhaustive, 200, 20000, 0.5)
{
  std::size_t n = c.s.urange(1, 40);
  NOTE("all pairs for n=" << n);
  c.nt(n > 1);
  std::vector<char> seen(n * n, 0);
  for (std::size_t a = 0; a < n; ++a) {
    for (std::size_t b = 0; b < n; ++b) {
      auto i = bwsl::pairs::GetPairIndex(a, b, n);
      CHECK(i < n * n && !seen[i], "(" << a << "," << b << ") has index " << i << " of n=" << n);
      seen[i] = 1;
      CHECK(bwsl::pairs::GetPair(i, n) == std::make_pair(a, b), "index " << i << " n=" << n);
    }
  }
}

PBT_TEST(grid_pairs, 30000, 2000000, 0.3)
{
  auto size = gen::extents(c.s, 1, 5, 1ULL << 31);
  HyperCubicGrid g(size, c.s.coin() ? B::Closed : B::Open);
  auto n = static_cast<std::size_t>(gen::product(size));
  std::size_t a = c.s.uedgy(0, n - 1), b = c.s.uedgy(0, n - 1);
  NOTE("grid " << pbt::show(size) << " (a,b)=(" << a << "," << b << ")");
  c.nt(a != b);
  auto i = g.GetPairIndex(a, b);
  CHECK(i == bwsl::pairs::GetPairIndex(a, b, n), "grid index " << i << " differs");
  CHECK(i < n * n, "index out of range " << i);
  auto q = g.GetIndividualIndices(i);
  CHECK(q.first == a && q.second == b,
        "index " << i << " splits into (" << q.first << "," << q.second << ")");
  auto k = c.s.uedgy(0, n * n - 1);
  auto r = g.GetIndividualIndices(k);
  CHECK(r.first < n && r.second < n && g.GetPairIndex(r.first, r.second) == k,
        "index " << k << " does not come back");
}
