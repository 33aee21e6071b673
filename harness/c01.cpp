// check: factor=4
// check: san_factor=1
#include "grids.hpp"
#include <bwsl/HyperCubicGrid.hpp>
#include <deque>

using bwsl::HyperCubicGrid;
using B = HyperCubicGrid::boundaries_t;

const char* const pbt::rule =
  "Random grids of 1..6, sometimes up to 100 dimensions, extents small, equal, dominated by one direction or huge "
  "(up to 2^62 sites), open or closed; every site when there are at most 3000, otherwise 200 "
  "random and extreme sites; plus coordinate vectors on, just off and far off the grid; the underlying conversions with vectors and deques of eight integral types. "
  "Non-trivial: at least two dimensions with extents above one that are not all equal.";

static bool
interesting(gen::sizes_t const& size)
{
  std::size_t big = 0;
  bool differ = false;
  for (auto x : size) {
    big += x > 1;
    differ = differ || x != size[0];
  }
  return big >= 2 && differ;
}

static HyperCubicGrid
make(pbt::Src& s, gen::sizes_t const& size, B b)
{
  HyperCubicGrid g(size, b);
  switch (s.urange(0, 3)) {
    case 0:
      return g;
    case 1: {
      HyperCubicGrid h({ 2, 3 }, B::Open);
      h = g;
      return h;
    }
    case 2: {
      HyperCubicGrid h;
      h = std::move(g);
      return h;
    }
    default:
      return g.GetGrid();
  }
}

static void
check_site(HyperCubicGrid const& g, gen::sizes_t const& size, std::size_t i)
{
  auto c = g.GetCoordinates(i);
  auto ref = gen::digits(i, size);
  CHECK(c == ref, "site " << i << " has coordinates " << pbt::show(c) << " expected "
                          << pbt::show(ref));
  CHECK(g.GetIndex(c) == i, "site " << i << " -> " << pbt::show(c) << " -> " << g.GetIndex(c));
  CHECK(g.IsOnGrid(c), "coordinates of site " << i << " are not on the grid");
  CHECK(g.IndexIsValid(i), "site " << i << " is not valid");
}

PBT_TEST(grid_indices, 20000, 1500000, 0.3)
{
  auto size = gen::extents(c.s, 1, gen::dims(c.s), 1ULL << 62);
  auto b = c.s.coin() ? B::Closed : B::Open;
  NOTE("extents " << pbt::show(size) << (b == B::Closed ? " closed" : " open"));
  auto g = make(c.s, size, b);
  auto n = static_cast<std::size_t>(gen::product(size));
  c.nt(interesting(size));
  c.cls(n > 3000, "sampled sites");
  c.cls(n > (1ULL << 32), "more than 2^32 sites");
  c.cls(b == B::Open, "open");
  CHECK(g.GetNumSites() == n, "number of sites " << g.GetNumSites() << " expected " << n);
  CHECK(g.GetDim() == size.size(), "dimension " << g.GetDim());
  CHECK(g.GetSize() == size, "size " << pbt::show(g.GetSize()));
  CHECK(g.GetBoundaries() == b && g.HasClosedBoundaries() == (b == B::Closed) &&
          g.HasOpenBoundaries() == (b == B::Open),
        "boundary queries are inconsistent");
  CHECK(!g.IndexIsValid(n) && !g.IndexIsValid(n + 1 + c.s.uedgy(0, 1000)) &&
          !g.IndexIsValid(~std::size_t{ 0 }),
        "an index beyond the number of sites is valid");
  if (n <= 3000) {
    for (std::size_t i = 0; i < n; ++i) check_site(g, size, i);
  } else {
    check_site(g, size, 0);
    check_site(g, size, n - 1);
    auto bulk = c.s.bulk();
    for (int k = 0; k < 200; ++k) check_site(g, size, bulk.uedgy(0, n - 1));
  }
  // coordinates given first
  for (int k = 0; k < 8; ++k) {
    std::vector<long> v;
    for (auto L : size) v.push_back(static_cast<long>(c.s.uedgy(0, L - 1)));
    auto i = g.GetIndex(v);
    CHECK(i < n && i == gen::undigits(v, size),
          "coordinates " << pbt::show(v) << " have index " << i << " expected "
                         << gen::undigits(v, size));
    CHECK(g.GetCoordinates(i) == v, "coordinates " << pbt::show(v) << " come back as "
                                                   << pbt::show(g.GetCoordinates(i)));
  }
}

PBT_TEST(grid_membership, 30000, 2000000, 0.3)
{
  auto size = gen::extents(c.s, 1, gen::dims(c.s), 1ULL << 62);
  auto b = c.s.coin() ? B::Closed : B::Open;
  HyperCubicGrid g(size, b);
  std::vector<long> v;
  bool on = true;
  std::size_t off = 0;
  for (auto L : size) {
    auto l = static_cast<long>(L);
    long x = 0;
    switch (c.s.urange(0, 7)) {
      case 0:
        x = l;
        break;
      case 1:
        x = -1;
        break;
      case 2:
        x = c.s.coin() ? c.s.edgy(LONG_MIN, LONG_MAX) : -static_cast<long>(c.s.uedgy(0, L));
        break;
      case 3:
        x = l - 1;
        break;
      default:
        x = static_cast<long>(c.s.uedgy(0, L - 1));
    }
    v.push_back(x);
    on = on && x >= 0 && x < l;
    off += !(x >= 0 && x < l);
  }
  NOTE("extents " << pbt::show(size) << " coordinates " << pbt::show(v));
  c.nt(size.size() >= 2);
  c.cls(on ? "on the grid" : "off the grid");
  c.cls(off == 1, "off in exactly one component");
  CHECK(g.IsOnGrid(v) == on, "IsOnGrid(" << pbt::show(v) << ") = " << g.IsOnGrid(v));
}

// the functions underneath, for coordinates of any integral type and any container
template<class C, class D>
static void
free_functions(pbt::Ctx& c, gen::sizes_t const& size, std::size_t i)
{
  using V = typename C::value_type;
  D d(size.begin(), size.end());
  auto ref = gen::digits(i, size);
  auto v = bwsl::index_to_array<C, D>(i, d);
  CHECK(v.size() == size.size(), "index " << i << " has " << v.size() << " coordinates");
  for (auto k = 0UL; k < size.size(); ++k)
    CHECK(v[k] == static_cast<V>(ref[k]), "coordinate " << k << " of index " << i << " is " << +v[k] << " expected " << ref[k]);
  auto j = bwsl::array_to_index(v, d);
  CHECK(j == i, "index " << i << " comes back as " << j);
  c.cls(sizeof(V) < 4, "narrow coordinates");
}

PBT_TEST(free_conversions, 12000, 600000, 0.3)
{
  auto type = c.s.index(8);
  auto size = gen::extents(c.s, 1, gen::dims(c.s), 1ULL << 62);
  // every coordinate is representable
  const std::size_t limit[] = { 127, 32767, 32767, 65535, 2147483647, 2147483647, 1ULL << 62, 1ULL << 62 };
  for (auto& x : size) x = std::min(x, limit[type]);
  auto n = static_cast<std::size_t>(gen::product(size));
  c.nt(interesting(size));
  for (int k = 0; k < 6; ++k) {
    auto i = k == 0 ? n - 1 : c.s.uedgy(0, n - 1);
    NOTE("extents " << pbt::show(size) << " index " << i << " coordinate type " << type);
    using std::deque;
    using std::vector;
    switch (type) {
      case 0:
        free_functions<vector<signed char>, vector<size_t>>(c, size, i);
        break;
      case 1:
        free_functions<vector<short>, vector<size_t>>(c, size, i);
        break;
      case 2:
        free_functions<deque<short>, deque<size_t>>(c, size, i);
        break;
      case 3:
        free_functions<vector<unsigned short>, deque<size_t>>(c, size, i);
        break;
      case 4:
        free_functions<vector<int>, vector<size_t>>(c, size, i);
        break;
      case 5:
        free_functions<deque<unsigned>, vector<size_t>>(c, size, i);
        break;
      case 6:
        free_functions<vector<size_t>, vector<size_t>>(c, size, i);
        break;
      default:
        free_functions<deque<long>, vector<size_t>>(c, size, i);
    }
  }
}
