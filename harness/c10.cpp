// check: cpu=90
// check: factor=6
// check: san_factor=4
// check: fuzz_runs=1500
#include "lattices.hpp"
#include <fstream>
#include <unistd.h>

const char* const pbt::rule =
  "Lattices over predefined and random user-defined Bravais lattices, up to 40 sites, 300..20000 and above 65536 "
  "sites (40..330 for pairs), open and closed; the four tables are saved (half of the time over an existing longer file), read back and "
  "every number compared with the lattice's own answer. Non-trivial: at least two sites and a "
  "position with a fractional component, or at least two dimensions.";

static std::vector<std::vector<std::string>>
read_csv(std::string const& file)
{
  std::ifstream in(file, std::ios::binary);
  CHECK(in.good(), "the saved file cannot be opened");
  std::ostringstream o;
  o << in.rdbuf();
  auto text = o.str();
  CHECK(!text.empty() && text.back() == '\n', "the file does not end with a complete line");
  std::vector<std::vector<std::string>> rows;
  std::istringstream ls(text);
  std::string line;
  while (std::getline(ls, line)) {
    std::vector<std::string> row;
    std::string cell;
    std::istringstream cs(line);
    while (std::getline(cs, cell, ',')) row.push_back(cell);
    if (!line.empty() && line.back() == ',') row.emplace_back();
    rows.push_back(row);
  }
  return rows;
}

static double
number(std::string const& s)
{
  char* end = nullptr;
  auto d = std::strtod(s.c_str(), &end);
  CHECK(!s.empty() && *end == 0, "cell " << pbt::quote(s) << " is no number");
  return d;
}

static void
same(std::vector<std::string> const& row, std::size_t at, std::vector<double> const& v, const char* what)
{
  CHECK(row.size() >= at + v.size(), what << ": row of " << row.size() << " cells");
  for (std::size_t k = 0; k < v.size(); ++k) {
    auto x = number(row[at + k]);
    CHECK(x == v[k] || std::fabs(x - v[k]) <= 1e-15 * std::fabs(v[k]),
          what << " component " << k << " saved as " << row[at + k] << " is " << v[k]);
  }
}

static std::vector<std::string>
header(std::vector<std::string> h, std::string const& letters, std::size_t dim)
{
  for (char ch : letters)
    for (std::size_t i = 0; i < dim; ++i) h.push_back(ch + std::to_string(i));
  return h;
}

static void
table(pbt::Ctx& c, gen::LatticeCase& l, std::size_t which)
{
  auto n = l.n();
  auto dim = l.m.dim;
  auto file = pbt::scratch() + "/table_" + std::to_string(getpid());
  bool frac = false;
  for (auto const& r : l.m.a)
    for (auto x : r) frac = frac || x != std::floor(x);
  c.nt(n > 1 && (dim > 1 || frac));
  c.cls(!l.closed, "open");
  static const char* names[] = { "positions", "distances", "momenta", "pairs" };
  NOTE("table of " << names[which]);
  c.cls(names[which]);
  if (c.s.coin()) {
    std::ofstream o(file);
    for (int i = 0; i < 3000; ++i) o << "old contents,1,2,3\n";
  } else {
    ::unlink(file.c_str());
  }
  if (which == 0) l.lat.SavePositions(file);
  if (which == 1) l.lat.SaveDistances(file);
  if (which == 2) l.lat.SaveMomenta(file);
  if (which == 3) l.lat.SavePairs(file);
  auto rows = read_csv(file);
  ::unlink(file.c_str());
  auto h = which == 0   ? header({ "i" }, "x", dim)
           : which == 1 ? header({ "i" }, "d", dim)
           : which == 2 ? header({ "i" }, "k", dim)
                        : header({ "i", "a", "b" }, "xyd", dim);
  CHECK(!rows.empty() && rows[0] == h, "header " << pbt::show(rows.empty() ? h : rows[0]));
  auto expected = which == 3 ? n * n : (which == 2 && !l.closed) ? 0 : n;
  CHECK(rows.size() == expected + 1, rows.size() - 1 << " rows instead of " << expected);
  for (std::size_t i = 0; i < expected; ++i) {
    auto const& row = rows[i + 1];
    CHECK(row.size() == h.size(), "row " << i << " has " << row.size() << " cells");
    CHECK(row[0] == std::to_string(i), "row " << i << " starts with " << row[0]);
    if (which == 0) same(row, 1, l.lat.GetPosition(i), "position");
    if (which == 1) same(row, 1, l.lat.GetVector(0, i), "vector");
    if (which == 2) same(row, 1, l.lat.GetMomentum(i), "momentum");
    if (which == 3) {
      auto a = static_cast<std::size_t>(number(row[1])), b = static_cast<std::size_t>(number(row[2]));
      CHECK(a < n && b < n, "row " << i << " names sites " << row[1] << "," << row[2]);
      CHECK(row[1] == std::to_string(a) && row[2] == std::to_string(b), "site cells");
      CHECK(l.lat.GetPairIndex(a, b) == i,
            "row " << i << " holds the pair (" << a << "," << b << ")");
      same(row, 3, l.lat.GetVector(0, a), "vector to a");
      same(row, 3 + dim, l.lat.GetVector(0, b), "vector to b");
      same(row, 3 + 2 * dim, l.lat.GetVector(a, b), "vector a->b");
    }
  }
}

PBT_TEST(tables, 1500, 100000, 0.3)
{
  auto l = gen::lattice(c, 40, 30, 2, 0, c.s.coin(1, 10) ? 5 : 3);
  table(c, l, c.s.index(4));
}

PBT_TEST(large_tables, 16, 800, 0.1)
{
  auto which = c.s.index(4);
  auto l = gen::lattice(c, which == 3 ? 330 : 20000, 10, 2, which == 3 ? 40 : 300);
  table(c, l, which);
}

// more sites than 16-bit numbers
PBT_TEST(huge_tables, 4, 60, 0.1)
{
  auto which = c.s.index(3);
  auto l = gen::lattice(c, 80000, 10, 2, 65537, 2);
  table(c, l, which);
}

PBT_TEST(many_dimensions, 60, 2000, 0.05)
{
  auto l = gen::lattice(c, 12, 30, 2, 0, 8);
  table(c, l, c.s.index(4));
}
