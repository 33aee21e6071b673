// check: cpu=90
// check: factor=6
// check: san_factor=1.5
// check: fuzz_runs=3000
#include "lattices.hpp"

const char* const pbt::rule =
  "Lattices over predefined and random user-defined Bravais lattices, different extents per "
  "direction, up to 48 sites (all momenta) and 60..3000 sites (sampled momenta and the sum over all), open and closed, with random real or integer configurations, "
  "multipliers (also of scale 2^-300 to 2^300) and accumulated histories. Non-trivial: closed with at least two dimensions of "
  "different extents and a configuration that is not uniform, or open with a non-zero configuration.";

template<class T>
static std::vector<gen::real>
dft(gen::LatticeCase const& l, std::vector<T> const& occ, double mult,
    std::vector<std::size_t> const& sites)
{
  auto n = l.n();
  std::vector<gen::real> out;
  for (auto i : sites) {
    auto ci = gen::digits(i, l.size);
    gen::real re = 0, im = 0;
    for (std::size_t j = 0; j < n; ++j) {
      auto cj = gen::digits(j, l.size);
      // k.r / 2pi = sum_d (c_d - floor(L_d/2)) x_d / L_d, exactly reduced
      gen::real ph = 0;
      for (std::size_t d = 0; d < ci.size(); ++d) {
        auto L = static_cast<long>(l.size[d]);
        auto num = ((ci[d] - L / 2) * cj[d]) % L;
        ph += static_cast<gen::real>(num) / static_cast<gen::real>(L);
      }
      re += std::cos(2 * gen::pi * ph) * static_cast<gen::real>(occ[j]);
      im += std::sin(2 * gen::pi * ph) * static_cast<gen::real>(occ[j]);
    }
    out.push_back(mult * (re * re + im * im) / (static_cast<gen::real>(n) * static_cast<gen::real>(n)));
  }
  return out;
}

template<class T>
static void
structure(pbt::Ctx& c, gen::LatticeCase& l, std::vector<T> const& occ, double mult)
{
  auto n = l.n();
  auto sk = mult == 1.0 && c.s.coin() ? l.lat.ComputeSk(occ) : l.lat.ComputeSk(occ, mult);
  CHECK(sk.size() == n, "structure factor of size " << sk.size());
  gen::real w = 0, w2 = 0;
  for (auto x : occ) {
    w += std::fabs(static_cast<gen::real>(x));
    w2 += static_cast<gen::real>(x) * static_cast<gen::real>(x);
  }
  auto tol = 1e-12L * std::fabs(mult) * w * w / static_cast<gen::real>(n) + 1e-300L;
  std::vector<double> acc;
  for (std::size_t i = 0; i < n; ++i)
    acc.push_back(c.s.coin() ? 0.0 : c.s.real(-4, 4) * static_cast<double>(w2 / static_cast<gen::real>(n)));
  auto before = acc;
  if (mult == 1.0 && c.s.coin()) {
    l.lat.AccumulateSk(occ, acc);
  } else {
    l.lat.AccumulateSk(occ, acc, mult);
  }
  CHECK(acc.size() == n, "accumulated size " << acc.size());
  if (!l.closed) {
    for (auto x : sk) CHECK(x == 0, "open boundaries: structure factor " << pbt::show(sk));
    CHECK(acc == before, "open boundaries: accumulation changed the stored values");
    return;
  }
  std::vector<std::size_t> all(n);
  for (std::size_t i = 0; i < n; ++i) all[i] = i;
  auto ref = dft(l, occ, mult, all);
  gen::real total = 0;
  for (std::size_t i = 0; i < n; ++i) {
    CHECK(std::fabs(sk[i] - ref[i]) <= tol,
          "S(" << i << ")=" << sk[i] << " expected " << double(ref[i]));
    CHECK(std::fabs(acc[i] - before[i] - sk[i]) <= tol + 1e-15L * (std::fabs(before[i]) + std::fabs(sk[i])),
          "accumulated " << acc[i] << " from " << before[i] << " and " << sk[i]);
    total += sk[i];
  }
  CHECK(std::fabs(total - mult * w2 / static_cast<gen::real>(n)) <= tol * static_cast<gen::real>(n),
        "sum over momenta " << double(total) << " expected "
                            << double(mult * w2 / static_cast<gen::real>(n)));
  // translate the configuration
  auto t = c.s.index(n);
  std::vector<T> moved(n);
  for (std::size_t j = 0; j < n; ++j) moved[l.lat.GetUnMappedSite(j, t)] = occ[j];
  auto sm = l.lat.ComputeSk(moved, mult);
  for (std::size_t i = 0; i < n; ++i) {
    CHECK(std::fabs(sm[i] - sk[i]) <= tol, "translated by " << t << ": S(" << i << ")=" << sm[i]
                                                            << " instead of " << sk[i]);
  }
}

static void
check_momentum(gen::LatticeCase const& l, std::size_t i, gen::real nb)
{
  auto const& m = l.m;
  auto ci = gen::digits(i, l.size);
  gen::rvec ref(m.dim, 0);
  for (std::size_t j = 0; j < m.dim; ++j) {
    auto f = static_cast<gen::real>(ci[j] - static_cast<long>(l.size[j] / 2)) /
             static_cast<gen::real>(l.size[j]);
    for (std::size_t k = 0; k < m.dim; ++k) ref[k] += f * 2 * gen::pi * m.b[j][k];
  }
  auto k = l.lat.GetMomentum(i);
  CHECK(k.size() == m.dim, "momentum of dimension " << k.size());
  for (std::size_t q = 0; q < m.dim; ++q) {
    CHECK(std::fabs(k[q] - ref[q]) <= 1e-13L * nb,
          "momentum of site " << i << " is " << pbt::show(k) << " expected " << pbt::show(ref));
  }
  // compatible with the periodic boundaries
  for (std::size_t j = 0; j < m.dim; ++j) {
    gen::real ph = 0;
    for (std::size_t q = 0; q < m.dim; ++q)
      ph += static_cast<gen::real>(k[q]) * m.a[j][q] * static_cast<gen::real>(l.size[j]);
    ph /= 2 * gen::pi;
    CHECK(std::fabs(ph - std::round(ph)) < 1e-8L, "momentum " << i << " " << pbt::show(k)
                                                              << " is not periodic");
  }
}

PBT_TEST(large_momenta, 10, 500, 0.1)
{
  auto l = gen::lattice(c, c.s.coin(1, 4) ? 90000 : 9000, 10, 4, 200);
  auto n = l.n();
  c.nt(l.m.dim > 1);
  gen::real nb = 1 / l.m.unit;
  for (auto const& r : l.m.b) nb += gen::norm(r);
  for (std::size_t i = 0; i < n; ++i) check_momentum(l, i, nb);
}

PBT_TEST(large_structure_factor, 12, 500, 0.1)
{
  auto l = gen::lattice(c, 900, 10, 4, 60);
  if (c.s.coin(1, 12)) l = gen::lattice(c, 3000, 10, 4, 1000);
  auto n = l.n();
  double mult = c.s.coin() ? 1.0 : c.s.real(0, 10);
  auto bulk = c.s.bulk();
  auto integers = c.s.coin();
  auto fill = c.s.coin() ? c.s.real(0.02, 1) : 1.0; // share of occupied sites
  std::vector<double> occ;
  gen::real w = 0, w2 = 0;
  for (std::size_t i = 0; i < n; ++i) {
    double x = bulk.real(0, 1) < fill ? (integers ? static_cast<double>(bulk.index(7)) - 2 : bulk.real(-2, 2)) : 0;
    occ.push_back(x);
    w += std::fabs(static_cast<gen::real>(x));
    w2 += static_cast<gen::real>(x) * x;
  }
  c.nt(w2 > 0);
  c.cls(n >= 256, "at least 256 sites");
  std::vector<double> sk;
  if (integers && c.s.coin()) {
    sk = l.lat.ComputeSk(std::vector<int>(occ.begin(), occ.end()), mult);
  } else {
    sk = l.lat.ComputeSk(occ, mult);
  }
  CHECK(sk.size() == n, "structure factor of size " << sk.size());
  auto tol = 2e-12L * std::fabs(mult) * w * w / static_cast<gen::real>(n) + 1e-300L;
  auto sites = gen::sample_sites(c.s, n, 20);
  auto ref = dft(l, occ, mult, sites);
  for (std::size_t q = 0; q < sites.size(); ++q)
    CHECK(std::fabs(sk[sites[q]] - ref[q]) <= tol,
          "S(" << sites[q] << ")=" << sk[sites[q]] << " expected " << double(ref[q]));
  gen::real total = 0;
  for (auto x : sk) total += x;
  CHECK(std::fabs(total - mult * w2 / static_cast<gen::real>(n)) <= tol * static_cast<gen::real>(n),
        "sum over momenta " << double(total) << " expected "
                            << double(mult * w2 / static_cast<gen::real>(n)));
}

static void
momenta_of(pbt::Ctx& c, std::uint64_t most, std::size_t dims)
{
  auto l = gen::lattice(c, most, 30, 4, 0, dims);
  auto n = l.n();
  auto const& m = l.m;
  bool differ = false;
  for (auto L : l.size) differ = differ || L != l.size[0];
  c.nt(m.dim > 1 && differ);
  c.cls(m.name.c_str());
  gen::real nb = 1 / m.unit;
  for (auto const& r : m.b) nb += gen::norm(r);
  for (std::size_t i = 0; i < n; ++i) {
    check_momentum(l, i, nb);
  }
}

static void
structure_of(pbt::Ctx& c, std::uint64_t most, std::size_t dims)
{
  auto l = gen::lattice(c, most, 30, 3, 0, dims);
  auto n = l.n();
  double mult = c.s.coin() ? 1.0 : c.s.real(-2, 10);
  if (c.s.coin(1, 12)) mult = std::ldexp(mult, static_cast<int>(c.s.range(-300, 300)));
  auto kind = c.s.index(4);
  // very large and very small occupations
  auto scale = !c.s.coin(1, 4) ? 0 : kind == 1 ? 40 : kind == 0 ? 0 : static_cast<int>(c.s.range(-100, 60));
  bool differ = false, uniform = true, zero = true;
  for (auto L : l.size) differ = differ || L != l.size[0];
  std::vector<double> occ;
  for (std::size_t i = 0; i < n; ++i) {
    auto x = kind == 0 ? static_cast<double>(c.s.range(0, 3)) : kind == 1 ? static_cast<double>(c.s.range(-5, 5)) : c.s.real(-2, 2);
    x = std::ldexp(x, scale);
    if (kind == 3) x = static_cast<float>(x);
    uniform = uniform && (occ.empty() || occ[0] == x);
    zero = zero && x == 0;
    occ.push_back(x);
  }
  NOTE("mult " << mult << " configuration " << pbt::show(occ));
  c.nt((l.closed && differ && !uniform && l.m.dim > 1) || (!l.closed && !zero));
  c.cls(!l.closed, "open");
  if (kind == 0) {
    structure(c, l, std::vector<unsigned char>(occ.begin(), occ.end()), mult);
  } else if (kind == 1) {
    structure(c, l, std::vector<long>(occ.begin(), occ.end()), mult);
  } else if (kind == 3) {
    structure(c, l, std::vector<float>(occ.begin(), occ.end()), mult);
  } else {
    structure(c, l, occ, mult);
  }
}

PBT_TEST(momenta, 8000, 500000, 0.3)
{
  momenta_of(c, 150, c.s.coin(1, 10) ? 5 : 3);
}

PBT_TEST(structure_factor, 3000, 150000, 0.3)
{
  structure_of(c, 48, c.s.coin(1, 10) ? 5 : 3);
}

PBT_TEST(many_dimensions, 100, 4000, 0.05)
{
  if (c.s.coin()) {
    momenta_of(c, 16, 8);
  } else {
    structure_of(c, 16, 8);
  }
}
