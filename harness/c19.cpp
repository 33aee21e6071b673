// check: libs=-lboost_serialization
#include "archives.hpp"
#include "text.hpp"
#include <bwsl/ObservableGroup.hpp>
#include <map>
#include <unistd.h>

const char* const pbt::rule =
  "Groups of 1..6 observables keyed by text, integers or characters, with histories of "
  "measurements (dyadic values so that sums are exact), unknown observables, added and re-added "
  "observables, header lines and prints with 0..17 decimals over a file that may already hold "
  "text; the whole file is compared after every print; also up to 2048 observables, 300 prints and 400000 "
  "measurements. Non-trivial: at least two observables and "
  "two prints with measurements in between.";

template<class Key>
struct Model
{
  std::map<Key, std::pair<double, unsigned long>> acc;
};

template<class Key>
static std::string
name(Key const& k)
{
  std::ostringstream o;
  o << k;
  return o.str();
}

static std::vector<std::string>
split(std::string const& line)
{
  std::vector<std::string> v(1);
  for (char ch : line) {
    if (ch == ',') {
      v.emplace_back();
    } else {
      v.back() += ch;
    }
  }
  return v;
}

template<class Key>
static void
drive(pbt::Ctx& c, std::vector<Key> const& pool)
{
  using G = bwsl::ObservableGroup<Key>;
  auto file = pbt::scratch() + "/obs_" + std::to_string(getpid());
  ::unlink(file.c_str());
  std::vector<std::string> expected; // exact lines; prints are judged when made
  bool exists = false;
  if (c.s.coin()) {
    std::ofstream(file) << "old line\nanother\n";
    expected = { "old line", "another" };
    exists = true;
  }
  Model<Key> m;
  std::vector<Key> first;
  auto k0 = c.s.urange(1, 4);
  for (std::size_t i = 0; i < k0; ++i) {
    auto k = pool[c.s.index(pool.size())];
    first.push_back(k);
    m.acc[k];
  }
  NOTE("observables " << pbt::show(first) << (exists ? ", file exists" : ""));
  G g;
  if (c.s.coin()) {
    g = G(file, first);
  } else {
    G h(file);
    if (c.s.coin()) {
      for (auto const& k : first) h.AddObservable(k);
    } else {
      auto* p = &h;
      for (auto const& k : first) p = &p->AddObservable(k); // chained
    }
    g = std::move(h);
  }
  // sums of these values are exact
  int const scale = c.s.coin(1, 3) ? static_cast<int>(c.s.range(-1000, 990)) : 0;
  std::size_t n = 0, prints = 0, between = 0, measured = 0;
  while (c.s.more(n, 20, 100)) {
    switch (c.s.index(9)) {
      case 0: {
        NOTE("headers");
        g.PrintHeaders();
        std::string h;
        for (auto const& [k, v] : m.acc) h += name(k) + ",";
        expected = { h + "Count" };
        exists = true;
        auto got = txt::lines(txt::slurp(file));
        CHECK(got == expected, "after the headers the file holds " << pbt::show(got) << " expected "
                                                                   << pbt::show(expected));
        break;
      }
      case 1:
      case 2: {
        auto prec = c.s.coin(1, 5) ? c.s.urange(18, 300) : c.s.urange(0, 17);
        bool deflt = c.s.coin(1, 3);
        if (deflt) prec = 10;
        NOTE("print with " << prec << " decimals");
        if (deflt) {
          g.PrintAndReset();
        } else {
          g.PrintAndReset(prec);
        }
        auto got = txt::lines(txt::slurp(file));
        CHECK(got.size() == expected.size() + 1,
              "after printing the file holds " << got.size() << " lines instead of "
                                               << expected.size() + 1 << ": " << pbt::show(got));
        for (std::size_t i = 0; i < expected.size(); ++i)
          CHECK(got[i] == expected[i], "line " << i << " changed to " << got[i]);
        auto cells = split(got.back());
        CHECK(cells.size() == m.acc.size() + 1, "printed line " << got.back());
        std::size_t i = 0;
        for (auto& [k, v] : m.acc) {
          auto mean = v.second ? static_cast<long double>(v.first / static_cast<double>(v.second))
                               : static_cast<long double>(std::nan(""));
          CHECK(txt::scientific(cells[i], mean, prec),
                "observable " << name(k) << " is printed as " << cells[i] << ", its mean is "
                              << double(mean) << " (" << v.second << " measurements, " << prec
                              << " decimals)");
          ++i;
        }
        CHECK(cells.back() == std::to_string(m.acc.begin()->second.second),
              "count column " << cells.back() << " expected " << m.acc.begin()->second.second);
        for (auto& [k, v] : m.acc) v = { 0, 0 };
        expected.push_back(got.back());
        prints += measured > 0;
        between += measured;
        measured = 0;
        break;
      }
      case 3: {
        auto k = pool[c.s.index(pool.size())];
        NOTE("add observable " << k);
        auto* p = &g.AddObservable(k);
        CHECK(p == &g, "AddObservable returns another group");
        m.acc[k];
        break;
      }
      case 4: {
        NOTE("copy");
        G a(g), b(std::move(a));
        g = b;
        break;
      }
      default: {
        auto k = pool[c.s.index(pool.size())];
        auto x = std::ldexp(c.s.dyadic(12, -6, 6), scale);
        NOTE("measure " << k << " " << x);
        auto it = m.acc.find(k);
        bool threw = false;
        try {
          g.Measure(k, x);
        } catch (std::out_of_range const&) {
          threw = true;
        }
        CHECK(threw == (it == m.acc.end()),
              "measuring " << name(k) << (threw ? " is rejected" : " is accepted"));
        if (!threw) {
          it->second.first += x;
          ++it->second.second;
          ++measured;
        }
      }
    }
  }
  ::unlink(file.c_str());
  c.nt(m.acc.size() > 1 && prints > 1);
  c.cls(prints > 1, "two or more prints with measurements");
}

PBT_TEST(by_name, 1500, 80000, 0.3)
{
  drive<std::string>(c, { "energy", "density", "E", "a b", "{}", "Count", "zz9", "energy2", "", std::string(150, 'n') });
}

PBT_TEST(by_number, 1500, 80000, 0.3)
{
  drive<long>(c, { 0, 1, -5, 100, 1L << 40, 9, 10 });
}

PBT_TEST(by_char, 800, 40000, 0.3)
{
  drive<char>(c, { 'a', 'b', 'Z', '0' });
}

PBT_TEST(large_counts, 300, 10000, 0.2)
{
  using G = bwsl::ObservableGroup<long>;
  auto file = pbt::scratch() + "/obsl_" + std::to_string(getpid());
  ::unlink(file.c_str());
  G g(file, { 1, 2 });
  auto x = c.s.dyadic(12, -6, 6), y = c.s.dyadic(12, -6, 6);
  for (int i = 0; i < 1237; ++i) {
    g.Measure(1, x);
    g.Measure(2, y);
  }
  auto text = arc::saved(g);
  auto n = arc::count(c.s, 1237, ULONG_MAX - 10);
  DISCARD_IF(!arc::replace(text, { { "1237", std::to_string(n) } }, 2));
  NOTE("1237 times " << x << " and " << y << " restored with counts of " << n);
  G h(file);
  arc::restore(h, text);
  c.nt(x != y);
  auto extra = c.s.urange(0, 3);
  for (std::size_t i = 0; i < extra; ++i) {
    h.Measure(1, 0);
    h.Measure(2, 0);
  }
  n += extra;
  h.PrintAndReset(12);
  auto got = txt::lines(txt::slurp(file));
  ::unlink(file.c_str());
  CHECK(got.size() == 1, "lines " << pbt::show(got));
  auto cells = split(got[0]);
  CHECK(cells.size() == 3 && cells[2] == std::to_string(n), "line " << got[0] << " with count " << n);
  CHECK(txt::scientific(cells[0], 1237 * x / static_cast<double>(n), 12), "mean " << cells[0] << " of " << x << ", count " << n);
  CHECK(txt::scientific(cells[1], 1237 * y / static_cast<double>(n), 12), "mean " << cells[1] << " of " << y << ", count " << n);
}

PBT_TEST(long_intervals, 60, 2000, 0.1)
{
  using G = bwsl::ObservableGroup<std::string>;
  auto dir = pbt::scratch() + "/obsd_" + std::to_string(getpid());
  auto file = dir + c.s.oneof({ "", ".csv", " with spaces", "_{}%s", ".txt.dat" }) + std::string(c.s.urange(0, 90), 'f');
  ::unlink(file.c_str());
  auto n = c.s.coin(1, 3) ? static_cast<std::size_t>(std::exp2(c.s.real(3, 11))) : c.s.urange(1, 6);
  auto prints = c.s.urange(1, c.s.coin(1, 4) && n < 10 ? 300 : 4);
  auto per = std::max(c.s.urange(1, (c.s.coin(1, 3) ? 400000 : 20000)) / prints, 2UL);
  NOTE(n << " observables, " << prints << " prints, " << per << " measurements each, file " << file);
  c.nt(n > 1 && prints > 1);
  auto bulk = c.s.bulk();
  struct Sum
  {
    long double sum = 0, abs = 0;
    unsigned long n = 0;
  };
  std::map<std::string, Sum> m;
  std::vector<std::string> keys;
  for (std::size_t i = 0; i < n; ++i) {
    keys.push_back("o" + std::string(bulk.index(i % 100 == 0 ? 400 : 9), 'x') + std::to_string(i));
    m[keys.back()];
  }
  G g = c.s.coin() ? G(file, keys) : G(file);
  for (auto const& k : keys) g.AddObservable(k);
  g.PrintHeaders();
  std::string header;
  for (auto const& p : m) header += p.first + ",";
  std::size_t seen = 1;
  auto offset = c.s.coin() ? 0.0 : 1e3;
  for (std::size_t p = 0; p < prints; ++p) {
    for (std::size_t i = 0; i < per; ++i) {
      auto const& k = keys[bulk.uedgy(0, n - 1)];
      auto x = offset + bulk.real(-1, 1);
      g.Measure(k, x);
      auto& s = m[k];
      s.sum += x;
      s.abs += std::fabs(x);
      ++s.n;
    }
    g.PrintAndReset(17);
    if (p + 1 < prints && p % 16) {
      ++seen;
      for (auto& e : m) e.second = Sum();
      continue;
    }
    auto got = txt::lines(txt::slurp(file));
    ++seen;
    CHECK(got.size() == seen, "file with " << got.size() << " lines after " << p + 1 << " prints");
    CHECK(got[0] == header + "Count", "header " << got[0]);
    auto cells = split(got.back());
    CHECK(cells.size() == n + 1, "printed line with " << cells.size() << " cells");
    std::size_t i = 0;
    for (auto& e : m) {
      auto const& s = e.second;
      auto x = std::strtold(cells[i].c_str(), nullptr);
      auto N = static_cast<long double>(s.n);
      if (s.n == 0) {
        CHECK(std::isnan(x), "observable " << e.first << " without measurements is printed as " << cells[i]);
      } else {
        CHECK(std::fabs(x - s.sum / N) <= 1e-15L * (s.abs / N), "observable " << e.first << " is printed as " << cells[i]
                               << ", its mean is " << double(s.sum / N) << " of " << s.n << " measurements");
      }
      ++i;
    }
    CHECK(cells.back() == std::to_string(m.begin()->second.n),
          "count column " << cells.back() << " expected " << m.begin()->second.n);
    for (auto& e : m) e.second = Sum();
  }
  ::unlink(file.c_str());
}
