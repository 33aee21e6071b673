// check: factor=20
// check: san_factor=15
// check: fuzz_runs=30000
#include "rationals.hpp"

using bwsl::RationalNum;
using rat::Q;
using rat::wide;

const char* const pbt::rule =
  "Pairs and triples of rationals with arbitrary signs of numerator and denominator, built independently, "
  "as multiples or neighbours of one another, or computed, and integers close to them; all six operators "
  "in both operand orders compared with the sign of the exact 128-bit cross difference. Non-trivial: "
  "the fractions differ but have the same integer part, or are equal though written differently, or "
  "a denominator was given as negative.";

template<class A, class B>
static void
six(A const& a, B const& b, int want, std::string const& what)
{
  CHECK((a < b) == (want < 0), what << ": a<b is " << (a < b));
  CHECK((a > b) == (want > 0), what << ": a>b is " << (a > b));
  CHECK((a <= b) == (want <= 0), what << ": a<=b is " << (a <= b));
  CHECK((a >= b) == (want >= 0), what << ": a>=b is " << (a >= b));
  CHECK((a == b) == (want == 0), what << ": a==b is " << (a == b));
  CHECK((a != b) == (want != 0), what << ": a!=b is " << (a != b));
}

template<class T>
static void
comparisons(pbt::Ctx& c)
{
  using R = RationalNum<T>;
  std::vector<R> v;
  std::vector<Q> m;
  bool interesting = false;
  auto push = [&](wide num, wide den) {
    if (den == 0 || !rat::fits<T>(num) || !rat::fits<T>(den)) return;
    NOTE(rat::str(num) << "//" << rat::str(den));
    interesting = interesting || den < 0;
    v.push_back(R(static_cast<T>(num), static_cast<T>(den)));
    m.push_back(Q(num, den));
  };
  push(rat::integer<T>(c), rat::nonzero<T>(c));
  std::size_t n = 0;
  while (c.s.more(n, 4, 8)) {
    auto const p = m[c.s.index(m.size())];
    switch (c.s.index(5)) {
      case 0:
        push(rat::integer<T>(c), rat::nonzero<T>(c));
        break;
      case 1: {
        // the same number written with another factor
        wide f = rat::nonzero<T>(c, 8);
        push(p.n * f, p.d * f);
        break;
      }
      case 2:
        push(p.n + c.s.range(-2, 2), p.d + c.s.range(-2, 2));
        break;
      case 3:
        push(-p.n, c.s.coin() ? p.d : -p.d);
        break;
      default: {
        // a computed neighbour
        auto i = c.s.index(v.size());
        wide den = rat::nonzero<T>(c, 12);
        auto q = m[i];
        if (rat::fits<T>(q.n * den) && rat::fits<T>(q.d * den) && rat::fits<T>(q.n * den + q.d)) {
          NOTE("value " << i << " + 1//" << rat::str(den));
          auto r = v[i] + R(1, static_cast<T>(den));
          v.push_back(r);
          m.push_back(Q(q.n * den + q.d, q.d * den));
        }
      }
    }
  }
  std::size_t compared = 0;
  for (auto i = 0UL; i < v.size(); ++i) {
    for (auto j = 0UL; j < v.size(); ++j) {
      auto l = m[i].n * m[j].d, r = m[j].n * m[i].d;
      if (!rat::fits<T>(l) || !rat::fits<T>(r)) continue;
      ++compared;
      auto w = rat::sign(l - r);
      interesting = interesting || (i != j && w != 0 && m[i].n / m[i].d == m[j].n / m[j].d) ||
                    (i != j && w == 0);
      six(v[i], v[j], w, "values " + std::to_string(i) + " and " + std::to_string(j));
    }
    // integers around the value
    for (int d = -1; d <= 1; ++d) {
      auto k = m[i].n / m[i].d + d;
      auto r = k * m[i].d;
      if (!rat::fits<T>(k) || !rat::fits<T>(r)) continue;
      auto w = rat::sign(m[i].n - r);
      auto name = "value " + std::to_string(i) + " and integer " + rat::str(k);
      six(v[i], static_cast<T>(k), w, name);
      six(static_cast<T>(k), v[i], -w, name + " swapped");
    }
    auto k = rat::integer<T>(c);
    if (rat::fits<T>(wide(k) * m[i].d)) {
      auto w = rat::sign(m[i].n - wide(k) * m[i].d);
      auto name = "value " + std::to_string(i) + " and integer " + std::to_string(k);
      six(v[i], k, w, name);
      six(k, v[i], -w, name + " swapped");
    }
  }
  c.nt(interesting && compared > 1);
  c.cls(compared > v.size(), "several values compared");
  // sorting by the library's order sorts by value
  bool all = true;
  for (auto& x : m)
    for (auto& y : m) all = all && rat::fits<T>(x.n * y.d) && rat::fits<T>(y.n * x.d);
  if (all) {
    std::sort(v.begin(), v.end());
    std::sort(m.begin(), m.end(), [](Q const& x, Q const& y) { return rat::order(x, y) < 0; });
    for (auto i = 0UL; i < v.size(); ++i) rat::check(v[i], m[i], "sorted position");
  }
}

PBT_TEST(order, 20000, 1000000, 0.3)
{
  switch (c.s.index(3)) {
    case 0:
      comparisons<long>(c);
      break;
    case 1:
      comparisons<int>(c);
      break;
    default:
      comparisons<long long>(c);
  }
}
