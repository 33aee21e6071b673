// check: factor=20
// check: san_factor=15
// check: fuzz_runs=30000
#include "rationals.hpp"

using bwsl::RationalNum;
using rat::Q;
using rat::wide;

const char* const pbt::rule =
  "Straight-line programs of +,-,*,/ over registers of rationals built from arbitrary-sign numerators "
  "and denominators (a digit to the whole range of int, long and long long) and plain integers in "
  "both operand orders; every result compared with exact 128-bit fractions in canonical form, "
  "conversions included. Non-trivial: at least two operations in range of which one has a negative "
  "denominator or divisor, or a common factor to remove.";

template<class T>
static void
queries(RationalNum<T> r, Q const& q)
{
  CHECK(r.IsInt() == (q.d == 1), "IsInt() is " << r.IsInt() << " for " << r.GetNum() << "//" << r.GetDen());
  auto i = static_cast<T>(r);
  CHECK(i == q.n / q.d, "integer conversion gives " << i << " expected " << rat::str(q.n / q.d));
  auto d = static_cast<double>(r);
  auto want = static_cast<long double>(q.n) / static_cast<long double>(q.d);
  CHECK(std::fabs(d - want) <= std::fabs(want) * 0x1p-51L, "double conversion gives " << d << " expected "
                                                                                      << double(want));
  r.Simplify();
  rat::check(r, q, "the value after Simplify()");
}

template<class T>
static void
program(pbt::Ctx& c)
{
  using R = RationalNum<T>;
  std::vector<R> reg;
  std::vector<Q> model;
  {
    R zero;
    rat::check(zero, Q(), "the default value");
  }
  bool interesting = false;
  std::size_t n = 0, done = 0;
  auto add = [&](R const& r, Q const& q, const char* what) {
    rat::check(r, q, what);
    queries(r, q);
    R copy(r), assigned, moved;
    assigned = copy;
    moved = std::move(copy);
    rat::check(assigned, q, "a copy");
    rat::check(moved, q, "a moved value");
    if (reg.size() < 6) {
      reg.push_back(r);
      model.push_back(q);
    } else {
      auto at = c.s.index(6);
      reg[at] = r;
      model[at] = q;
    }
  };
  auto fresh = [&] {
    auto num = rat::integer<T>(c);
    auto den = rat::nonzero<T>(c);
    if (c.s.coin(1, 3)) {
      // plant a common factor
      auto f = rat::nonzero<T>(c, 6);
      if (rat::fits<T>(wide(num) * f) && rat::fits<T>(wide(den) * f)) {
        num = static_cast<T>(num * f);
        den = static_cast<T>(den * f);
      }
    }
    NOTE("new " << num << "//" << den);
    interesting = interesting || den < 0;
    add(R(num, den), Q(num, den), "the constructed value");
  };
  fresh();
  while (c.s.more(n, 10, 40)) {
    auto k = c.s.index(14);
    auto ai = c.s.index(reg.size()), bi = c.s.index(reg.size());
    R const a = reg[ai], b = reg[bi];
    Q const p = model[ai], q = model[bi];
    if (k >= 12) {
      fresh();
      continue;
    }
    auto op = k % 4;
    auto form = k / 4;
    static const char* sym = "+-*/";
    // the operands as numerators and denominators
    T const v = form == 0 ? T(0) : rat::integer<T>(c);
    Q const x = form == 2 ? Q(v, 1) : p;
    Q const y = form == 0 ? q : form == 1 ? Q(v, 1) : p;
    wide num = 0, den = 0;
    bool ok = rat::fits<T>(x.n * y.d) && rat::fits<T>(y.n * x.d) && rat::fits<T>(x.d * y.d);
    if (op == 0) num = x.n * y.d + y.n * x.d, den = x.d * y.d;
    if (op == 1) num = x.n * y.d - y.n * x.d, den = x.d * y.d;
    if (op == 2) num = x.n * y.n, den = x.d * y.d, ok = true;
    if (op == 3) num = x.n * y.d, den = x.d * y.n, ok = true;
    if (!ok || !rat::fits<T>(num) || !rat::fits<T>(den) || den == 0) {
      c.cls("operation out of range");
      continue;
    }
    NOTE(rat::str(x.n) << "//" << rat::str(x.d) << " " << sym[op] << " " << rat::str(y.n) << "//"
                       << rat::str(y.d) << (form == 0 ? "" : form == 1 ? " (integer right)" : " (integer left)"));
    R r;
    if (form == 0) r = op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
    if (form == 1) r = op == 0 ? a + v : op == 1 ? a - v : op == 2 ? a * v : a / v;
    if (form == 2) r = op == 0 ? v + a : op == 1 ? v - a : op == 2 ? v * a : v / a;
    Q want(num, den);
    interesting = interesting || den < 0 || want.d != (den < 0 ? -den : den);
    rat::check(a, p, "the left operand");
    rat::check(b, q, "the right operand");
    add(r, want, "the result");
    ++done;
  }
  c.nt(done >= 2 && interesting);
  c.cls(done >= 2, "two or more operations");
}

PBT_TEST(arithmetic, 20000, 1000000, 0.3)
{
  switch (c.s.index(3)) {
    case 0:
      program<long>(c);
      break;
    case 1:
      program<int>(c);
      break;
    default:
      program<long long>(c);
  }
}
