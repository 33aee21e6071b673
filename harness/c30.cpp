// check: factor=12
// check: san_factor=10
// check: fuzz_runs=60000
#include "sums.hpp"
#include <bwsl/Approx.hpp>

using bwsl::Approx;
using ref::quad;

const char* const pbt::rule =
  "Finite values and tolerances of every scale, subnormal and huge, compared numbers placed at, just inside "
  "and just outside either tolerance, at neighbouring floating-point numbers and at random; tolerances "
  "default, absolute, relative, both, negative, zero; numbers exactly at tolerances that are exact in binary. Non-trivial: the number differs from the value and "
  "lies within a factor two of the effective tolerance (at or beside an exact one), or equality holds for different numbers.";

PBT_TEST(comparisons, 20000, 1500000, 0.3)
{
  auto v = c.s.finite();
  auto abs = 0.0, rel = DBL_EPSILON * 100;
  Approx a(v);
  auto tolerances = c.s.index(4);
  NOTE("value " << v);
  auto tolerance = [&] {
    switch (c.s.index(4)) {
      case 0:
        return 0.0;
      case 1:
        return c.s.finite();
      case 2:
        return std::ldexp(1.0 + c.s.real(0, 1), static_cast<int>(c.s.range(-60, 3)));
      default:
        return std::fabs(v) * std::ldexp(1.0 + c.s.real(0, 1), static_cast<int>(c.s.range(-60, 3)));
    }
  };
  auto setabs = [&] {
    auto t = tolerance();
    if (!std::isfinite(t)) t = 1;
    if (c.s.coin(1, 4)) t = -t;
    NOTE("absolute tolerance " << t);
    auto& r = a.SetAbs(t);
    CHECK(&r == &a, "SetAbs does not return the object");
    abs = std::fabs(t);
  };
  auto setrel = [&] {
    auto t = tolerance();
    if (!std::isfinite(t)) t = 1;
    if (c.s.coin(1, 4)) t = -t;
    NOTE("relative tolerance " << t);
    auto& r = a.SetRel(t);
    CHECK(&r == &a, "SetRel does not return the object");
    rel = std::fabs(t);
  };
  if (tolerances == 1 || tolerances == 3) setabs();
  if (tolerances >= 2) setrel();
  if (tolerances == 3 && c.s.coin(1, 4)) setabs();

  auto mag = [](quad q) { return q < 0 ? -q : q; };
  auto tol = std::max(quad(abs), quad(rel) * mag(quad(v)));
  auto dtol = tol > DBL_MAX ? DBL_MAX : static_cast<double>(tol);
  auto x = v;
  switch (c.s.index(6)) {
    case 0:
      x = c.s.finite();
      break;
    case 1:
      x = v + dtol;
      break;
    case 2:
      x = v - dtol;
      break;
    case 3:
      x = v + dtol * c.s.real(-2, 2);
      break;
    case 4:
      x = v + dtol * c.s.oneof({ 0.5, -0.5, 0.99, -0.99, 1.01, -1.01 });
      break;
    default:
      x = c.s.coin() ? v : -v;
  }
  for (auto i = c.s.range(-3, 3); i != 0 && std::isfinite(x); i += i > 0 ? -1 : 1)
    x = std::nextafter(x, i > 0 ? INFINITY : -INFINITY);
  DISCARD_IF(!std::isfinite(x));
  NOTE("number " << x);

  Approx const b(a);
  auto diff = mag(quad(x) - quad(v));
  // equality is decided unless the difference is within rounding of the tolerance
  auto slack = (diff + tol) * quad(1e-15) + quad(1e-323);
  bool const eq = x == b;
  if (diff <= DBL_MAX && tol <= DBL_MAX) {
    if (x == v) CHECK(eq, "the value itself is not equal");
    if (tol == 0 && x != v) CHECK(!eq, "equal without tolerance");
    if (diff + slack < tol) CHECK(eq, "unequal though the difference is " << double(diff) << " and the tolerance "
                                                                          << double(tol));
    if (diff > tol + slack) CHECK(!eq, "equal though the difference is " << double(diff) << " and the tolerance "
                                                                         << double(tol));
  }
  c.nt(x != v && (eq || (diff < tol * 2 && tol < diff * 2)));
  c.cls(eq, "equal");
  c.cls(eq && x != v, "equal but different");
  bool const lt = x < b, gt = x > b;
  CHECK(lt + eq + gt == 1, "less " << lt << " equal " << eq << " greater " << gt);
  CHECK(lt == (x < v && !eq), "less is " << lt);
  CHECK(gt == (x > v && !eq), "greater is " << gt);
  CHECK((x != b) == !eq, "unequal is " << (x != b));
  CHECK((x <= b) == (lt || eq), "less-or-equal is " << (x <= b));
  CHECK((x >= b) == (gt || eq), "greater-or-equal is " << (x >= b));
  // the other operand order
  CHECK((b == x) == eq, "swapped equal is " << (b == x));
  CHECK((b != x) == !eq, "swapped unequal is " << (b != x));
  CHECK((b < x) == gt, "swapped less is " << (b < x));
  CHECK((b > x) == lt, "swapped greater is " << (b > x));
  CHECK((b <= x) == (gt || eq), "swapped less-or-equal is " << (b <= x));
  CHECK((b >= x) == (lt || eq), "swapped greater-or-equal is " << (b >= x));
}

// differences and tolerances small enough to be exact in any order of evaluation
PBT_TEST(exact_edges, 8000, 300000, 0.3)
{
  auto unit = std::ldexp(1.0, static_cast<int>(c.s.range(-200, 200)));
  double v, tol;
  Approx a(0);
  bool relative = c.s.coin();
  if (relative) {
    // both the value and the tolerance are powers of two
    v = unit * (c.s.coin() ? 1 : -1);
    auto rel = std::ldexp(1.0, static_cast<int>(c.s.range(-20, 6)));
    tol = unit * rel;
    NOTE("value " << v << ", relative tolerance " << rel);
    Approx b(v);
    b.SetRel(c.s.coin() ? rel : -rel);
    if (c.s.coin()) b.SetAbs(tol * c.s.oneof({ 0.0, 0.25, 1.0 }));
    a.~Approx();
    new (&a) Approx(b);
  } else {
    auto k = static_cast<double>(c.s.range(-1000, 1000));
    v = k * unit;
    tol = static_cast<double>(c.s.urange(0, 1000)) * unit;
    NOTE("value " << v << ", absolute tolerance " << tol);
    Approx b(v);
    b.SetAbs(c.s.coin() ? tol : -tol);
    b.SetRel(0);
    a.~Approx();
    new (&a) Approx(b);
  }
  auto step = relative ? tol / 64 : unit;
  for (int sign : { -1, 1 }) {
    auto x = v + sign * tol;
    CHECK(x == a && a == x && !(x != a) && !(a != x), "unequal at exactly the tolerance, number " << x);
    CHECK(!(x < a) && !(x > a) && x <= a && x >= a && !(a < x) && !(a > x) && a <= x && a >= x, "order at the tolerance");
    x = v + sign * (tol + step);
    CHECK(x != a && a != x && !(x == a) && !(a == x), "equal beyond the tolerance, number " << x);
    CHECK((x < a) == (sign < 0) && (x > a) == (sign > 0) && (a > x) == (sign < 0) && (a < x) == (sign > 0), "order beyond the tolerance");
    if (tol >= step) {
      x = v + sign * (tol - step);
      CHECK(x == a && a == x, "unequal within the tolerance, number " << x);
    }
  }
  c.nt(tol > 0);
  c.cls(relative, "relative tolerance");
}
