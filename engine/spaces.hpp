// Model-based exploration of the linear and logarithmic spaces.
#pragma once
#include "sums.hpp"

namespace spaces {

/// `value(i)` is the exact i-th point, `tol(i)` the rounding allowed there.
/// Points beyond `limit` are not representable. Runs a random history of operations on objects of type S.
template<class S, class T, class Value, class Tol>
void
explore(pbt::Ctx& c, S const& fresh, T last, unsigned long n, unsigned long limit, Value value, Tol tol)
{
  struct Obj
  {
    S s;
    unsigned long pos;
    bool end; // put at the end without stepping
  };
  auto same = [&](T got, unsigned long pos, bool end, const char* what) {
    if (end) {
      CHECK(got == last, what << " is " << double(got) << " at the end, expected " << double(last));
      return;
    }
    auto want = value(pos);
    auto d = static_cast<long double>(got) - want;
    CHECK(std::fabs(d) <= tol(pos), what << " is " << double(got) << " at step " << pos << " of " << n
                                         << ", expected " << double(want) << " (off by "
                                         << double(d) << ", allowed " << double(tol(pos)) << ")");
  };
  std::vector<Obj> o;
  o.push_back({ fresh, 0, false });
  auto all = [&] {
    for (auto& x : o) same(*x.s, x.pos, x.end, "the dereferenced value");
    for (auto& x : o) {
      for (auto& y : o) {
        CHECK((x.s == y.s) == (x.pos == y.pos), "positions " << x.pos << " and " << y.pos << " compare "
                                                             << (x.s == y.s ? "equal" : "unequal"));
        CHECK((x.s != y.s) == (x.pos != y.pos), "positions " << x.pos << " and " << y.pos << " compare "
                                                             << (x.s != y.s ? "not equal" : "not unequal"));
      }
    }
  };
  all();
  std::size_t k = 0, steps = 0;
  bool collected = false, ended = false;
  while (c.s.more(k, 12, 60)) {
    auto i = c.s.index(o.size());
    auto& x = o[i];
    auto put = [&](Obj const& y) {
      if (o.size() < 5) {
        o.push_back(y);
      } else {
        o[c.s.index(5)] = y;
      }
    };
    // nothing is claimed about stepping on from the end
    auto op = c.s.index(8);
    if ((x.end || x.pos >= limit) && op < 5) op = 5 + op % 3;
    switch (op) {
      case 0: {
        NOTE("prefix step of object " << i);
        auto& r = ++x.s;
        CHECK(&r == &x.s, "prefix step does not return the object itself");
        ++x.pos;
        ++steps;
        break;
      }
      case 1: {
        NOTE("postfix step of object " << i);
        Obj was{ x.s++, x.pos, false };
        ++x.pos;
        ++steps;
        same(*was.s, was.pos, false, "the value before a postfix step");
        put(was);
        break;
      }
      case 2: {
        NOTE("call of object " << i);
        T v = x.s();
        same(v, x.pos, false, "the value returned by a call");
        ++x.pos;
        ++steps;
        break;
      }
      case 3: {
        auto m = std::min(c.s.urange(1, n), limit - x.pos);
        NOTE("step object " << i << " " << m << " times");
        for (auto j = 0UL; j < m; ++j) {
          if (j % 2) {
            x.s++;
          } else {
            ++x.s;
          }
        }
        x.pos += m;
        ++steps;
        break;
      }
      case 4: {
        auto m = std::min(c.s.coin(1, 3) ? n : c.s.urange(0, n + 3), limit - x.pos);
        NOTE("collect " << m << " points from object " << i);
        auto v = x.s.Collect(m);
        CHECK(v.size() == m, "collecting " << m << " points gives " << v.size());
        for (auto j = 0UL; j < m; ++j) same(v[j], x.pos + j, false, "a collected value");
        collected = true;
        break;
      }
      case 5:
        NOTE("begin of object " << i);
        put({ x.s.begin(), 0, false });
        break;
      case 6:
        NOTE("end of object " << i);
        put({ x.s.end(), n, true });
        ended = true;
        break;
      default:
        NOTE("copy of object " << i);
        put(Obj(x));
    }
    all();
  }
  c.nt(n > 1 && steps > 1 && (collected || ended));
  // iteration
  auto s = o[c.s.index(o.size())].s;
  auto count = 0UL;
  for (auto v : s) {
    same(v, count, false, "a visited value");
    ++count;
    CHECK(count <= n, "iteration visits more than " << n << " points");
  }
  CHECK(count == n, "iteration visits " << count << " points of " << n);
  auto f = fresh;
  CHECK(*s.begin() == *f, "begin restarts at " << double(*s.begin()) << " instead of " << double(*f));
  c.cls(n == 1, "single point");
}

/// A number of points: up to `full`, or huge.
inline unsigned long
count(pbt::Src& s, unsigned long full)
{
  auto bits = full > 1 ? s.real(16, std::log2(static_cast<double>(full))) : s.real(17, 63);
  return static_cast<unsigned long>(std::exp2(bits)) + s.urange(0, 9);
}

/// Spaces with very many points: a prefix, or all points when there are at most `full`.
template<class S, class T, class Value, class Tol>
void
many(pbt::Ctx& c, S const& fresh, T last, unsigned long n, unsigned long full, Value value, Tol tol)
{
  auto same = [&](T got, unsigned long pos) {
    auto d = static_cast<long double>(got) - value(pos);
    CHECK(std::fabs(d) <= tol(pos), "step " << pos << " of " << n << " is " << double(got) << ", expected "
                                            << double(value(pos)) << " (off by " << double(d)
                                            << ", allowed " << double(tol(pos)) << ")");
  };
  auto s = fresh, end = s.end();
  CHECK(*end == last, "the end holds " << double(*end) << " instead of " << double(last));
  same(*s, 0);
  auto stop = n <= full + 9 ? n : std::min(n - 1, c.s.urange(1, 20000));
  auto every = std::max(1UL, stop / 50);
  auto i = 0UL;
  for (; i < stop; ++i) {
    if (i % every == 0) same(*s, i);
    if (!(s != end) || s == end) break;
    ++s;
  }
  CHECK(i == stop, "the end of " << n << " steps is met after " << i);
  same(*s, i);
  CHECK((s == end) == (i == n) && (s != end) == (i != n), "step " << i << " of " << n << " compares wrongly with the end");
  CHECK(!(s == s.begin()), "step " << i << " equals the beginning");
  if (n <= full + 9) return;
  auto v = fresh;
  auto w = v.Collect(stop);
  CHECK(w.size() == stop, "collecting " << stop << " points gives " << w.size());
  same(w.back(), stop - 1);
  same(w[stop / 2], stop / 2);
}

} // namespace spaces
