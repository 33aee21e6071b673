// check: factor=20
// check: san_factor=15
// check: fuzz_runs=60000
// check: max_len=300
#include "locales.hpp"
#include "rationals.hpp"

using bwsl::RationalNum;
using rat::Q;
using rat::wide;

const char* const pbt::rule =
  "Rationals of every size written and read back, alone and in sequences on one stream; texts that are "
  "valid, valid up to a few mutations (characters inserted, dropped or replaced, one or three slashes, "
  "white space, zero or oversized integers) or arbitrary bytes; judged by an independent scanner, under classic and digit-grouping global locales and on streams that throw. "
  "Non-trivial: a malformed text that begins with a digit or sign and contains a slash, or a valid one "
  "that is not in canonical form.";

struct Scan
{
  bool form = false;   // [ws] int [ws] / [ws] / [ws] int, then anything
  bool strict = false; // nothing behind it
  bool out = false;    // an integer is not representable
  bool edge = false;   // an integer whose negation is not representable
  wide n = 0, d = 0;
};

template<class T>
static Scan
scan(std::string const& t)
{
  Scan r;
  std::size_t i = 0;
  auto ws = [&] {
    while (i < t.size() && std::strchr(" \t\n\v\f\r", t[i]) && t[i] != 0) ++i;
  };
  auto integer = [&](wide& v) {
    bool neg = false;
    if (i < t.size() && (t[i] == '-' || t[i] == '+')) {
      neg = t[i] == '-';
      ++i;
    }
    auto start = i;
    v = 0;
    while (i < t.size() && t[i] >= '0' && t[i] <= '9') {
      if (v < (wide(1) << 100)) v = v * 10 + (t[i] - '0');
      ++i;
    }
    if (neg) v = -v;
    if (v > std::numeric_limits<T>::max() || v < std::numeric_limits<T>::min()) {
      r.out = true;
    } else if (!rat::fits<T>(v)) {
      r.edge = true;
    }
    return i > start;
  };
  auto slash = [&] { return i < t.size() && t[i++] == '/'; };
  ws();
  if (!integer(r.n)) return r;
  ws();
  if (!slash()) return r;
  ws();
  if (!slash()) return r;
  ws();
  if (!integer(r.d)) return r;
  r.form = true;
  r.strict = i == t.size();
  return r;
}

template<class T>
static std::string
digits(pbt::Ctx& c)
{
  std::string s;
  switch (c.s.index(8)) {
    case 0:
      s = "0";
      break;
    case 1: {
      // around the limits of the type
      auto v = wide(c.s.coin() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min()) +
               c.s.range(-2, 2);
      s = rat::str(v);
      break;
    }
    case 2: {
      auto n = c.s.urange(1, 45);
      for (auto i = 0UL; i < n; ++i) s += static_cast<char>('0' + c.s.index(10));
      break;
    }
    default:
      s = std::to_string(rat::integer<T>(c));
  }
  if (c.s.coin(1, 10)) s.insert(s[0] == '-' ? 1 : 0, c.s.coin(1, 8) ? c.s.urange(30, 20000) : c.s.urange(1, 30), '0');
  if (s[0] != '-' && c.s.coin(1, 8)) s.insert(0, 1, '+');
  return s;
}

template<class T>
static void
parsing(pbt::Ctx& c)
{
  using R = RationalNum<T>;
  std::string t;
  if (c.s.coin(1, 12)) {
    t = c.s.text(12, 60, "/0123456789-+ .x");
  } else {
    t = digits<T>(c) + "//" + digits<T>(c);
    std::size_t n = 0;
    if (c.s.coin(2, 3)) {
      while (c.s.more(n, 1, 5)) {
        static const std::string chars = "//  --++0019\t\n.xeEa\\|";
        auto k = c.s.index(chars.size() + 1);
        auto ch = k == chars.size() ? static_cast<char>(c.s.urange(0, 255)) : chars[k];
        auto at = c.s.index(t.size() + 1);
        switch (c.s.index(4)) {
          case 0:
            if (at < t.size()) t.erase(at, 1);
            break;
          case 1:
            if (at < t.size()) t[at] = ch;
            break;
          case 2:
            t.insert(at, 1, ch);
            break;
          default:
            t.resize(at);
        }
      }
    }
  }
  if (c.s.coin(1, 60)) {
    // a lot of white space
    auto at = c.s.coin() ? 0 : t.find_first_of("/");
    t.insert(at == std::string::npos ? 0 : at, c.s.urange(1, 20000), c.s.coin() ? ' ' : '\n');
  }
  for (char ch : t) c.s.fold(static_cast<unsigned char>(ch));
  auto s = scan<T>(t);
  NOTE("text " << pbt::quote(t));
  Q const was(rat::integer<T>(c), rat::nonzero<T>(c));
  R const before(static_cast<T>(was.n), static_cast<T>(was.d));

  bool const bad = !s.form || s.out || s.d == 0;
  Q want;
  if (!bad) want = Q(s.n, s.d);
  bool const representable =
    !bad && want.n <= std::numeric_limits<T>::max() && want.n >= std::numeric_limits<T>::min() &&
    want.d <= std::numeric_limits<T>::max();
  bool const must = s.strict && representable && !s.edge;
  bool const mustnt = bad || !representable;
  c.cls(must, "valid text");
  c.cls(mustnt, "malformed text");
  c.cls(!must && !mustnt, "tolerated text");
  c.nt((mustnt && t.find('/') != std::string::npos && std::strchr("-0123456789", t[0]) && t[0] != 0) ||
       (must && (want.n != s.n || want.d != s.d)));

  auto judge = [&](bool accepted, R const& target, const char* how) {
    if (accepted) {
      CHECK(!mustnt, how << " accepts malformed text " << pbt::quote(t) << " as " << target.GetNum() << "//"
                         << target.GetDen());
      rat::check(target, want, how);
    } else {
      CHECK(!must, how << " rejects valid text " << pbt::quote(t));
      CHECK(target.GetNum() == was.n && target.GetDen() == was.d,
            how << " changes the target to " << target.GetNum() << "//" << target.GetDen()
                << " when it rejects " << pbt::quote(t));
    }
  };
  R a = before;
  bool ok = true;
  try {
    FromString(t, a);
  } catch (bwsl::exception::BadParsing const&) {
    ok = false;
  }
  judge(ok, a, "FromString");
  R b = before;
  std::istringstream in(t);
  ok = static_cast<bool>(in >> b);
  judge(ok, b, "operator>>");
}

PBT_TEST(parse, 20000, 1000000, 0.3)
{
  switch (c.s.index(3)) {
    case 0:
      parsing<long>(c);
      break;
    case 1:
      parsing<int>(c);
      break;
    default:
      parsing<long long>(c);
  }
}

template<class T>
static void
roundtrip(pbt::Ctx& c)
{
  using R = RationalNum<T>;
  std::vector<R> v;
  std::stringstream io;
  std::size_t n = 0;
  do {
    auto num = rat::integer<T>(c), den = rat::nonzero<T>(c);
    NOTE(num << "//" << den);
    Q q(num, den);
    R r(num, den);
    c.nt(den < 0 || q.n != num || n > 1);
    auto text = ToString(r);
    auto want = rat::str(q.n) + "//" + rat::str(q.d);
    CHECK(text == want, "text " << text << " expected " << want);
    std::ostringstream o;
    o << r;
    CHECK(o.str() == want, "stream output " << o.str() << " expected " << want);
    R back(7, 3);
    FromString(text, back);
    rat::check(back, q, "the value read back");
    io << (v.empty() ? "" : c.s.coin() ? " " : "\n") << r;
    v.push_back(r);
  } while (c.s.more(n, 3, 12));
  for (auto const& r : v) {
    R back(7, 3);
    CHECK(static_cast<bool>(io >> back), "a sequence of rationals cannot be read back");
    CHECK(back.GetNum() == r.GetNum() && back.GetDen() == r.GetDen(),
          "a sequence of rationals reads back as " << back << " instead of " << r);
  }
}

PBT_TEST(round_trip, 10000, 500000, 0.3)
{
  switch (c.s.index(3)) {
    case 0:
      roundtrip<long>(c);
      break;
    case 1:
      roundtrip<int>(c);
      break;
    default:
      roundtrip<long long>(c);
  }
}

PBT_TEST(global_locales, 8000, 300000, 0.3)
{
  using R = RationalNum<long>;
  // written and read by programs with different global locales
  auto here = loc::any(c.s), there = loc::any(c.s);
  auto num = rat::integer<long>(c), den = rat::nonzero<long>(c);
  auto grouping = [](std::locale const& l) { return pbt::quote(std::use_facet<std::numpunct<char>>(l).grouping()); };
  NOTE(num << "//" << den << " written under a global locale with grouping " << grouping(here)
           << ", read under one with " << grouping(there));
  Q q(num, den);
  R r(num, den);
  auto want = rat::str(q.n) + "//" + rat::str(q.d);
  c.nt(want.size() > 6 && grouping(here) != grouping(there));
  std::string text;
  {
    loc::Global g(here);
    text = ToString(r);
  }
  CHECK(text == want, "text " << pbt::quote(text) << " expected " << want);
  R back(7, 3);
  {
    loc::Global g(there);
    try {
      FromString(text, back);
    } catch (bwsl::exception::BadParsing const&) {
      text.clear();
    }
  }
  CHECK(!text.empty(), "the text " << want << " is rejected");
  rat::check(back, q, "the value read back");
  // under the same locale streams read what they wrote
  std::stringstream io;
  io.imbue(here);
  io << r;
  R again(7, 3);
  CHECK(static_cast<bool>(io >> again), "the text " << pbt::quote(io.str()) << " cannot be read back");
  rat::check(again, q, "the value read back from the stream");
}

PBT_TEST(throwing_streams, 4000, 150000, 0.3)
{
  using R = RationalNum<long>;
  // a stream that is asked to raise its failures
  auto num = rat::integer<long>(c), den = rat::nonzero<long>(c);
  R const r(num, den);
  auto good = c.s.coin();
  auto text = good ? ToString(r) + " " : c.s.oneof<std::string>({ "", "x", "1", "1/", "1/2", "1//", "1//x", "1//0", "//3",
                                      "99999999999999999999//3", "3//99999999999999999999", "1/ /", "1 /x/ 2" });
  NOTE("text " << pbt::quote(text));
  c.nt(!good);
  std::istringstream in(text);
  in.exceptions(std::ios::failbit | std::ios::badbit);
  R target(7, 3);
  bool thrown = false;
  try {
    in >> target;
  } catch (std::ios_base::failure const&) {
    thrown = true;
  }
  CHECK(thrown != good, (good ? "the text of a rational is rejected" : "a malformed text raises nothing"));
  auto const& want = good ? r : R(7, 3);
  CHECK(target.GetNum() == want.GetNum() && target.GetDen() == want.GetDen(),
        "the target becomes " << target.GetNum() << "//" << target.GetDen());
}
