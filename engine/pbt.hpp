// Property-based testing engine: every random decision of a case is drawn from
// one recorded choice sequence, so that random generation, coverage-guided
// fuzzing, replay and shrinking all work on the same representation.
#pragma once

#include <algorithm>
#include <array>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

struct Failure
{
  std::string msg;
};
struct Discard
{};

inline std::uint64_t
mix(std::uint64_t x)
{
  x += 0x9e3779b97f4a7c15ULL;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
  return x ^ (x >> 31);
}

inline std::uint64_t
fnv(const char* s)
{
  std::uint64_t h = 1469598103934665603ULL;
  for (; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ULL;
  return h;
}

/// xoshiro256**
struct Rng
{
  std::uint64_t s[4];
  explicit Rng(std::uint64_t seed = 1)
  {
    for (auto& x : s) x = seed = mix(seed);
  }
  static std::uint64_t rotl(std::uint64_t x, int k)
  {
    return (x << k) | (x >> (64 - k));
  }
  std::uint64_t operator()()
  {
    auto r = rotl(s[1] * 5, 7) * 9;
    auto t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3], 45);
    return r;
  }
};

/// Where choices are recorded while a case runs. It lives in shared memory so
/// that the choices survive a crash of the case.
struct Record
{
  static constexpr std::size_t cap = 1u << 18;
  std::uint64_t n;
  std::int32_t test;
  std::int32_t state; // 0 running, 1 failed, 2 timeout, 3 done
  std::uint64_t case_idx;
  char msg[16384];
  char desc[65536];
  std::uint64_t choices[cap];
};

class Src
{
public:
  static Src random(std::uint64_t seed, Record* rec)
  {
    Src s;
    s.mode_ = 0;
    s.rng_ = Rng(seed);
    s.rec_ = rec;
    return s;
  }
  static Src replay(std::vector<std::uint64_t> const* v, Record* rec)
  {
    Src s;
    s.mode_ = 1;
    s.replay_ = v;
    s.rec_ = rec;
    return s;
  }
  static Src bytes(const std::uint8_t* d, std::size_t n, Record* rec)
  {
    Src s;
    s.mode_ = 2;
    s.data_ = d;
    s.left_ = n;
    s.rec_ = rec;
    return s;
  }

  /// The primitive: a number in [0, max]; 0 is the simplest choice.
  std::uint64_t raw(std::uint64_t max)
  {
    std::uint64_t v = 0;
    if (mode_ == 0) {
      v = max == ~0ULL ? rng_() : rng_() % (max + 1);
    } else if (mode_ == 1) {
      v = pos_ < replay_->size() ? std::min((*replay_)[pos_], max) : 0;
      ++pos_;
    } else {
      int nb = max < 256 ? 1 : max < 65536 ? 2 : max < (1ULL << 32) ? 4 : 8;
      for (int i = 0; i < nb; ++i) {
        std::uint64_t b = 0;
        if (left_ > 0) {
          b = *data_++;
          --left_;
        }
        v |= b << (8 * i);
      }
      if (max != ~0ULL) v %= max + 1;
    }
    if (rec_) {
      if (rec_->n >= Record::cap) throw Discard{};
      rec_->choices[rec_->n++] = v;
    }
    return v;
  }

  // --- digest of the generated case -------------------------------------
  void fold(std::uint64_t x) { hash_ = mix(hash_ ^ x); }
  std::uint64_t hash() const { return hash_; }

  // --- typed generators ---------------------------------------------------
  bool coin(unsigned num = 1, unsigned den = 2)
  {
    bool b = raw(den - 1) >= den - num;
    fold(b);
    return b;
  }

  /// Uniform in [lo, hi], simplest is the value closest to zero.
  std::int64_t range(std::int64_t lo, std::int64_t hi)
  {
    auto r = raw(static_cast<std::uint64_t>(hi) - static_cast<std::uint64_t>(lo));
    std::uint64_t u = 0;
    if (lo < 0 && hi > 0) {
      // 0, 1, -1, 2, -2, ... as long as both sides are available
      auto neg = 0 - static_cast<std::uint64_t>(lo), pos = static_cast<std::uint64_t>(hi);
      auto m = std::min(neg, pos);
      if (r <= 2 * m) {
        u = r % 2 ? (r + 1) / 2 : 0 - r / 2;
      } else {
        u = pos > neg ? r - m : 0 - (r - m);
      }
    } else if (hi <= 0) {
      u = static_cast<std::uint64_t>(hi) - r;
    } else {
      u = static_cast<std::uint64_t>(lo) + r;
    }
    auto v = static_cast<std::int64_t>(u);
    fold(u);
    return v;
  }
  std::uint64_t urange(std::uint64_t lo, std::uint64_t hi)
  {
    auto v = lo + raw(hi - lo);
    fold(v);
    return v;
  }
  std::size_t index(std::size_t n) { return urange(0, n - 1); }

  template<class C>
  auto pick(C const& c) -> typename C::value_type
  {
    return *(std::next(c.begin(), static_cast<long>(index(c.size()))));
  }
  template<class T>
  T oneof(std::initializer_list<T> l)
  {
    return *(l.begin() + index(l.size()));
  }

  /// Unsigned with emphasis on small values, boundaries and powers of two.
  std::uint64_t uedgy(std::uint64_t lo, std::uint64_t hi)
  {
    auto v = uedgy_raw(lo, hi);
    fold(v);
    return v;
  }

  /// Signed with emphasis on small values, boundaries and powers of two.
  std::int64_t edgy(std::int64_t lo, std::int64_t hi)
  {
    std::int64_t v;
    if (lo >= 0) {
      v = static_cast<std::int64_t>(uedgy_raw(lo, hi));
    } else if (hi <= 0) {
      auto a = 0 - static_cast<std::uint64_t>(hi);
      auto b = 0 - static_cast<std::uint64_t>(lo);
      v = static_cast<std::int64_t>(0 - uedgy_raw(a, b));
    } else if (raw(1) == 0) {
      v = static_cast<std::int64_t>(uedgy_raw(0, hi));
    } else {
      v = static_cast<std::int64_t>(
        0 - uedgy_raw(0, 0 - static_cast<std::uint64_t>(lo)));
    }
    fold(static_cast<std::uint64_t>(v));
    return v;
  }

  /// A length in [0, max]: often small, sometimes up to the maximum.
  std::size_t len(std::size_t max)
  {
    std::size_t v = 0;
    switch (raw(5)) {
      case 0:
      case 1:
        v = raw(std::min<std::size_t>(max, 4));
        break;
      case 2:
      case 3: {
        int bits = 0;
        while ((max >> bits) > 0) ++bits;
        auto b = raw(static_cast<std::uint64_t>(bits));
        v = raw(std::min<std::uint64_t>(max, (1ULL << b) - 1 + (b == 0)));
        v = std::min(v, max);
        break;
      }
      default:
        v = raw(max);
    }
    fold(v);
    return v;
  }

  /// Continue a sequence of unknown length (expected about `avg` elements).
  /// Deleting the choices of one element yields a shorter valid sequence.
  bool more(std::size_t& count, std::size_t avg, std::size_t max)
  {
    if (count >= max) return false;
    if (raw(avg) == 0) return false;
    ++count;
    return true;
  }

  /// m * 2^e with |m| < 2^mbits and emin <= e <= emax; exact by construction
  double dyadic(int mbits, int emin, int emax)
  {
    auto b = raw(static_cast<std::uint64_t>(mbits));
    auto m = raw((b >= 64 ? ~0ULL : (1ULL << b) - 1));
    auto e = emin <= 0 && emax >= 0 ? zigzag(raw(
                                        static_cast<std::uint64_t>(emax - emin)),
                                      emin,
                                      emax)
                                    : emin + static_cast<int>(raw(
                                               static_cast<std::uint64_t>(
                                                 emax - emin)));
    double d = std::ldexp(static_cast<double>(m), e);
    if (raw(1)) d = -d;
    fold_double(d);
    return d;
  }

  /// A real number in [lo, hi]: end points, simple fractions, full precision.
  double real(double lo, double hi)
  {
    double d = lo;
    switch (raw(7)) {
      case 0:
        d = lo + (hi - lo) * (static_cast<double>(raw(8)) / 8.0);
        break;
      case 1: {
        auto a = std::ceil(lo), b = std::floor(hi);
        if (a <= b && b - a < 9e15) {
          d = a + static_cast<double>(raw(static_cast<std::uint64_t>(b - a)));
        }
        break;
      }
      default:
        d = lo + (hi - lo) * std::ldexp(static_cast<double>(raw((1ULL << 53) - 1)), -53);
    }
    d = std::min(std::max(d, lo), hi);
    fold_double(d);
    return d;
  }

  /// Any finite double, biased to special values and moderate exponents.
  double finite(int maxexp = 1023)
  {
    double d = 0;
    switch (raw(6)) {
      case 0:
        d = static_cast<double>(raw(20));
        break;
      case 1: {
        static const double sp[] = { 0.0,     0.5,     1.0 / 3, 0.1,    1.0,
                                     DBL_MIN, DBL_EPSILON, 4.9406564584124654e-324,
                                     1e100,   1e-100,  1e16,   9007199254740993.0,
                                     1e300,   2.2250738585072009e-308 };
        d = sp[raw(sizeof sp / sizeof *sp - 1)];
        break;
      }
      case 2:
      case 3:
        d = std::ldexp(1.0 + std::ldexp(static_cast<double>(raw((1ULL << 52) - 1)), -52),
                       static_cast<int>(raw(120)) - 60);
        break;
      case 4:
        d = std::ldexp(static_cast<double>(raw(1023)),
                       static_cast<int>(raw(40)) - 20);
        break;
      default: {
        std::uint64_t b = raw((1ULL << 63) - 1);
        std::memcpy(&d, &b, 8);
        if (!std::isfinite(d)) d = 1.5;
      }
    }
    int e = 0;
    std::frexp(d, &e);
    if (e > maxexp) d = std::ldexp(d, maxexp - e);
    if (raw(1)) d = -d;
    fold_double(d);
    return d;
  }

  /// Unrecorded bulk source derived from one recorded seed.
  Src bulk()
  {
    auto seed = urange(0, 0xffffffffULL);
    return Src::random(mix(seed ^ 0xb01dface), nullptr);
  }

  /// A string over an alphabet of interesting characters.
  std::string text(std::size_t avg, std::size_t max, std::string const& alphabet)
  {
    std::string s;
    std::size_t n = 0;
    while (more(n, avg, max)) {
      auto k = raw(alphabet.size());
      s += k == alphabet.size() ? static_cast<char>(raw(255)) : alphabet[k];
    }
    for (char ch : s) fold(static_cast<unsigned char>(ch));
    return s;
  }

  void fold_double(double d)
  {
    std::uint64_t b;
    std::memcpy(&b, &d, 8);
    fold(b);
  }

private:
  static int zigzag(std::uint64_t v, int lo, int hi)
  {
    // 0, 1, -1, 2, -2, ... as long as both sides are available
    int m = std::min(-lo, hi);
    if (v <= 2 * static_cast<std::uint64_t>(m)) {
      int k = static_cast<int>((v + 1) / 2);
      return v % 2 ? k : -k;
    }
    int r = static_cast<int>(v) - 2 * m;
    return hi > -lo ? m + r : -(m + r);
  }

  std::uint64_t uedgy_raw(std::uint64_t lo, std::uint64_t hi)
  {
    auto span = hi - lo;
    switch (raw(7)) {
      case 0:
      case 1:
        return lo + raw(std::min<std::uint64_t>(span, 8));
      case 2:
      case 3: {
        int bits = 0;
        while (bits < 64 && (span >> bits) > 0) ++bits;
        auto b = raw(static_cast<std::uint64_t>(bits));
        auto m = b >= 64 ? ~0ULL : (1ULL << b) - 1;
        return lo + raw(std::min<std::uint64_t>(span, m));
      }
      case 4:
        return hi - raw(std::min<std::uint64_t>(span, 3));
      case 5: {
        auto p = 1ULL << raw(63);
        auto d = raw(2);
        auto v = d == 0 ? p : d == 1 ? p - 1 : p + 1;
        if (v >= lo && v <= hi) return v;
        return lo + (span == ~0ULL ? v : v % (span + 1));
      }
      default:
        return lo + raw(span);
    }
  }

  int mode_ = 0;
  Rng rng_{};
  std::vector<std::uint64_t> const* replay_ = nullptr;
  std::size_t pos_ = 0;
  const std::uint8_t* data_ = nullptr;
  std::size_t left_ = 0;
  Record* rec_ = nullptr;
  std::uint64_t hash_ = 0x1234567;
};

struct Ctx
{
  Src& s;
  bool describing = false;
  std::ostringstream desc{};
  bool nontrivial_ = false;
  std::map<std::string, std::uint64_t>* classes = nullptr;
  Record* rec = nullptr;

  /// Keep the description in the shared record so that it survives a crash
  void sync()
  {
    if (!rec) return;
    auto d = desc.str();
    auto n = std::min(d.size(), sizeof rec->desc - 1);
    std::memcpy(rec->desc, d.data(), n);
    rec->desc[n] = 0;
  }

  /// Mark the case as non-trivial (by the rule stated in the harness)
  void nt(bool b = true) { nontrivial_ = nontrivial_ || b; }
  /// Classify the case
  void cls(const char* label)
  {
    if (classes) ++(*classes)[label];
  }
  void cls(bool b, const char* label)
  {
    if (b) cls(label);
  }
};

using Fn = void (*)(Ctx&);
struct Test
{
  const char* name;
  Fn fn;
  std::uint64_t quick;
  std::uint64_t thorough;
  double sanf; // fraction of the cases run in the sanitized variant
};
inline std::vector<Test>&
registry()
{
  static std::vector<Test> r;
  return r;
}
struct Reg
{
  Reg(const char* n, Fn f, std::uint64_t q, std::uint64_t t, double sf)
  {
    registry().push_back({ n, f, q, t, sf });
  }
};

/// Stated by each harness: how cases are made and what makes one non-trivial.
extern const char* const rule;

inline std::string&
scratch()
{
  static std::string s = "/tmp";
  return s;
}

template<class C>
std::string
show(C const& c)
{
  std::ostringstream o;
  o << std::setprecision(17) << "{";
  bool first = true;
  std::size_t k = 0;
  for (auto const& x : c) {
    if (++k > 200) {
      o << ",...";
      break;
    }
    if (!first) o << ",";
    first = false;
    o << x;
  }
  o << "}";
  return o.str();
}

inline std::string
quote(std::string const& s)
{
  std::ostringstream o;
  o << '"';
  for (unsigned char ch : s) {
    if (ch < 32 || ch > 126 || ch == '"' || ch == '\\') {
      o << "\\x" << std::hex << std::setw(2) << std::setfill('0') << int(ch)
        << std::dec;
    } else {
      o << ch;
    }
  }
  o << '"';
  return o.str();
}

} // namespace pbt

#define PBT_TEST(name, quick, thorough, sanf)                                  \
  static void name(pbt::Ctx&);                                                 \
  static pbt::Reg reg_##name(#name, name, quick, thorough, sanf);              \
  static void name([[maybe_unused]] pbt::Ctx& c)

#define NOTE(expr)                                                             \
  do {                                                                         \
    if (c.describing) {                                                        \
      c.desc << std::setprecision(17) << expr << "\n";                         \
      c.sync();                                                                \
    }                                                                          \
  } while (0)

#define CHECK(cond, expr)                                                      \
  do {                                                                         \
    if (!(cond)) {                                                             \
      std::ostringstream o_;                                                   \
      o_ << std::setprecision(17) << expr << "  [" #cond "]";                  \
      throw pbt::Failure{ o_.str() };                                          \
    }                                                                          \
  } while (0)

#define DISCARD_IF(cond)                                                       \
  do {                                                                         \
    if (cond) throw pbt::Discard{};                                            \
  } while (0)
