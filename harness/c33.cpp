// check: factor=30
// check: san_factor=20
// check: fuzz_runs=60000
#include "pbt.hpp"
#include <bwsl/RelationalUtils.hpp>

const char* const pbt::rule =
  "Randomly generated strict weak orders (rank tables with ties) over the values of user types on which "
  "every macro is instantiated: same type and mixed types, plain and template, with generated and with "
  "supplied equality (coarser or as fine as the identity), with friends declared by the macro; all pairs "
  "of values and both operand orders. Non-trivial: at least two ranks and one tie between different values.";

namespace {

constexpr int N = 8;

/// rank of each value under the order currently explored, and a salt that the
/// order does not look at
int rankof[N];

/// how often less-than and equality were evaluated with swapped or foreign arguments
int calls = 0;

} // namespace

// --- plain, one type ---------------------------------------------------------
struct One
{
  int id;
  int payload;
  friend bool operator<(One const& a, One const& b)
  {
    ++calls;
    return rankof[a.id] < rankof[b.id];
  }
};
OVERLOADRELATIONAL(One, One)

// --- plain, two types ----------------------------------------------------------
struct Left
{
  int id;
};
struct Right
{
  long id;
  std::string text;
};
inline bool
operator<(Left const& a, Right const& b)
{
  return rankof[a.id] < rankof[b.id];
}
inline bool
operator<(Right const& a, Left const& b)
{
  return rankof[a.id] < rankof[b.id];
}
OVERLOADRELATIONAL(Left, Right)
OVERLOADRELATIONAL(Right, Left)

// --- supplied equality, one type -----------------------------------------------
struct Fine
{
  int id;
  friend bool operator<(Fine const& a, Fine const& b) { return rankof[a.id] < rankof[b.id]; }
  // equality as supplied: equivalence, whatever the order says about the payload
  friend bool operator==(Fine const& a, Fine const& b) { return rankof[a.id] == rankof[b.id]; }
};
OVERLOADRELATIONALNOEQ(Fine, Fine)

// --- supplied equality, finer than the order, which only != may look at ----------
struct Exact
{
  int id;
  int payload;
  friend bool operator<(Exact const& a, Exact const& b) { return rankof[a.id] < rankof[b.id]; }
  friend bool operator==(Exact const& a, Exact const& b) { return a.id == b.id && a.payload == b.payload; }
};
OVERLOADRELATIONALNOEQ(Exact, Exact)

// --- supplied equality, two types --------------------------------------------------
struct Metre
{
  int id;
};
struct Foot
{
  int id;
};
inline bool
operator<(Metre const& a, Foot const& b)
{
  return rankof[a.id] < rankof[b.id];
}
inline bool
operator<(Foot const& a, Metre const& b)
{
  return rankof[a.id] < rankof[b.id];
}
inline bool
operator==(Metre const& a, Foot const& b)
{
  return rankof[a.id] == rankof[b.id];
}
inline bool
operator==(Foot const& a, Metre const& b)
{
  return rankof[a.id] == rankof[b.id];
}
OVERLOADRELATIONALNOEQ(Metre, Foot)
OVERLOADRELATIONALNOEQ(Foot, Metre)

// --- friends -------------------------------------------------------------------
class Secret
{
public:
  explicit Secret(int i)
    : id(i)
  {
  }
  FDEFINEOVERLOADRELATIONAL(Secret, Secret)
  FDEFINEOVERLOADRELATIONAL(Secret, int)
  FDEFINEOVERLOADRELATIONAL(int, Secret)

private:
  int id;
};
inline bool
operator<(Secret const& a, Secret const& b)
{
  return rankof[a.id] < rankof[b.id];
}
inline bool
operator<(Secret const& a, int const& b)
{
  return rankof[a.id] < rankof[b];
}
inline bool
operator<(int const& a, Secret const& b)
{
  return rankof[a] < rankof[b.id];
}
OVERLOADRELATIONAL(Secret, Secret)
OVERLOADRELATIONAL(Secret, int)
OVERLOADRELATIONAL(int, Secret)

// friends with a supplied equality
class Veiled
{
public:
  explicit Veiled(int i)
    : id(i)
  {
  }
  FDEFINEOVERLOADRELATIONAL(Veiled, Veiled)
  FDEFINEOVERLOADRELATIONAL(Veiled, int)
  FDEFINEOVERLOADRELATIONAL(int, Veiled)

private:
  int id;
};
#define VEILED(A, B, a, b)                                                                         \
  inline bool operator<(A const& x, B const& y) { return rankof[a] < rankof[b]; }                  \
  inline bool operator==(A const& x, B const& y) { return rankof[a] == rankof[b]; }                \
  OVERLOADRELATIONALNOEQ(A, B)
VEILED(Veiled, Veiled, x.id, y.id)
VEILED(Veiled, int, x.id, y)
VEILED(int, Veiled, x, y.id)

// friends that supply every operator themselves
class Alone
{
public:
  explicit Alone(int i)
    : id(i)
  {
  }
  FDEFINEOVERLOADRELATIONAL(Alone, Alone)

private:
  int id;
};
#define ALONE(op)                                                                                  \
  inline bool operator op(Alone const& a, Alone const& b) { return rankof[a.id] op rankof[b.id]; }
ALONE(<) ALONE(>) ALONE(<=) ALONE(>=) ALONE(==) ALONE(!=)

// --- templates --------------------------------------------------------------------
template<class G>
struct Box
{
  G id;
};
template<class G>
inline bool
operator<(Box<G> const& a, Box<G> const& b)
{
  return rankof[static_cast<int>(a.id)] < rankof[static_cast<int>(b.id)];
}
template<class G>
inline bool
operator<(Box<G> const& a, G const& b)
{
  return rankof[static_cast<int>(a.id)] < rankof[static_cast<int>(b)];
}
template<class G>
inline bool
operator<(G const& a, Box<G> const& b)
{
  return rankof[static_cast<int>(a)] < rankof[static_cast<int>(b.id)];
}
TEMPLATEOVERLOADRELATIONAL(Box<G>, Box<G>, G)
TEMPLATEOVERLOADRELATIONAL(Box<G>, G, G)
TEMPLATEOVERLOADRELATIONAL(G, Box<G>, G)

template<class G>
struct Crate
{
  G id;
};
template<class G>
inline bool
operator<(Box<G> const& a, Crate<G> const& b)
{
  return rankof[static_cast<int>(a.id)] < rankof[static_cast<int>(b.id)];
}
template<class G>
inline bool
operator<(Crate<G> const& a, Box<G> const& b)
{
  return rankof[static_cast<int>(a.id)] < rankof[static_cast<int>(b.id)];
}
TEMPLATEOVERLOADRELATIONAL(Box<G>, Crate<G>, G)
TEMPLATEOVERLOADRELATIONAL(Crate<G>, Box<G>, G)

// --- partial information: the macros inside a namespace -----------------------------
namespace user {
struct Word
{
  std::string s;
};
inline bool
operator<(Word const& a, Word const& b)
{
  return a.s.size() < b.s.size();
}
OVERLOADRELATIONAL(Word, Word)
}

namespace {

template<class A, class B>
void
agree(A const& a, B const& b, int w, const char* kind, bool eq)
{
  auto name = [&] { return std::string(kind) + " with ranks ordered " + std::to_string(w); };
  CHECK((a < b) == (w < 0), name() << ": a<b is " << (a < b));
  CHECK((a > b) == (w > 0), name() << ": a>b is " << (a > b));
  CHECK((a <= b) == (w <= 0), name() << ": a<=b is " << (a <= b));
  CHECK((a >= b) == (w >= 0), name() << ": a>=b is " << (a >= b));
  CHECK((a == b) == eq, name() << ": a==b is " << (a == b));
  CHECK((a != b) == !eq, name() << ": a!=b is " << (a != b));
}

} // namespace

PBT_TEST(orders, 5000, 300000, 0.3)
{
  auto ranks = c.s.urange(1, N);
  for (auto& r : rankof) r = static_cast<int>(c.s.range(-static_cast<long>(ranks), static_cast<long>(ranks)));
  NOTE("ranks " << pbt::show(std::vector<int>(rankof, rankof + N)));
  bool tie = false, differ = false;
  for (int i = 0; i < N; ++i) {
    for (int j = 0; j < N; ++j) {
      tie = tie || (i != j && rankof[i] == rankof[j]);
      differ = differ || rankof[i] != rankof[j];
    }
  }
  c.nt(tie && differ);
  std::vector<user::Word> words;
  for (int i = 0; i < N; ++i) {
    std::string s(c.s.urange(0, 4), 'a');
    for (auto& ch : s) ch = static_cast<char>('a' + c.s.index(3));
    words.push_back({ s });
  }
  for (int i = 0; i < N; ++i) {
    for (int j = 0; j < N; ++j) {
      auto w = (rankof[i] > rankof[j]) - (rankof[i] < rankof[j]);
      agree(One{ i, 1 }, One{ j, 2 }, w, "one type", w == 0);
      agree(Left{ i }, Right{ j, "x" }, w, "two types", w == 0);
      agree(Right{ i, "x" }, Left{ j }, w, "two types swapped", w == 0);
      agree(Fine{ i }, Fine{ j }, w, "supplied equality", w == 0);
      agree(Metre{ i }, Foot{ j }, w, "supplied equality of two types", w == 0);
      agree(Foot{ i }, Metre{ j }, w, "supplied equality of two types swapped", w == 0);
      for (int p = 0; p < 2; ++p)
        agree(Exact{ i, 0 }, Exact{ j, p }, w, "supplied finer equality", i == j && p == 0);
      agree(Secret(i), Secret(j), w, "friends", w == 0);
      agree(Secret(i), j, w, "friends and a number", w == 0);
      agree(i, Secret(j), w, "a number and friends", w == 0);
      agree(Veiled(i), Veiled(j), w, "friends with supplied equality", w == 0);
      agree(Veiled(i), j, w, "friends with supplied equality and a number", w == 0);
      agree(i, Veiled(j), w, "a number and friends with supplied equality", w == 0);
      agree(Alone(i), Alone(j), w, "friends with supplied operators", w == 0);
      agree(Box<int>{ i }, Box<int>{ j }, w, "template", w == 0);
      agree(Box<int>{ i }, j, w, "template and its argument", w == 0);
      agree(i, Box<int>{ j }, w, "argument and template", w == 0);
      agree(Box<long>{ i }, static_cast<long>(j), w, "another template and its argument", w == 0);
      agree(Box<short>{ static_cast<short>(i) }, Crate<short>{ static_cast<short>(j) }, w, "two templates", w == 0);
      agree(Crate<long>{ i }, Box<long>{ j }, w, "two templates swapped", w == 0);
      auto x = words[static_cast<std::size_t>(i)], y = words[static_cast<std::size_t>(j)];
      auto v = (x.s.size() > y.s.size()) - (x.s.size() < y.s.size());
      agree(x, y, v, "words by length", v == 0);
    }
  }
}
