// check: factor=8
// check: san_factor=6
// check: fuzz_runs=6000
// check: flags=-DBWSL_ACCUMULATORS_CHECKS -pthread
// check: libs=-lboost_serialization
#include "pbt.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <bwsl/Accumulators.hpp>
#include <bwsl/EnumString.hpp>
#include <bwsl/Exceptions.hpp>
#include <bwsl/MonteCarloUtils.hpp>
#include <bwsl/ObservableGroup.hpp>
#include <bwsl/RationalNum.hpp>
#include <bwsl/accumulators/NaiveIntegerAccumulator.hpp>
#include <exception>
#include <memory>
#include <thread>

const char* const pbt::rule =
  "Histories of up to 40 failing calls of every kind the library reports (malformed rationals, unknown enum "
  "names, move outcomes out of sequence, additions that overflow, unknown observables, invalid probabilities) "
  "whose errors are kept, copied, assigned, rethrown (also in another thread) and destroyed in any order. "
  "After every step all the messages still held are read again, and the object of the failed call is "
  "compared with its state before. Non-trivial: at least two errors of the same kind with different "
  "messages are held at the same time, or an error was assigned or rethrown.";

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Colour, (Red)(Green)(Blue))

namespace {

using bwsl::exception::AccumulatorOverflow;
using bwsl::exception::BadParsing;
using bwsl::montecarlo::MoveStats;
using bwsl::montecarlo::exception::InvalidProbability;
using bwsl::montecarlo::exception::MoveInvalidSequence;
using EnumError = EnumStringConversionFailed_Colour;

template<class E>
constexpr bool fine = std::is_base_of<std::exception, E>::value && noexcept(std::declval<E const&>().what()) &&
                      std::is_copy_constructible<E>::value&& std::is_copy_assignable<E>::value;
static_assert(fine<AccumulatorOverflow> && fine<BadParsing> && fine<InvalidProbability> &&
                fine<MoveInvalidSequence> && fine<EnumError>,
              "errors are copyable standard exceptions");

/// An error somebody holds on to
struct Held
{
  std::string text; // what it said when it was raised
  int kind = 0;
  virtual ~Held() = default;
  virtual std::exception const& error() const = 0;
  virtual std::unique_ptr<Held> copy() const = 0;
  virtual bool assign(Held const& that) = 0;
  virtual std::exception_ptr pointer() const = 0;
};

template<class E>
struct Holds : Held
{
  E e;
  explicit Holds(E const& x) : e(x) {}
  std::exception const& error() const override { return e; }
  std::unique_ptr<Held> copy() const override
  {
    auto h = std::make_unique<Holds<E>>(e);
    h->text = text;
    h->kind = kind;
    return h;
  }
  bool assign(Held const& that) override
  {
    auto o = dynamic_cast<Holds<E> const*>(&that);
    if (!o) return false;
    e = o->e;
    text = o->text;
    return true;
  }
  std::exception_ptr pointer() const override { return std::make_exception_ptr(e); }
};

template<class T>
std::string
saved(T const& x)
{
  std::ostringstream o;
  boost::archive::text_oarchive ar(o, boost::archive::no_header);
  ar << x;
  return o.str();
}

/// A message with some number that reads back as x
bool
names_number(std::string const& m, double x)
{
  for (std::size_t i = 0; i < m.size(); ++i) {
    if (i > 0 && (std::isalnum(static_cast<unsigned char>(m[i - 1])) || m[i - 1] == '.' || m[i - 1] == '-')) continue;
    char* end = nullptr;
    auto d = std::strtod(m.c_str() + i, &end);
    if (end != m.c_str() + i && (d == x || (d != d && x != x))) return true;
  }
  return false;
}

// without NUL, since messages are C strings
std::string
no_nul(std::string t)
{
  std::replace(t.begin(), t.end(), '\0', '0');
  return t;
}

std::string
some_name(pbt::Src& s)
{
  switch (s.index(5)) {
    case 0:
      return "";
    case 1:
      return std::string(s.urange(1, 3000), static_cast<char>(s.urange('a', 'z')));
    case 2:
      return no_nul(s.text(6, 20, "%{}sd01: \"'\\"));
    default:
      return no_nul(s.text(8, 40, "abcdefghijklmnopqrstuvwxyz_0123456789 "));
  }
}

/// Runs something that has to fail with E and keeps the error
template<class E, class F>
std::unique_ptr<Held>
raise(int kind, F f)
{
  std::unique_ptr<Held> h;
  try {
    f();
  } catch (std::exception const& base) {
    auto e = dynamic_cast<E const*>(&base);
    CHECK(e != nullptr, "another error is raised: " << base.what());
    CHECK(e->what() != nullptr, "an error without message");
    std::string text = e->what();
    CHECK(text == base.what(), "the message depends on the static type");
    h = std::make_unique<Holds<E>>(*e);
    h->text = text;
    h->kind = kind;
  }
  CHECK(h, "no error is raised");
  CHECK(!h->text.empty(), "an error with an empty message");
  return h;
}

std::unique_ptr<Held>
fail(pbt::Ctx& c)
{
  auto& s = c.s;
  auto kind = static_cast<int>(s.index(6));
  switch (kind) {
    case 0: {
      c.cls("malformed rational");
      static const std::vector<std::string> bad = { "", "x", "1", "1/2", "1//", "//2", "3//0", "a//b", "1//x", "-", "7/ x/2" };
      auto t = s.pick(bad);
      NOTE("parse " << pbt::quote(t));
      auto r = bwsl::RationalNum<long>(s.range(-20, 20), s.range(1, 20));
      auto num = r.GetNum(), den = r.GetDen();
      auto h = raise<BadParsing>(kind, [&] { bwsl::FromString(t, r); });
      CHECK(r.GetNum() == num && r.GetDen() == den, "a malformed text changes the target");
      bwsl::FromString("3//4", r);
      CHECK(r.GetNum() == 3 && r.GetDen() == 4, "a text after a malformed one is read as " << bwsl::ToString(r));
      return h;
    }
    case 1: {
      c.cls("unknown name");
      auto t = some_name(s);
      if (t == "Red" || t == "Green" || t == "Blue") t += "x";
      NOTE("name " << pbt::quote(t));
      auto was = static_cast<Colour>(s.index(3));
      auto target = was;
      auto h = raise<EnumError>(kind, [&] { FromString(target, t); });
      CHECK(target == was, "an unknown name changes the target");
      CHECK(h->text.find(t) != std::string::npos && h->text.find("Colour") != std::string::npos,
            "the message " << pbt::quote(h->text) << " lacks the text or the enumeration");
      FromString(target, "Blue");
      CHECK(target == Blue, "a name after an unknown one is not read");
      return h;
    }
    case 2: {
      c.cls("move sequence");
      auto name = some_name(s);
      MoveStats m(name);
      auto n = s.index(4);
      for (std::size_t i = 0; i < n; ++i) {
        m.Propose();
        if (s.coin()) m.Accept(0.5);
        else m.Reject(0.25);
      }
      bool pending = s.coin();
      if (pending) m.Propose();
      auto how = s.index(pending ? 2 : 3);
      NOTE("move " << pbt::quote(name) << (pending ? " pending" : "") << " call " << how);
      auto before = saved(m);
      auto h = raise<MoveInvalidSequence>(kind, [&] {
        if (pending) {
          if (how == 0) m.Propose();
          else m.Add(bwsl::montecarlo::MoveResult::Accept(0.5));
        } else {
          if (how == 0) m.Accept(0.5);
          if (how == 1) m.Reject(0.5);
          if (how == 2) m.Impossible();
        }
      });
      CHECK(saved(m) == before && m.GetName() == name, "a refused call changes the statistics");
      CHECK(h->text.find(name) != std::string::npos,
            "the message " << pbt::quote(h->text) << " does not name the move " << pbt::quote(name));
      if (pending) m.Impossible();
      else m.Propose();
      return h;
    }
    case 3: {
      c.cls("overflow");
      bwsl::NaiveInteger a;
      auto n = s.index(4);
      for (std::size_t i = 0; i < n; ++i) a.Add(s.range(-1000, 1000));
      auto x = s.coin() ? LONG_MAX - s.range(0, 5) : LONG_MIN + s.range(0, 5);
      NOTE("add " << x);
      auto before = saved(a);
      auto h = raise<AccumulatorOverflow>(kind, [&] { a.Add(x); });
      CHECK(saved(a) == before, "a refused addition changes the accumulator");
      a.Add(1);
      return h;
    }
    case 4: {
      c.cls("unknown observable");
      bwsl::ObservableGroup<std::string> g("unused");
      auto n = s.index(4);
      for (std::size_t i = 0; i < n; ++i) {
        g.AddObservable("o" + std::to_string(i));
        g.Measure("o" + std::to_string(i), 0.5);
      }
      auto key = some_name(s) + "?";
      NOTE("measure " << pbt::quote(key));
      auto before = saved(g);
      auto h = raise<std::out_of_range>(kind, [&] { g.Measure(key, 1.0); });
      CHECK(saved(g) == before, "measuring an unknown observable changes the group");
      return h;
    }
    default: {
      c.cls("invalid probability");
      auto p = s.coin(1, 6) ? s.oneof<double>({ HUGE_VAL, -HUGE_VAL, -0.0, 2.0, -1.0, DBL_MAX, 5e-324 }) : s.finite();
      NOTE("probability " << p);
      auto h = raise<InvalidProbability>(kind, [&] { throw InvalidProbability(p); });
      CHECK(names_number(h->text, p), "the message " << pbt::quote(h->text) << " does not name " << p);
      return h;
    }
  }
}

} // namespace

PBT_TEST(errors, 30000, 1000000, 0.4)
{
  std::vector<std::unique_ptr<Held>> held;
  auto verify = [&](const char* when) {
    for (auto const& h : held) {
      std::string now = h->error().what();
      CHECK(now == h->text, when << " an error that said " << pbt::quote(h->text) << " says " << pbt::quote(now));
    }
  };
  std::size_t n = 0;
  bool moved = false, twice = false;
  while (c.s.more(n, 8, 40)) {
    auto k = held.empty() ? 0 : c.s.index(9);
    if (k < 4) {
      auto h = fail(c);
      for (auto const& o : held) twice = twice || (o->kind == h->kind && o->text != h->text);
      held.push_back(std::move(h));
      verify("after another failure");
    } else if (k == 4) {
      NOTE("copy");
      held.push_back(held[c.s.index(held.size())]->copy());
      verify("after a copy");
    } else if (k == 5) {
      auto i = c.s.index(held.size()), j = c.s.index(held.size());
      NOTE("assign " << j << " to " << i);
      moved = held[i]->assign(*held[j]) || moved;
      verify("after an assignment");
    } else if (k == 6) {
      auto i = c.s.index(held.size());
      NOTE("drop " << i);
      held.erase(held.begin() + static_cast<long>(i));
      verify("after another error is gone");
    } else {
      auto i = c.s.index(held.size());
      bool away = c.s.coin(1, 4);
      NOTE("rethrow " << i << (away ? " in a thread" : ""));
      moved = true;
      auto p = held[i]->pointer();
      auto want = held[i]->text;
      if (c.s.coin()) held.erase(held.begin() + static_cast<long>(i));
      std::string got;
      auto again = [&] {
        try {
          std::rethrow_exception(p);
        } catch (std::exception const& e) {
          got = e.what();
        }
        p = nullptr;
      };
      if (away) std::thread(again).join();
      else again();
      CHECK(got == want, "the error rethrown says " << pbt::quote(got) << " instead of " << pbt::quote(want));
      verify("after one is thrown again");
    }
  }
  c.nt(moved || twice);
  c.cls(twice, "two of a kind");
}

// errors raised in several threads at the same time
PBT_TEST(threads, 150, 3000, 0.5)
{
  auto n = c.s.urange(2, 6);
  auto reps = c.s.urange(1, 40);
  std::vector<std::string> names;
  for (std::size_t i = 0; i < n; ++i) names.push_back(some_name(c.s) + std::to_string(i));
  NOTE(n << " threads, names " << pbt::show(names));
  c.nt();
  std::vector<std::string> wrong(n);
  std::vector<std::thread> t;
  for (std::size_t i = 0; i < n; ++i) {
    t.emplace_back([&, i] {
      for (std::size_t k = 0; k < reps; ++k) {
        try {
          MoveStats m(names[i]);
          m.Accept(1);
          wrong[i] = "no error";
        } catch (MoveInvalidSequence const& e) {
          std::string a = e.what();
          std::this_thread::yield();
          if (a != e.what() || a.find(names[i]) == std::string::npos) wrong[i] = a;
        }
        try {
          Colour x = Red;
          FromString(x, names[i] + "!");
          wrong[i] = "no error";
        } catch (EnumError const& e) {
          std::string a = e.what();
          std::this_thread::yield();
          if (a != e.what() || a.find(names[i] + "!") == std::string::npos) wrong[i] = a;
        }
        auto p = static_cast<double>(i) + 2.5;
        InvalidProbability e(p);
        std::this_thread::yield();
        if (!names_number(e.what(), p)) wrong[i] = e.what();
      }
    });
  }
  for (auto& x : t) x.join();
  for (std::size_t i = 0; i < n; ++i)
    CHECK(wrong[i].empty(), "thread " << i << " reads " << pbt::quote(wrong[i]) << " for " << pbt::quote(names[i]));
}
