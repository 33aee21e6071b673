// check: cpu=60
// check: san=thread
// check: libs=-lboost_serialization -lpthread
// check: fuzz_runs=6000
// check: workers=2
#include "objects.hpp"
#include <memory>
#include <thread>

const char* const pbt::rule =
  "Two to four actors, each with objects of its own (any class of the library, or the free functions with "
  "an engine of their own) and a list of operations: run one after the other, interleaved by a generated "
  "schedule, and at the same time in threads of their own; and objects shared by threads that only query "
  "them, in different orders. Every operation has the outcome it has alone, to the last bit; the threads "
  "are also watched by ThreadSanitizer. Non-trivial: at least two actors or threads with three operations "
  "each.";

using obj::Op;

namespace {

struct Actor
{
  virtual ~Actor() = default;
  virtual std::string step(Op const& o) = 0;
  virtual std::string look() = 0;
  virtual const char* name() const = 0;
};

template<class K>
struct ActorOf : Actor
{
  typename K::type o;
  explicit ActorOf(Op const& p)
    : o(K::make(p))
  {
  }
  std::string step(Op const& p) override { return K::apply(o, p); }
  std::string look() override { return K::look(o); }
  const char* name() const override { return K::name; }
};

using Maker = std::unique_ptr<Actor> (*)(Op const&);
template<class K>
std::unique_ptr<Actor>
maker(Op const& o)
{
  return std::make_unique<ActorOf<K>>(o);
}

const std::vector<Maker> kinds = {
  maker<obj::Functions>,
  maker<obj::LatticeObj>,
  maker<obj::Rational>,
  maker<obj::Group>,
  maker<obj::Hist>,
  maker<obj::Stats>,
  maker<obj::Grid>,
  maker<obj::BravaisObj>,
  maker<obj::Kahan>,
  maker<obj::Neumaier>,
  maker<obj::Welford>,
  maker<obj::West>,
  maker<obj::Integer>,
  maker<obj::Space<bwsl::LinSpace<double>>>,
  maker<obj::Space<bwsl::LogSpace<double>>>,
  maker<obj::ApproxObj>,
};
// kinds whose operations only query the object
const std::vector<std::size_t> queried = { 1, 6, 7 };

struct Script
{
  std::size_t kind = 0;
  std::vector<Op> ops{}; // the first one makes the object
};

Script
script(pbt::Ctx& c, std::size_t kind, std::size_t avg)
{
  Script s;
  s.kind = kind;
  s.ops.push_back(obj::op(c.s));
  std::size_t n = 0;
  while (c.s.more(n, avg, 4 * avg)) s.ops.push_back(obj::op(c.s));
  if (c.describing) {
    std::ostringstream o;
    for (auto const& p : s.ops) o << " " << p;
    NOTE("actor of kind " << kind << ":" << o.str());
  }
  return s;
}

std::vector<std::string>
alone(Script const& s)
{
  std::vector<std::string> out;
  auto a = kinds[s.kind](s.ops[0]);
  for (std::size_t i = 1; i < s.ops.size(); ++i) out.push_back(a->step(s.ops[i]));
  out.push_back(a->look());
  return out;
}

std::vector<Script>
scripts(pbt::Ctx& c)
{
  std::vector<Script> s;
  auto n = 2 + c.s.index(3);
  auto same = c.s.coin(); // actors of the same kind meet in the same code
  auto kind = c.s.index(kinds.size());
  bool busy = true;
  for (std::size_t i = 0; i < n; ++i) {
    s.push_back(script(c, same ? kind : c.s.index(kinds.size()), 6));
    busy = busy && s.back().ops.size() > 3;
  }
  c.nt(busy);
  return s;
}

std::string
difference(Script const& s, std::size_t i, std::string const& got, std::string const& want)
{
  std::ostringstream o;
  o << kinds[s.kind](s.ops[0])->name() << ": ";
  if (i + 1 < s.ops.size()) o << "operation " << s.ops[i + 1];
  else o << "the final answers";
  o << " yield \"" << got.substr(0, 300) << "\" instead of \"" << want.substr(0, 300) << "\"";
  return o.str();
}

/// Lets all threads start together
struct Gate
{
  std::atomic<int> waiting;
  explicit Gate(int n)
    : waiting(n)
  {
  }
  void pass()
  {
    --waiting;
    for (int i = 0; waiting > 0; ++i)
      if (i > 200) std::this_thread::yield();
  }
};

} // namespace

PBT_TEST(interleaved, 4000, 200000, 0.1)
{
  auto s = scripts(c);
  std::vector<std::vector<std::string>> want, got(s.size());
  for (auto const& x : s) want.push_back(alone(x));
  std::vector<std::unique_ptr<Actor>> a(s.size());
  std::vector<std::size_t> at(s.size(), 0), live(s.size());
  std::iota(live.begin(), live.end(), 0);
  std::string schedule;
  while (!live.empty()) {
    auto l = c.s.index(live.size());
    auto i = live[l];
    schedule += std::to_string(i);
    if (at[i] == 0) a[i] = kinds[s[i].kind](s[i].ops[0]);
    else if (at[i] < s[i].ops.size()) got[i].push_back(a[i]->step(s[i].ops[at[i]]));
    else {
      got[i].push_back(a[i]->look());
      live.erase(live.begin() + static_cast<long>(l));
    }
    ++at[i];
  }
  NOTE("schedule " << schedule);
  for (std::size_t i = 0; i < s.size(); ++i)
    for (std::size_t k = 0; k < want[i].size(); ++k)
      CHECK(got[i][k] == want[i][k], "interleaved, " << difference(s[i], k, got[i][k], want[i][k]));
}

PBT_TEST(threads, 2500, 100000, 0.19)
{
  auto s = scripts(c);
  std::vector<std::vector<std::string>> want, got(s.size());
  for (auto const& x : s) want.push_back(alone(x));
  {
    Gate gate(static_cast<int>(s.size()));
    std::vector<std::thread> t;
    for (std::size_t i = 0; i < s.size(); ++i)
      t.emplace_back([&, i] {
        gate.pass();
        got[i] = alone(s[i]);
      });
    for (auto& x : t) x.join();
  }
  for (std::size_t i = 0; i < s.size(); ++i)
    for (std::size_t k = 0; k < want[i].size(); ++k)
      CHECK(got[i][k] == want[i][k], "in threads, " << difference(s[i], k, got[i][k], want[i][k]));
}

/// Nothing is queried before the threads start, so answers kept for later would be computed by them
PBT_TEST(shared_geometry, 2500, 100000, 0.19)
{
  auto s = script(c, queried[c.s.index(queried.size())], 12);
  auto want = alone(s);
  auto n = 2 + c.s.index(3);
  auto turn = c.s.index(4);
  auto shared = kinds[s.kind](s.ops[0]);
  auto count = s.ops.size() - 1;
  std::vector<std::vector<std::string>> got(n, std::vector<std::string>(count + 1));
  {
    Gate gate(static_cast<int>(n));
    std::vector<std::thread> t;
    for (std::size_t i = 0; i < n; ++i)
      t.emplace_back([&, i] {
        gate.pass();
        if (i % 2) got[i][count] = shared->look();
        for (std::size_t k = 0; k < count; ++k) {
          auto at = (k + turn * i) % count;
          if (turn == 3 && i % 2) at = count - 1 - at;
          got[i][at] = shared->step(s.ops[at + 1]);
        }
        if (i % 2 == 0) got[i][count] = shared->look();
      });
    for (auto& x : t) x.join();
  }
  for (std::size_t i = 0; i < n; ++i)
    for (std::size_t k = 0; k <= count; ++k)
      CHECK(got[i][k] == want[k], "shared by threads, " << difference(s, k, got[i][k], want[k]));
  c.nt(count >= 3);
  c.cls(shared->name());
}

/// Everything an object with a history answers, saving it included
PBT_TEST(shared_history, 2500, 100000, 0.19)
{
  auto kind = c.s.index(kinds.size());
  auto s = script(c, kind, 10);
  auto want = alone(s).back();
  auto n = 2 + c.s.index(3);
  auto shared = kinds[kind](s.ops[0]);
  for (std::size_t i = 1; i < s.ops.size(); ++i) shared->step(s.ops[i]);
  std::vector<std::string> got(n);
  {
    Gate gate(static_cast<int>(n));
    std::vector<std::thread> t;
    for (std::size_t i = 0; i < n; ++i)
      t.emplace_back([&, i] {
        gate.pass();
        for (int k = 0; k < 3; ++k) got[i] = shared->look();
      });
    for (auto& x : t) x.join();
  }
  for (auto const& g : got)
    CHECK(g == want, "shared by threads, " << difference(s, s.ops.size() - 1, g, want));
  c.nt(s.ops.size() > 3);
  c.cls(shared->name());
}
