// check: libs=-lboost_serialization
// check: pre=dumpmt
#include "locales.hpp"
#include "text.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <bwsl/RNGUtils.hpp>
#include <random>
#include <sys/wait.h>

const char* const pbt::rule =
  "Six Mersenne-Twister engine types (7 to 4001 words), random seeds, 0..3000 draws before the save (also exactly at "
  "the refill boundary), text or binary archive, under global locales with and without digit grouping, restored into a fresh or used engine, then at least "
  "one full state of further draws compared; archives holding damaged or foreign text; seeds of all "
  "sizes given to the dump application. Non-trivial: draws before the save, a damaged state that "
  "starts like a real one, or a seed above 2^31.";

using Tiny = std::mersenne_twister_engine<std::uint_fast32_t, 32, 7, 3, 11, 0x9908b0df, 11,
                                          0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253>;
using Small64 =
  std::mersenne_twister_engine<std::uint_fast64_t, 64, 19, 9, 31, 0xb5026f5aa96619e9ULL, 29,
                               0x5555555555555555ULL, 17, 0x71d67fffeda60000ULL, 37,
                               0xfff7eee000000000ULL, 43, 6364136223846793005ULL>;

using Huge =
  std::mersenne_twister_engine<std::uint_fast64_t, 64, 4001, 156, 31, 0xb5026f5aa96619e9ULL, 29,
                               0x5555555555555555ULL, 17, 0x71d67fffeda60000ULL, 37,
                               0xfff7eee000000000ULL, 43, 6364136223846793005ULL>;
/// a word of few bits
using Narrow = std::mersenne_twister_engine<std::uint_fast16_t, 16, 31, 13, 7, 0x9908, 5, 0xffff, 3,
                                            0x5680, 7, 0x6000, 9, 25173>;

template<class E, class Out, class In>
static void
through(E const& from, E& to, std::locale const& here = std::locale::classic(),
        std::locale const& there = std::locale::classic())
{
  std::stringstream s;
  {
    loc::Global g(here);
    Out ar(s);
    int a = 1;
    ar << a << from << a;
  }
  loc::Global g(there);
  In ar(s);
  int a = 0, b = 0;
  ar >> a >> to >> b;
  CHECK(a == 1 && b == 1, "the items around the engine are damaged");
}

template<class E>
static void
roundtrip(pbt::Ctx& c, const char* name, std::size_t words)
{
  auto seed = c.s.uedgy(0, ~0ULL);
  E e(static_cast<typename E::result_type>(seed));
  std::size_t draws = c.s.coin() ? c.s.len(3000) : words * c.s.urange(0, 3) + c.s.urange(0, 2) - (c.s.coin() ? 1 : 0);
  if (draws > 100000) draws = 0;
  NOTE(name << " seed " << seed << " after " << draws << " draws");
  for (std::size_t i = 0; i < draws; ++i) e();
  E twin = e;
  E r;
  if (c.s.coin()) {
    r.seed(static_cast<typename E::result_type>(c.s.uedgy(0, 1000)));
    r.discard(c.s.urange(0, 700));
  }
  // the program that restores may have another global locale than the one that saved
  auto here = std::locale::classic(), there = here;
  if (c.s.coin(1, 3)) {
    here = loc::any(c.s);
    there = loc::any(c.s);
    NOTE("saved under a global locale with grouping "
         << pbt::quote(std::use_facet<std::numpunct<char>>(here).grouping()) << ", restored under one with "
         << pbt::quote(std::use_facet<std::numpunct<char>>(there).grouping()));
  }
  if (c.s.coin()) {
    through<E, boost::archive::text_oarchive, boost::archive::text_iarchive>(e, r, here, there);
  } else {
    through<E, boost::archive::binary_oarchive, boost::archive::binary_iarchive>(e, r, here, there);
  }
  c.nt(draws > 0);
  c.cls(name);
  CHECK(e == twin, "saving changed the original engine");
  auto more = words + c.s.urange(1, 40);
  for (std::size_t i = 0; i < more; ++i) {
    auto x = twin(), y = r(), z = e();
    CHECK(x == z, "the original continues with " << z << " at draw " << i << ", expected " << x);
    CHECK(x == y, "the restored engine continues with " << y << " at draw " << i << ", expected " << x);
  }
}

PBT_TEST(engines, 4000, 200000, 0.3)
{
  switch (c.s.index(4)) {
    case 0:
      return roundtrip<std::mt19937>(c, "mt19937", 624);
    case 1:
      return roundtrip<std::mt19937_64>(c, "mt19937_64", 312);
    case 2:
      return roundtrip<Tiny>(c, "tiny", 7);
    default:
      return c.s.coin(1, 3) ? roundtrip<Narrow>(c, "narrow", 31) : roundtrip<Small64>(c, "small64", 19);
  }
}

PBT_TEST(large_engines, 40, 2000, 0.2)
{
  roundtrip<Huge>(c, "huge", 4001);
}

PBT_TEST(damaged_archives, 6000, 300000, 0.3)
{
  Tiny e(static_cast<Tiny::result_type>(c.s.urange(0, 1000)));
  e.discard(c.s.urange(0, 30));
  std::ostringstream o;
  o << e;
  std::vector<std::string> tok;
  {
    std::istringstream in(o.str());
    std::string t;
    while (in >> t) tok.push_back(t);
  }
  std::string text;
  bool looks_real = false;
  switch (c.s.index(5)) {
    case 0: // truncated
    {
      auto keep = c.s.urange(0, tok.size() - 1);
      for (std::size_t i = 0; i < keep; ++i) text += tok[i] + " ";
      looks_real = keep > 0;
      break;
    }
    case 1: // one word is no number
    {
      auto k = c.s.index(tok.size());
      for (std::size_t i = 0; i < tok.size(); ++i)
        text += (i == k ? c.s.oneof<std::string>({ "x", "nan", "--1", "+", "e5", "seed" }) : tok[i]) + " ";
      looks_real = k > 0;
      break;
    }
    default: // more than a state, or the state of a larger engine
    {
      looks_real = true;
      std::ostringstream big;
      if (c.s.coin(1, 3)) {
        big << Small64(c.s.urange(0, 1000));
        text = big.str();
      } else if (c.s.coin()) {
        text = o.str() + c.s.oneof<std::string>({ " 0", " 17", " x", " 4294967295 1", "x", "\n-", " ;" });
      } else {
        text = o.str() + " " + o.str();
      }
      break;
    }
    case 2:
      text = c.s.oneof<std::string>({ "", " ", "hello", "mt19937", "{}", "true" });
      break;
    case 3:
      text = "q" + c.s.text(10, 60, "0123456789 abc-+.");
  }
  NOTE("archived text " << pbt::quote(text));
  c.nt(looks_real);
  std::stringstream s;
  bool binary = c.s.coin();
  bool invalid = false;
  std::string other;
  try {
    if (binary) {
      {
        boost::archive::binary_oarchive ar(s);
        ar << text;
      }
      boost::archive::binary_iarchive ar(s);
      // the engine is archived as a class with its own header: write it so
    }
    // save something that has the shape of an engine's archive: an engine is
    // archived, then its text is replaced
    std::stringstream t;
    {
      boost::archive::text_oarchive ar(t);
      ar << static_cast<Tiny const&>(e);
    }
    auto all = t.str();
    auto state = o.str();
    auto at = all.find(std::to_string(state.size()) + " " + state);
    DISCARD_IF(at == std::string::npos);
    auto len = std::to_string(state.size()).size() + 1 + state.size();
    all = all.substr(0, at) + std::to_string(text.size()) + " " + text + all.substr(at + len);
    std::istringstream in(all);
    boost::archive::text_iarchive ar(in);
    Tiny r;
    ar >> r;
  } catch (std::invalid_argument const&) {
    invalid = true;
  } catch (pbt::Discard const&) {
    throw;
  } catch (std::exception const& x) {
    other = x.what();
  }
  CHECK(invalid, "an archive holding " << pbt::quote(text) << " is "
                                       << (other.empty() ? "accepted as an engine" : "rejected with " + other));
}

static std::string
run_dump(std::string const& args, int& status)
{
  auto const* work = std::getenv("PBT_WORK");
  auto cmd = std::string(work ? work : ".") + "/dumpmt " + args + " 2>/dev/null";
  std::string out;
  auto* p = popen(cmd.c_str(), "r");
  DISCARD_IF(!p);
  char buf[4096];
  std::size_t k = 0;
  while ((k = fread(buf, 1, sizeof buf, p)) > 0) out.append(buf, k);
  status = pclose(p);
  return out;
}

PBT_TEST(dump_application, 250, 5000, 0.2)
{
  if (c.s.coin(1, 20)) {
    int st = 0;
    NOTE("without arguments");
    run_dump("", st);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) != 0, "without arguments the application succeeds");
    return;
  }
  auto seed = c.s.uedgy(0, ~0ULL);
  NOTE("seed " << seed);
  c.nt(seed > 0x7fffffffULL);
  int st = 0;
  auto text = std::to_string(seed);
  // decimal whatever the first digit
  if (c.s.coin(1, 4)) text.insert(0, c.s.urange(1, 3), '0');
  NOTE("argument " << text);
  auto out = run_dump(text, st);
  CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "exit status " << st << " for seed " << seed);
  std::istringstream in(out);
  std::mt19937_64 e(1), want(seed);
  in >> e;
  CHECK(!in.fail(), "the output for seed " << seed << " is no engine state: " << out.substr(0, 200));
  CHECK(e == want, "the state printed for seed " << seed << " is not that of a freshly seeded engine");
  std::string rest;
  in >> rest;
  CHECK(rest.empty(), "trailing output " << pbt::quote(rest.substr(0, 100)));
}
