// Drivers of the property-based testing engine: seeded random search in
// crash-isolated worker processes, replay, shrinking, and (with PBT_FUZZ) a
// libFuzzer entry point.
#include "pbt.hpp"

#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace pbt;

namespace {

std::string
json(std::string const& s)
{
  std::ostringstream o;
  o << '"';
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o << '\\' << ch;
    } else if (ch == '\n') {
      o << "\\n";
    } else if (ch < 32 || ch > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", ch);
      o << b;
    } else {
      o << ch;
    }
  }
  o << '"';
  return o.str();
}

std::string
slurp(std::string const& f, std::size_t max = 6000)
{
  std::ifstream in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  auto s = o.str();
  if (s.size() > max) s.resize(max);
  return s;
}

Record*
map_record(const char* file)
{
  int fd = -1, flags = MAP_SHARED | MAP_ANONYMOUS;
  if (file) {
    fd = open(file, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Record)) != 0) {
      std::perror(file);
      std::exit(2);
    }
    flags = MAP_SHARED;
  }
  void* p = mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, flags, fd, 0);
  if (p == MAP_FAILED) {
    std::perror("mmap");
    std::exit(2);
  }
  return static_cast<Record*>(p);
}

void
put(char* dst, std::size_t cap, std::string const& s)
{
  auto n = std::min(cap - 1, s.size());
  std::memcpy(dst, s.data(), n);
  dst[n] = 0;
}

Record* g_rec = nullptr;
double g_cpu = 10;

void
on_timer(int)
{
  g_rec->state = 2;
  const char m[] = "the case does not terminate within its CPU time limit";
  std::memcpy(g_rec->msg, m, sizeof m);
  _exit(12);
}

void
arm()
{
  itimerval t{};
  t.it_value.tv_sec = static_cast<time_t>(g_cpu);
  setitimer(ITIMER_PROF, &t, nullptr);
}

enum Outcome
{
  pass,
  fail,
  discard
};

Outcome
run_case(Test const& t, Ctx& c, Record* rec)
{
  try {
    t.fn(c);
    return pass;
  } catch (Discard const&) {
    return discard;
  } catch (Failure const& f) {
    put(rec->msg, sizeof rec->msg, f.msg);
  } catch (std::exception const& e) {
    put(rec->msg, sizeof rec->msg, std::string("unexpected exception: ") + e.what());
  } catch (...) {
    put(rec->msg, sizeof rec->msg, "unexpected exception of unknown type");
  }
  rec->state = 1;
  return fail;
}

struct Stats
{
  std::uint64_t cases = 0, nontrivial = 0, discards = 0;
  std::map<std::string, std::uint64_t> classes;
  std::unordered_set<std::uint64_t> distinct;
  bool capped = false;
  std::vector<std::uint64_t> sample_cases;
};

void
write_stats(std::string const& file,
            std::vector<Stats> const& st,
            std::vector<std::pair<std::string, std::string>> const& samples)
{
  std::ofstream o(file + ".json");
  o << "{\"tests\":{";
  for (std::size_t i = 0; i < st.size(); ++i) {
    auto const& s = st[i];
    o << (i ? "," : "") << json(registry()[i].name) << ":{\"cases\":" << s.cases
      << ",\"nontrivial\":" << s.nontrivial << ",\"discards\":" << s.discards
      << ",\"classes\":{";
    bool first = true;
    for (auto const& [k, v] : s.classes) {
      o << (first ? "" : ",") << json(k) << ":" << v;
      first = false;
    }
    o << "}}";
  }
  o << "},\"samples\":[";
  for (std::size_t i = 0; i < samples.size(); ++i) {
    o << (i ? "," : "") << "{\"test\":" << json(samples[i].first)
      << ",\"case\":" << json(samples[i].second) << "}";
  }
  o << "],\"rule\":" << json(rule) << "}\n";
  o.close();
  std::ofstream h(file + ".hash", std::ios::binary);
  for (auto const& s : st) {
    for (auto x : s.distinct) h.write(reinterpret_cast<const char*>(&x), 8);
  }
}

void
account(Stats& st, Test const& t, Ctx& c, Outcome o)
{
  ++st.cases;
  if (o == discard) {
    ++st.discards;
  } else if (c.nontrivial_) {
    ++st.nontrivial;
    if (st.distinct.size() < 400000) {
      st.distinct.insert(mix(c.s.hash() ^ fnv(t.name)));
    }
  }
}

struct Config
{
  std::string variant = "plain", tier = "quick", scratch = "/tmp", only;
  std::uint64_t seed = 1;
  int workers = 4;
  double factor = 1;
};

std::uint64_t
case_seed(Config const& k, Test const& t, int w, std::uint64_t i)
{
  auto s = mix(k.seed * 0x9e3779b97f4a7c15ULL ^ fnv(t.name) ^ mix(fnv(k.variant.c_str())));
  return mix(s ^ mix((static_cast<std::uint64_t>(w) << 48) ^ i));
}

std::uint64_t
case_count(Config const& k, Test const& t)
{
  double n = static_cast<double>(k.tier == "quick" ? t.quick : t.thorough);
  n *= k.factor;
  if (k.variant == "san") n *= t.sanf;
  return std::max<std::uint64_t>(
    1, static_cast<std::uint64_t>(n / k.workers + 0.999));
}

/// Runs the cases of one worker. With upto_test >= 0 the run ends after case
/// upto_case of that test (used to reproduce history-dependent failures).
void
worker(Config const& k, int w, Record* rec, int upto_test, std::uint64_t upto_case)
{
  g_rec = rec;
  std::signal(SIGPROF, on_timer);
  auto const& ts = registry();
  std::vector<Stats> stats(ts.size());
  std::vector<std::pair<std::string, std::string>> samples;
  for (std::size_t ti = 0; ti < ts.size(); ++ti) {
    auto const& t = ts[ti];
    if (!k.only.empty() && k.only != t.name) continue;
    auto n = case_count(k, t);
    for (std::uint64_t i = 0; i < n; ++i) {
      if (upto_test >= 0 && (static_cast<int>(ti) > upto_test ||
                             (static_cast<int>(ti) == upto_test && i > upto_case))) {
        _exit(0);
      }
      rec->n = 0;
      rec->state = 0;
      rec->test = static_cast<int>(ti);
      rec->case_idx = i;
      auto s = Src::random(case_seed(k, t, w, i), rec);
      Ctx c{ s };
      c.classes = &stats[ti].classes;
      arm();
      auto o = run_case(t, c, rec);
      if (o == fail) _exit(10);
      account(stats[ti], t, c, o);
      if (w == 0 && o == pass && c.nontrivial_ && stats[ti].sample_cases.size() < 3 &&
          i >= stats[ti].sample_cases.size() * n / 4) {
        stats[ti].sample_cases.push_back(i);
      }
    }
  }
  for (std::size_t ti = 0; ti < ts.size(); ++ti) {
    for (auto i : stats[ti].sample_cases) {
      rec->n = 0;
      rec->test = static_cast<int>(ti);
      rec->case_idx = i;
      auto s = Src::random(case_seed(k, ts[ti], w, i), rec);
      Ctx c{ s };
      c.describing = true;
      arm();
      if (run_case(ts[ti], c, rec) == fail) _exit(10);
      auto d = c.desc.str();
      if (d.size() > 700) d = d.substr(0, 700) + "...";
      samples.emplace_back(ts[ti].name, d);
    }
  }
  itimerval off{};
  setitimer(ITIMER_PROF, &off, nullptr);
  write_stats(k.scratch + "/" + k.variant + "_" + std::to_string(w), stats, samples);
  rec->state = 3;
  _exit(0);
}

void
child_setup(std::string const& err)
{
  rlimit c{ 0, 0 };
  setrlimit(RLIMIT_CORE, &c);
  int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
#ifndef PBT_SAN
  rlimit a{ 6ULL << 30, 6ULL << 30 };
  setrlimit(RLIMIT_AS, &a);
#endif
}

struct Attempt
{
  bool failed = false, timeout = false;
  std::string msg, desc;
};

Attempt
attempt(Test const& t, std::vector<std::uint64_t> const& v, Record* rec, bool describe)
{
  auto err = scratch() + "/attempt.err";
  rec->n = 0;
  rec->state = 0;
  rec->msg[0] = rec->desc[0] = 0;
  auto pid = fork();
  if (pid == 0) {
    child_setup(err);
    g_rec = rec;
    std::signal(SIGPROF, on_timer);
    arm();
    auto s = Src::replay(&v, rec);
    Ctx c{ s };
    c.describing = describe;
    c.rec = rec;
    auto o = run_case(t, c, rec);
    c.sync();
    _exit(o == fail ? 10 : 0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Attempt a;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return a;
  a.failed = true;
  a.timeout = WIFEXITED(st) && WEXITSTATUS(st) == 12;
  a.desc = rec->desc;
  if (rec->state == 0) {
    a.msg = "the case crashed";
    if (WIFSIGNALED(st)) a.msg += " with signal " + std::to_string(WTERMSIG(st));
    a.msg += "\n" + slurp(err, 3000);
  } else {
    a.msg = rec->msg;
  }
  return a;
}

std::vector<std::uint64_t>
shrink(Test const& t, std::vector<std::uint64_t> best, Record* rec)
{
  auto start = time(nullptr);
  int budget = 3000;
  auto fails = [&](std::vector<std::uint64_t> const& v) {
    if (--budget < 0 || time(nullptr) - start > 60) return false;
    auto a = attempt(t, v, rec, false);
    if (!a.failed || a.timeout) return false;
    return true;
  };
  // drop unread tail
  bool improved = true;
  while (improved && budget > 0) {
    improved = false;
    for (std::size_t chunk = std::max<std::size_t>(best.size() / 2, 1); chunk >= 1; chunk /= 2) {
      for (std::size_t i = best.size(); i >= chunk && i > 0;) {
        auto v = best;
        v.erase(v.begin() + static_cast<long>(i - chunk), v.begin() + static_cast<long>(i));
        if (fails(v)) {
          best = v;
          improved = true;
          i = std::min(i, best.size());
        } else if (budget < 0) {
          break;
        } else {
          // also try with an earlier count lowered by one
          i -= std::min(i, chunk);
        }
        if (i < chunk) break;
      }
      if (chunk == 1) break;
    }
    for (std::size_t i = 0; i < best.size() && budget > 0; ++i) {
      if (best[i] == 0) continue;
      auto v = best;
      v[i] = 0;
      if (fails(v)) {
        best = v;
        improved = true;
        continue;
      }
      std::uint64_t lo = 0, hi = best[i]; // hi fails, lo passes
      while (hi - lo > 1 && budget > 0) {
        v[i] = lo + (hi - lo) / 2;
        if (fails(v)) {
          hi = v[i];
        } else {
          lo = v[i];
        }
      }
      if (hi < best[i]) {
        best[i] = hi;
        improved = true;
      }
    }
    // lower a length-like choice together with removing one later choice
    for (std::size_t i = 0; i + 1 < best.size() && i < 40 && budget > 0; ++i) {
      if (best[i] == 0) continue;
      for (std::size_t j = i + 1; j < best.size() && j < i + 40; ++j) {
        auto v = best;
        --v[i];
        v.erase(v.begin() + static_cast<long>(j));
        if (fails(v)) {
          best = v;
          improved = true;
          break;
        }
      }
    }
  }
  return best;
}

std::size_t
find_test(std::string const& name)
{
  for (std::size_t i = 0; i < registry().size(); ++i) {
    if (name == registry()[i].name) return i;
  }
  std::cerr << "no test " << name << "\n";
  std::exit(2);
}

void
write_replay(std::string const& file,
             std::string const& variant,
             Test const& t,
             std::vector<std::uint64_t> const& v,
             std::string const& msg,
             std::string const& desc)
{
  std::ofstream o(file);
  o << "test " << t.name << "\nvariant " << variant << "\nchoices";
  for (auto x : v) o << " " << x;
  o << "\n\nfailure: " << msg << "\n\ncase:\n" << desc << "\n";
}

/// Confirm, shrink and report. Returns true if the failure is confirmed.
bool
report(Config const& k,
       Test const& t,
       std::vector<std::uint64_t> v,
       Record* rec,
       std::string const& out)
{
  int failures = 0, tries = 0;
  Attempt a;
  while (tries < 12 && failures < 3) {
    ++tries;
    a = attempt(t, v, rec, false);
    failures += a.failed;
    if (tries == 6 && failures == 0) break;
  }
  if (failures < 3) return false;
  if (!a.timeout) v = shrink(t, v, rec);
  a = attempt(t, v, rec, true);
  write_replay(out, k.variant, t, v, a.msg, a.desc);
  return true;
}

int
run(Config const& k)
{
  std::vector<Record*> recs;
  std::vector<pid_t> pids;
  for (int w = 0; w < k.workers; ++w) {
    recs.push_back(map_record(nullptr));
    auto pid = fork();
    if (pid == 0) {
      child_setup(k.scratch + "/" + k.variant + "_" + std::to_string(w) + ".err");
      worker(k, w, recs.back(), -1, 0);
    }
    pids.push_back(pid);
  }
  std::vector<int> bad;
  for (int w = 0; w < k.workers; ++w) {
    int st = 0;
    while (waitpid(pids[w], &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad.push_back(w);
  }
  if (bad.empty()) return 0;
  auto scratch_rec = map_record(nullptr);
  for (int w : bad) {
    auto* r = recs[w];
    auto const& t = registry()[r->test];
    std::vector<std::uint64_t> v(r->choices, r->choices + r->n);
    auto out = k.scratch + "/" + k.variant + ".failure";
    std::cerr << "worker " << w << " failed in " << t.name << " case "
              << r->case_idx << ": " << (r->state ? r->msg : "crash") << "\n";
    if (report(k, t, v, scratch_rec, out)) return 1;
    // not reproducible from its choices alone: does the whole worker
    // reproduce it?
    int again = 0;
    for (int rep = 0; rep < 2; ++rep) {
      scratch_rec->state = 0;
      auto pid = fork();
      if (pid == 0) {
        child_setup(k.scratch + "/again.err");
        worker(k, w, scratch_rec, r->test, r->case_idx);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) &&
          scratch_rec->test == r->test && scratch_rec->case_idx == r->case_idx) {
        ++again;
      }
    }
    if (again == 2) {
      std::ostringstream m;
      m << (r->state ? r->msg : "crash") << "\n(reproduced only by running worker "
        << w << " of seed " << k.seed << " variant " << k.variant << " tier "
        << k.tier << " up to case " << r->case_idx << ")";
      write_replay(out, k.variant, t, v, m.str(), "");
      return 1;
    }
    std::cerr << "not reproducible, ignored\n";
    std::ofstream(k.scratch + "/" + k.variant + ".flaky", std::ios::app)
      << t.name << ": " << r->msg << "\n";
  }
  return 0;
}

int
replay_file(Config const& k, std::string const& file, bool do_shrink, std::string const& out)
{
  std::ifstream in(file);
  std::string word, name, line;
  std::vector<std::uint64_t> v;
  while (std::getline(in, line)) {
    std::istringstream ls(line);
    ls >> word;
    if (word == "test") ls >> name;
    if (word == "choices") {
      std::uint64_t x;
      while (ls >> x) v.push_back(x);
      break;
    }
  }
  auto const& t = registry()[find_test(name)];
  auto* rec = map_record(nullptr);
  if (do_shrink) return report(k, t, v, rec, out) ? 1 : 0;
  auto a = attempt(t, v, rec, true);
  std::cout << "test " << name << "\n" << a.desc << (a.failed ? "FAILED: " : "passed")
            << a.msg << "\n";
  return a.failed ? 1 : 0;
}

} // namespace

#ifdef PBT_FUZZ
namespace {
struct FuzzState
{
  Record* rec = nullptr;
  std::vector<Stats> stats;
  std::string out;
  std::uint64_t execs = 0;
};
FuzzState* fz = nullptr;
void
flush_fuzz()
{
  write_stats(fz->out, fz->stats, {});
}
}
extern "C" int
LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
  if (!fz) {
    fz = new FuzzState;
    auto const* r = std::getenv("PBT_REC");
    auto const* o = std::getenv("PBT_STATS");
    auto const* sc = std::getenv("PBT_SCRATCH");
    if (sc) scratch() = sc;
    fz->rec = map_record(r);
    fz->out = o ? o : "/tmp/fuzzstats";
    fz->stats.resize(registry().size());
    std::atexit(flush_fuzz);
  }
  if (size < 2) return 0;
  // tests of single very large cases (sanf below 0.2) are left to the random search
  static std::vector<std::size_t> light;
  if (light.empty()) {
    for (std::size_t i = 0; i < registry().size(); ++i)
      if (registry()[i].sanf >= 0.2) light.push_back(i);
    if (light.empty())
      for (std::size_t i = 0; i < registry().size(); ++i) light.push_back(i);
  }
  auto ti = light[data[0] % light.size()];
  auto const& t = registry()[ti];
  auto* rec = fz->rec;
  rec->n = 0;
  rec->state = 0;
  rec->test = static_cast<int>(ti);
  auto s = Src::bytes(data + 1, size - 1, rec);
  Ctx c{ s };
  c.classes = nullptr;
  auto o = run_case(t, c, rec);
  if (o == fail) {
    flush_fuzz();
    std::cerr << "PBT failure in " << t.name << ": " << rec->msg << "\n";
    __builtin_trap();
  }
  account(fz->stats[ti], t, c, o);
  rec->state = 3;
  return 0;
}
#else

int
main(int ac, char** av)
{
  Config k;
  std::string mode, file, out, recfile;
  std::vector<std::string> files;
  for (int i = 1; i < ac; ++i) {
    std::string a = av[i];
    auto next = [&]() -> std::string { return i + 1 < ac ? av[++i] : ""; };
    if (a == "--run" || a == "--replay" || a == "--shrink" || a == "--list" ||
        a == "--merge" || a == "--from-record") {
      mode = a;
      if (a == "--replay" || a == "--shrink") file = next();
      if (a == "--from-record") recfile = next();
    } else if (a == "--variant") {
      k.variant = next();
    } else if (a == "--tier") {
      k.tier = next();
    } else if (a == "--seed") {
      k.seed = std::stoull(next());
    } else if (a == "--workers") {
      k.workers = std::stoi(next());
    } else if (a == "--factor") {
      k.factor = std::stod(next());
    } else if (a == "--scratch") {
      k.scratch = next();
    } else if (a == "--only") {
      k.only = next();
    } else if (a == "--cpu") {
      g_cpu = std::stod(next());
    } else if (a == "--out") {
      out = next();
    } else {
      files.push_back(a);
    }
  }
  scratch() = k.scratch;
  if (mode == "--run") return run(k);
  if (mode == "--replay") return replay_file(k, file, false, out);
  if (mode == "--shrink") return replay_file(k, file, true, out);
  if (mode == "--list") {
    for (auto const& t : registry()) std::cout << t.name << "\n";
    return 0;
  }
  if (mode == "--from-record") {
    // turn the record left behind by a fuzzing process into a replay file
    auto* r = map_record(recfile.c_str());
    std::vector<std::uint64_t> v(r->choices, r->choices + r->n);
    write_replay(out, "fuzz", registry()[r->test], v, r->state == 1 ? r->msg : "", "");
    return r->state == 3 ? 3 : 0;
  }
  if (mode == "--merge") {
    std::vector<std::uint64_t> all;
    for (auto const& f : files) {
      std::ifstream in(f, std::ios::binary);
      std::uint64_t x;
      while (in.read(reinterpret_cast<char*>(&x), 8)) all.push_back(x);
    }
    std::sort(all.begin(), all.end());
    std::cout << std::unique(all.begin(), all.end()) - all.begin() << "\n";
    return 0;
  }
  std::cerr << "usage: --run | --replay F | --shrink F --out G\n";
  return 2;
}
#endif
