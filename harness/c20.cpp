// check: cpu=60
// check: libs=-lboost_serialization
#include "archives.hpp"
#include "text.hpp"
#include <bwsl/MonteCarloUtils.hpp>

using namespace bwsl::montecarlo;

const char* const pbt::rule =
  "Histories of propose, accept, reject, impossible, add-result and reset calls in any order, legal "
  "and illegal, with probabilities in [0,1] down to 2^-1010, on named and unnamed statistics, copies included; "
  "compared with a state-machine model after every call. Non-trivial: at least two counted outcomes "
  "of different kinds and one refused call.";

struct Model
{
  bool pending = false;
  unsigned long proposed = 0, accepted = 0, rejected = 0, impossible = 0;
  long double sum = 0;
  unsigned long outcomes() const { return accepted + rejected + impossible; }
};

static void
compare(MoveStats const& s, Model const& m, std::string const& name)
{
  CHECK(s.GetName() == name, "name " << s.GetName() << " expected " << name);
  if (m.proposed == 0) {
    CHECK(s.GetAcceptedRatio() == 0, "accepted ratio " << s.GetAcceptedRatio() << " without proposals");
    return;
  }
  auto ratio = [&](double got, unsigned long k, const char* what) {
    auto want = static_cast<double>(k) / static_cast<double>(m.proposed);
    CHECK(std::fabs(got - want) <= 4e-16 * want, what << " ratio " << got << " expected " << k << "/"
                                                      << m.proposed);
  };
  ratio(s.GetAcceptedRatio(), m.accepted, "accepted");
  ratio(s.GetRejectedRatio(), m.rejected, "rejected");
  ratio(s.GetImpossibleRatio(), m.impossible, "impossible");
  if (m.outcomes() == 0) return;
  auto mean = m.sum / static_cast<long double>(m.outcomes());
  CHECK(std::fabs(s.GetAverageProbability() - mean) <= 1e-14L * mean,
        "average probability " << s.GetAverageProbability() << " expected " << double(mean));
  std::ostringstream o;
  o << s;
  auto text = o.str();
  CHECK(text.compare(0, name.size(), name) == 0, "summary " << text << " does not start with the name");
  text.erase(0, name.size());
  const char* labels[] = { "accepted", "rejected", "impossible", "probability" };
  auto p = static_cast<long double>(m.proposed);
  const long double want[] = { static_cast<long double>(m.accepted) / p,
                               static_cast<long double>(m.rejected) / p,
                               static_cast<long double>(m.impossible) / p, mean };
  for (int i = 0; i < 4; ++i) {
    auto at = text.find(labels[i]);
    CHECK(at != std::string::npos, "summary " << o.str() << " lacks " << labels[i]);
    at = text.find_first_of("0123456789-n", at + std::strlen(labels[i]));
    auto end = text.find_first_of(",) ", at);
    CHECK(at != std::string::npos, "summary " << o.str());
    auto num = text.substr(at, end == std::string::npos ? end : end - at);
    CHECK(txt::scientific(num, want[i], 3, 1e-14L), "summary shows " << labels[i] << " as " << num
                                                                     << " instead of "
                                                                     << double(want[i]));
  }
}

PBT_TEST(move_stats, 20000, 1000000, 0.3)
{
  std::string name = "Unknown";
  MoveStats s;
  if (c.s.coin(2, 3)) {
    name = c.s.oneof<std::string>({ "worm", "a", "", "insert {} move", "{}{}", "{0:d}{", "}", "%d%s", "a long name with spaces", "line\nbreak \xc3\xa9",
                                  std::string(c.s.urange(30, c.s.coin(1, 4) ? 20000 : 400), 'n') + "end" });
    s = MoveStats(name);
  }
  NOTE("statistics named " << pbt::quote(name));
  Model m;
  std::size_t n = 0, refusals = 0;
  bool kinds = false;
  auto prob = [&] {
    if (c.s.coin(1, 8)) return std::ldexp(c.s.real(0.5, 1), -static_cast<int>(c.s.range(0, c.s.coin(1, 3) ? 1010 : 300)));
    return c.s.coin(1, 4) ? static_cast<double>(c.s.urange(0, 1)) : c.s.real(0, 1);
  };
  while (c.s.more(n, 25, 150)) {
    auto k = c.s.index(10);
    auto p = k == 2 || k == 3 || k >= 5 ? prob() : 0.0;
    bool legal = true;
    std::string message;
    MoveResult r;
    static const char* names[] = { "propose", "propose", "accept", "reject", "impossible" };
    if (k >= 5 && k < 8) {
      switch (c.s.index(6)) {
        case 0:
          r = MoveResult::Accept(p);
          break;
        case 1:
          r = MoveResult::Reject(p);
          break;
        case 2:
          r = MoveResult::Impossible();
          p = 0;
          break;
        case 3:
          r = MoveResult(MoveStatus::Accepted, p);
          break;
        case 4:
          r = MoveResult(MoveStatus::Rejected, p);
          break;
        default:
          r = MoveResult();
          p = 0;
      }
      NOTE("add result " << static_cast<char>(r.GetStatus()) << " " << p);
    } else if (k < 5) {
      NOTE(names[k] << " " << p);
    }
    try {
      if (k < 2) {
        legal = !m.pending;
        if (legal) {
          ++m.proposed;
          m.pending = true;
        }
        s.Propose();
      } else if (k < 5) {
        legal = m.pending;
        if (legal) {
          ++(k == 2 ? m.accepted : k == 3 ? m.rejected : m.impossible);
          m.sum += p;
          m.pending = false;
        }
        if (k == 2) s.Accept(p);
        if (k == 3) s.Reject(p);
        if (k == 4) s.Impossible();
      } else if (k < 8) {
        legal = !m.pending;
        if (legal) {
          ++m.proposed;
          ++(r.IsAccepted() ? m.accepted : r.IsRejected() ? m.rejected : m.impossible);
          m.sum += p;
        }
        s.Add(r);
      } else if (k == 8) {
        if (c.s.coin(1, 4)) {
          NOTE("reset");
          s.Reset();
          m = Model();
        }
      } else {
        NOTE("copy");
        MoveStats a(s), b(std::move(a)), d("other");
        d.Propose();
        d = b;
        s = d;
      }
    } catch (bwsl::montecarlo::exception::MoveInvalidSequence const& e) {
      message = e.what();
      CHECK(!legal, "a legal call is refused: " << message);
      CHECK(message.find(name) != std::string::npos, "the error does not name the move: " << message);
      ++refusals;
      compare(s, m, name);
      continue;
    }
    CHECK(legal, "an illegal call is accepted" << (m.pending ? " while a proposal is pending" : ""));
    kinds = kinds || (m.accepted > 0) + (m.rejected > 0) + (m.impossible > 0) > 1;
    compare(s, m, name);
  }
  // whether a proposal is pending is still known at the end
  auto t = s;
  bool pending = false;
  try {
    t.Propose();
  } catch (bwsl::montecarlo::exception::MoveInvalidSequence const&) {
    pending = true;
  }
  CHECK(pending == m.pending, "a proposal is " << (pending ? "" : "not ") << "pending at the end");
  c.nt(kinds && refusals > 0);
  c.cls(refusals > 0, "with refused calls");
}

PBT_TEST(move_result, 20000, 500000, 0.3)
{
  auto p = c.s.coin(1, 4) ? static_cast<double>(c.s.urange(0, 1)) : c.s.real(0, 1);
  auto k = c.s.index(3);
  auto built = c.s.coin();
  auto st = k == 0 ? MoveStatus::Accepted : k == 1 ? MoveStatus::Rejected : MoveStatus::Impossible;
  NOTE("status " << k << " probability " << p << (built ? " by builder" : " by constructor"));
  c.nt(p > 0 && p < 1);
  auto r = !built   ? MoveResult(st, p)
           : k == 0 ? MoveResult::Accept(p)
           : k == 1 ? MoveResult::Reject(p)
                    : MoveResult::Impossible();
  MoveResult copy(r), other;
  other = copy;
  for (auto const& x : { r, copy, other }) {
    CHECK(x.GetStatus() == st && x.IsAccepted() == (k == 0) && x.IsRejected() == (k == 1) &&
            x.IsImpossible() == (k == 2),
          "status queries of a result of kind " << k);
    if (built && k == 2) {
      CHECK(x.Probability() == 0, "impossible result with probability " << x.Probability());
    } else {
      CHECK(x.Probability() == p, "probability " << x.Probability() << " expected " << p);
    }
  }
  // adding it equals proposing and then reporting the outcome
  MoveStats a("m"), b("m");
  a.Add(r);
  b.Propose();
  if (k == 0) b.Accept(r.Probability());
  if (k == 1) b.Reject(r.Probability());
  if (k == 2) b.Impossible();
  CHECK(a.GetAcceptedRatio() == b.GetAcceptedRatio() && a.GetRejectedRatio() == b.GetRejectedRatio() &&
          a.GetImpossibleRatio() == b.GetImpossibleRatio() &&
          a.GetAverageProbability() == b.GetAverageProbability(),
        "adding the result differs from proposing and reporting");
}

PBT_TEST(large_counts, 3000, 150000, 0.3)
{
  MoveStats a("move"), s("move");
  auto p = c.s.dyadic(20, -20, 0), q = c.s.dyadic(20, -20, 0);
  p = std::min(1.0, std::fabs(p));
  q = std::min(1.0, std::fabs(q));
  // 717 accepted, 1931 rejected, 349 impossible
  for (int i = 0; i < 717; ++i) a.Add(MoveResult::Accept(p));
  for (int i = 0; i < 1931; ++i) a.Add(MoveResult::Reject(q));
  for (int i = 0; i < 349; ++i) a.Add(MoveResult::Impossible());
  Model m;
  auto lim = ULONG_MAX / 8;
  m.accepted = arc::count(c.s, 717, lim);
  m.rejected = arc::count(c.s, 1931, lim);
  m.impossible = arc::count(c.s, 349, lim);
  m.proposed = m.accepted + m.rejected + m.impossible;
  m.sum = 717.0L * p + 1931.0L * q;
  auto text = arc::saved(a);
  // proposals and probabilities are counted separately
  auto once = text;
  std::map<std::string, std::string> with{ { "717", std::to_string(m.accepted) },
                                           { "1931", std::to_string(m.rejected) },
                                           { "349", std::to_string(m.impossible) } };
  DISCARD_IF(!arc::replace(text, with));
  std::map<std::string, std::string> all{ { "2997", std::to_string(m.proposed) } };
  DISCARD_IF(!arc::replace(text, all, 2));
  NOTE("accepted " << m.accepted << " rejected " << m.rejected << " impossible " << m.impossible);
  arc::restore(s, text);
  c.nt();
  auto steps = c.s.urange(0, 9);
  for (std::size_t i = 0;; ++i) {
    compare(s, m, "move");
    if (i == steps) break;
    ++m.proposed;
    m.sum += p;
    if (c.s.coin()) {
      ++m.accepted;
      s.Add(MoveResult::Accept(p));
    } else {
      ++m.rejected;
      s.Propose();
      s.Reject(p);
    }
  }
}

PBT_TEST(long_histories, 40, 1500, 0.1)
{
  // ratios and mean after many moves
  MoveStats s("move");
  Model m;
  auto bulk = c.s.bulk();
  auto n = c.s.coin(1, 8) ? c.s.urange(1UL << 24, (1UL << 24) + 3000000) : c.s.urange(100, 200000);
  NOTE(n << " moves");
  c.nt();
  for (std::size_t i = 0; i < n; ++i) {
    auto k = bulk.index(8);
    auto p = static_cast<double>(bulk.index(5)) / 4;
    ++m.proposed;
    if (k & 1) {
      s.Propose();
      if (k < 4) {
        s.Accept(p);
        ++m.accepted;
        m.sum += p;
      } else if (k < 6) {
        s.Reject(p);
        ++m.rejected;
        m.sum += p;
      } else {
        s.Impossible();
        ++m.impossible;
      }
    } else {
      k < 4   ? s.Add(MoveResult::Accept(p))
      : k < 6 ? s.Add(MoveResult::Reject(p))
              : s.Add(MoveResult::Impossible());
      ++(k < 4 ? m.accepted : k < 6 ? m.rejected : m.impossible);
      if (k < 6) m.sum += p;
    }
    if (i < 3 || (i & (i - 1)) == 0) compare(s, m, "move");
  }
  compare(s, m, "move");
}
