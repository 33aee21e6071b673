"""C34: random multi-file programs over the library's headers must compile, link and run.

A program is a list of translation units; each includes a random list of headers (any order,
repeats), with standard headers before, between or after, and uses some of what it included at
namespace scope, in functions and in static initialisers. Its value lives in a plain dict, so a
failing program shrinks by dropping units, headers, uses and flags.
"""
import glob
import json
import os
import random
import re
import shutil
from concurrent.futures import ThreadPoolExecutor

import check
from check import Broken, Violation, sh

# Uses of the interface. header -> list of (name, standard headers, file-scope text, expression).
# '@' becomes a name unique to the translation unit.
USES = {
    "MathUtils.hpp": [
        ("sums", "vector", "", "bwsl::accumulate_sum(std::vector<long>{1,2,3}) == 6 && "
         "bwsl::accumulate_product(std::vector<long>{2,3,4}) == 24 && bwsl::max(std::vector<int>{1,5,2}) == 5 && "
         "bwsl::min(std::vector<int>{4,1,2}) == 1 && bwsl::sum_squared<std::vector<long>, long>(std::vector<long>{1,2}) == 5 && "
         "bwsl::l2norm(std::vector<double>{3,4}) == 5.0"),
        ("scalar", "", "", "bwsl::square(3) == 9 && bwsl::cube(2) == 8 && bwsl::sgn(-2.0) == -1 && "
         "bwsl::absdiff(2u, 5u) == 3u && bwsl::signeddiff<unsigned long, long>(2ul, 5ul) == -3 && "
         "bwsl::cbinomial<long>(5, 2) == 10.0 && bwsl::get_gcd(12, 18) == 6"),
        ("theta", "", "", "bwsl::heaviside(1.0) == 1.0 && bwsl::heaviside2(0.0f) == 0.5f && "
         "bwsl::lerp(0.0, 2.0, 0.5) == 1.0 && bwsl::lerpi(1, 2, 0.0, 4.0) == 2.0"),
        ("choose", "vector random", "", "[]{ std::mt19937 g(1); std::vector<double> p{0.0,1.0,0.0}, q{0.0,1.0,1.0}; "
         "return bwsl::choose_between(p, g) == 1 && bwsl::choose_between_psums(q, g) == 1 && "
         "bwsl::choose_with_probability(1.0, g) && !bwsl::choose_with_probability(0.0, g); }()"),
        ("into", "vector", "", "[]{ std::vector<long> a{1,2}, b{3,5}; bwsl::sum_into(a, b); bwsl::subtract_into(b, a); "
         "bwsl::invert(a); return a[1] == -7 && b[0] == -1 && bwsl::get_inverted(a)[0] == 4; }()"),
        ("index", "vector", "", "bwsl::array_to_index(std::vector<long>{1,1}, std::vector<size_t>{2,3}) == "
         "bwsl::array_to_index(bwsl::index_to_array<std::vector<long>>(bwsl::array_to_index(std::vector<long>{1,1}, "
         "std::vector<size_t>{2,3}), std::vector<size_t>{2,3}), std::vector<size_t>{2,3})"),
        ("ubound", "vector deque", "", "[]{ std::vector<double> v; for (int i = 0; i < 20000; ++i) v.push_back(i); "
         "std::deque<long> d{1,2,3}; return bwsl::upper_bound(v.begin(), v.end(), 7000.5) - v.begin() == 7001 && "
         "*bwsl::upper_bound(d.begin(), d.end(), 2L) == 3; }()"),
        ("static", "vector", "static const long @s = bwsl::accumulate_sum(std::vector<long>{4,5});", "@s == 9"),
    ],
    "Pairs.hpp": [
        ("pairs", "utility", "", "bwsl::pairs::GetPairIndex(2, 3, 10) == 32 && bwsl::pairs::GetPairIndex("
         "std::make_pair(size_t(1), size_t(1)), 4) == 5 && bwsl::pairs::GetPair(32, 10).first == 2 && "
         "bwsl::pairs::GetNumPairs(4) == 16"),
    ],
    "Exceptions.hpp": [
        ("throw", "string", "", "[]{ try { throw bwsl::exception::BadParsing(); } catch (std::exception const& e) { "
         "return std::string(e.what()) == \"BadParsing\"; } }()"),
    ],
    "Approx.hpp": [
        ("ops", "", "", "1.0 == bwsl::Approx(1.0) && bwsl::Approx(1.0) == 1.0 && !(1.0 != bwsl::Approx(1.0)) && "
         "bwsl::Approx(1.0) != 2.0 && 1.0 <= bwsl::Approx(1.0) && bwsl::Approx(1.0) <= 2.0 && 3.0 >= bwsl::Approx(1.0) && "
         "bwsl::Approx(1.0) >= 1.0 && 0.0 < bwsl::Approx(1.0) && bwsl::Approx(1.0) < 2.0 && 2.0 > bwsl::Approx(1.0) && "
         "bwsl::Approx(1.0) > 0.0 && bwsl::Approx(1.0).SetAbs(0.5) == 1.4 && bwsl::Approx(1.0).SetRel(0.5) == 1.4"),
        ("static", "", "static const bool @a = bwsl::Approx(2.0).SetAbs(0.25) == 2.25;", "@a"),
    ],
    "FileUtils.hpp": [
        ("compare", "", "", "!bwsl::compare_files(\"/nonexistent/a\", \"/nonexistent/a\")"),
        ("address", "string", "static bool (*@f)(std::string const&, std::string const&) = &bwsl::compare_files;",
         "!@f(\"/nonexistent/a\", \"/nonexistent/b\")"),
    ],
    "EnumString.hpp": [
        ("shared", "", "#include \"shared_enum.hpp\"", "ToString(prog::Green) == \"Green\" && []{ prog::Colour c = prog::Red; "
         "FromString(c, \"Blue\"); return c == prog::Blue; }()"),
        ("own", "", "namespace @n { BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Own, (One)(Two)) }",
         "[]{ @n::Own o = @n::One; try { FromString(o, \"x\"); } catch (@n::EnumStringConversionFailed_Own const& e) { "
         "return o == @n::One && ToString(@n::Two) == \"Two\" && std::string(e.what()).size() > 3; } return false; }()"),
    ],
    "RelationalUtils.hpp": [
        ("shared", "", "#include \"shared_rel.hpp\"", "prog::Rel{1} < prog::Rel{2} && prog::Rel{1} == prog::Rel{1} && "
         "prog::Rel{1} != prog::Rel{2} && prog::Rel{1} <= prog::Rel{1} && prog::Rel{3} > prog::Rel{2} && prog::Rel{3} >= prog::Rel{2} && "
         "prog::TRel<int>{1} == prog::TRel<int>{1} && prog::TRel<long>{3} >= prog::TRel<long>{2} && prog::ERel{2} != prog::ERel{3}"),
    ],
    "RationalNum.hpp": [
        ("arith", "", "", "bwsl::RationalNum<long>(1,2) + bwsl::RationalNum<long>(1,3) == bwsl::RationalNum<long>(5,6) && "
         "bwsl::RationalNum<int>(1,2) - 1 == bwsl::RationalNum<int>(-1,2) && 2 * bwsl::RationalInt(1,2) == bwsl::RationalInt(1,1) && "
         "bwsl::RationalLong(1,2) / bwsl::RationalLong(1,4) == bwsl::RationalLong(2,1)"),
        ("compare", "", "", "bwsl::RationalLong(1,2) < bwsl::RationalLong(2,3) && bwsl::RationalLong(1,2) != bwsl::RationalLong(2,3) && "
         "bwsl::RationalLong(1,2) <= bwsl::RationalLong(2,4) && bwsl::RationalLong(3,2) > bwsl::RationalLong(1,1) && "
         "bwsl::RationalLong(3,2) >= bwsl::RationalLong(1,1) && bwsl::RationalLong(3,2) > 1L && 1L < bwsl::RationalLong(3,2)"),
        ("stream", "sstream", "", "[]{ std::stringstream s; s << bwsl::RationalLong(3,4); bwsl::RationalLong r; s >> r; "
         "return r == bwsl::RationalLong(3,4) && s.str() == \"3//4\"; }()"),
        ("text", "string", "", "std::string(ToString(bwsl::RationalLong(3,4))).size() >= 3"),
        ("static", "", "static const bwsl::RationalLong @r = bwsl::RationalLong(6,-4);", "@r.GetNum() == -3 && @r.GetDen() == 2"),
    ],
    "LinSpace.hpp": [
        ("iterate", "", "", "[]{ bwsl::LinSpace<double> l(0.0, 1.0, 4); double s = 0; for (auto x : l) s += x; auto m = l; ++m; m++; "
         "return s == 1.5 && l.Collect(2)[1] == 0.25 && l != m && l == l.begin() && *m == 0.5 && m() == 0.5; }()"),
        ("float", "", "", "[]{ bwsl::LinSpace<float> l(0.0f, 1.0f, 2); return l.Collect(2).size() == 2 && l.begin() != l.end(); }()"),
    ],
    "LogSpace.hpp": [
        ("iterate", "", "", "[]{ bwsl::LogSpace<double> l(1.0, 16.0, 4); int n = 0; for (auto x : l) n += x >= 1.0; auto m = l; ++m; m++; "
         "return n == 4 && l.Collect(2).size() == 2 && l != m && l == l.begin() && *m > 3.9 && m() < 4.1; }()"),
        ("base", "", "", "[]{ bwsl::LogSpace<float> l(0L, 2L, 2UL, 10.0); return *l.begin() == 1.0f; }()"),
    ],
    "accumulators/AccumulatorsExceptions.hpp": [
        ("throw", "exception string", "", "[]{ try { throw bwsl::exception::AccumulatorOverflow(); } catch (std::exception const& e) { "
         "return std::string(e.what()).size() > 5; } }()"),
    ],
    "accumulators/KahanAccumulator.hpp": [
        ("sum", "", "", "[]{ bwsl::accumulators::KahanAccumulator a; a.Add(1); a.Add(2); bool r = a.Sum() == 3 && a.Mean() == 1.5 && "
         "a.Count() == 2; a.Reset(); return r && a.Sum() == 0; }()"),
        ("static", "", "static auto @k = []{ bwsl::accumulators::KahanAccumulator a; a.Add(2); return a; }();", "@k.Sum() == 2"),
    ],
    "accumulators/NeumaierAccumulator.hpp": [
        ("sum", "", "", "[]{ bwsl::accumulators::NeumaierAccumulator a; a.Add(1); a.Add(2); bool r = a.Sum() == 3 && a.Mean() == 1.5 && "
         "a.Count() == 2; a.Reset(); return r && a.Sum() == 0; }()"),
    ],
    "accumulators/KnuthWelfordAccumulator.hpp": [
        ("var", "", "", "[]{ bwsl::accumulators::KnuthWelfordAccumulator a; a.Add(1); a.Add(3); bool r = a.Sum() == 4 && a.Mean() == 2 && "
         "a.Variance(true) == 2 && a.Variance(false) == 1 && a.ScaledVariance() == 2 && a.StandardDeviation(false) == 1 && a.Count() == 2; "
         "a.Reset(); return r && a.Count() == 0; }()"),
    ],
    "accumulators/WestAccumulator.hpp": [
        ("var", "", "", "[]{ bwsl::accumulators::WestAccumulator a; a.Add(1, 1); a.Add(3, 1); bool r = a.Sum() == 4 && a.Mean() == 2 && "
         "a.PopulationVariance() == 1 && a.SampleFrequencyVariance() == 2 && a.SampleReliabilityVariance() == 2 && a.Count() == 2; "
         "a.Reset(); return r && a.Count() == 0; }()"),
    ],
    "accumulators/NaiveIntegerAccumulator.hpp": [
        ("var", "", "", "[]{ bwsl::NaiveInteger a; a.Add(1); a.Add(3); bool r = a.Sum() == 4 && a.Mean() == 2 && "
         "a.Variance(true) == 2 && a.Variance(false) == 1 && a.ScaledVariance() == 2 && a.StandardDeviation(false) == 1 && a.Count() == 2; "
         "a.Reset(); return r && a.Count() == 0; }()"),
    ],
    "Accumulators.hpp": [
        ("apply", "vector", "", "[]{ std::vector<double> v{1,2,3}; bwsl::accumulators::KahanAccumulator k; "
         "bwsl::accumulators::NeumaierAccumulator n; bwsl::accumulators::KnuthWelfordAccumulator w; "
         "return bwsl::apply_accumulator(v.begin(), v.end(), k).Sum() == 6 && bwsl::apply_accumulator(v.begin(), v.end(), n).Sum() == 6 && "
         "bwsl::apply_accumulator(v.begin(), v.end(), w).Mean() == 2; }()"),
        ("archive", "sstream boost/archive/text_oarchive.hpp boost/archive/text_iarchive.hpp", "",
         "[]{ bwsl::accumulators::KahanAccumulator k, k2; bwsl::accumulators::WestAccumulator w, w2; k.Add(2); w.Add(2, 3); "
         "bwsl::accumulators::NeumaierAccumulator n, n2; bwsl::accumulators::KnuthWelfordAccumulator q, q2; n.Add(4); q.Add(5); "
         "std::stringstream s; { boost::archive::text_oarchive o(s); auto const &ck = k; auto const &cw = w; auto const &cn = n; auto const &cq = q; o << ck << cw << cn << cq; } "
         "{ boost::archive::text_iarchive i(s); i >> k2 >> w2 >> n2 >> q2; } return k2.Sum() == 2 && w2.Mean() == 2 && n2.Sum() == 4 && q2.Mean() == 5; }()"),
    ],
    "HistAccumulator.hpp": [
        ("hist", "", "", "[]{ bwsl::HistAccumulator h(2); h.Add(0); h.Add(1, 3.0); h.ForceAdd(3); h.ForceAdd(2, 2.0f); bool r = h.GetResult(1) == 0.75 && "
         "h.GetResults().size() == 4 && h.GetResults(0)[1] == 3.0 && h.GetCount() == 4 && h.GetCount(1) == 1 && h.GetNbins() == 4; "
         "h.Resize(2); h.Reset(); return r && h.GetNbins() == 2 && h.GetCount() == 0; }()"),
        ("archive", "sstream", "", "[]{ bwsl::HistAccumulator h(2), g; h.Add(1); std::stringstream s; "
         "{ boost::archive::text_oarchive o(s); auto const& c = h; o << c; } { boost::archive::text_iarchive i(s); i >> g; } "
         "return g.GetResult(1) == 1.0; }()"),
    ],
    "ObservableGroup.hpp": [
        ("int", "", "", "[]{ bwsl::ObservableGroup<int> g(\"@int.csv\", {1, 2}); g.AddObservable(3); g.Measure(1, 2.0); "
         "g.PrintHeaders(); g.PrintAndReset(); std::ifstream f(\"@int.csv\"); std::string l; std::getline(f, l); return l == \"1,2,3,Count\"; }()"),
        ("string", "", "", "[]{ bwsl::ObservableGroup<std::string> g(\"@str.csv\"); g.AddObservable(\"a\").AddObservable(\"b\"); "
         "g.PrintHeaders(); g.PrintAndReset(3); std::ifstream f(\"@str.csv\"); std::string l; std::getline(f, l); return l == \"a,b,Count\"; }()"),
        ("archive", "sstream boost/archive/text_oarchive.hpp boost/archive/text_iarchive.hpp", "",
         "[]{ bwsl::ObservableGroup<int> g(\"@x.csv\", {1, 2}), h; std::stringstream s; { boost::archive::text_oarchive o(s); "
         "auto const& c = g; o << c; } { boost::archive::text_iarchive i(s); i >> h; } h.Measure(2, 1.0); return true; }()"),
    ],
    "HyperCubicGrid.hpp": [
        ("grid", "", "", "[]{ using G = bwsl::HyperCubicGrid; G g({3, 4}, G::boundaries_t::Closed); G::coords_t c{4, -1}; g.EnforceBoundaries(c); "
         "auto d = g.GetGrid(); return g.GetDim() == 2 && g.GetNumSites() == 12 && g.IsOnGrid(c) && c[0] == 1 && c[1] == 3 && "
         "g.GetCoordinates(g.GetIndex(c)) == c && g.GetUnMappedSite(g.GetMappedSite(2, 7), 2) == 7 && g.GetJump(1, 1)[0] == 0 && "
         "g.GetIndividualIndices(g.GetPairIndex(2, 3)).second == 3 && d.IndexIsValid(11) && !g.HasOpenBoundaries() && "
         "g.HasClosedBoundaries() && g.GetBoundaries() == G::boundaries_t::Closed && g.GetSize()[1] == 4; }()"),
        ("static", "", "static const bwsl::HyperCubicGrid @g({2, 2}, bwsl::HyperCubicGrid::boundaries_t::Open);", "@g.GetNumSites() == 4"),
    ],
    "Bravais.hpp": [
        ("predefined", "", "", "bwsl::ChainLattice.GetGamma() == 2 && bwsl::SquareLattice.GetGamma() == 4 && "
         "bwsl::CubicLattice.GetDim() == 3 && bwsl::TriangularLattice.GetGamma() == 6"),
        ("all", "", "", "[]{ auto b = bwsl::SquareLattice; return b.GetRealSpace({1, 2})[1] == 2.0 && b.GetInverseVector({1.0, 2.0})[0] == 1.0 && "
         "b.GetReciprocalSpace({1, 0})[0] > 6.28 && b.GetVector({0, 0}, {1, 0})[0] == 1.0 && b.GetDistance({0, 0}, {3, 4}) == 5.0 && "
         "b.GetDistanceVector({0, 0}, {3, 4}).first == 5.0 && b.GetNeighbor({0, 0}, 0)[0] == 1; }()"),
        ("static", "", "static const bwsl::Bravais @b = bwsl::TriangularLattice; static const double @d = bwsl::ChainLattice.GetDistance({0}, {2});",
         "@b.GetGamma() == 6 && @d == 2.0"),
    ],
    "Lattice.hpp": [
        ("lattice", "", "", "[]{ bwsl::Lattice l(bwsl::SquareLattice, {3, 3}); std::vector<double> o(9, 1.0), s(9, 0.0); l.AccumulateSk(o, s); "
         "return l.GetNeighbors(0).size() == 4 && l.GetDistance(0, 1) == 1.0 && l.GetVector(0, 0)[0] == 0.0 && l.GetWinding({3, 6})[1] == 2 && "
         "l.GetPosition(0)[0] == 0.0 && l.AreNeighbors(0, 1) && l.GetCoordination(0) == 4 && l.GetCoordination() == 4 && "
         "l.GetMomentum(0).size() == 2 && l.ComputeSk(o).size() == 9; }()"),
        ("save", "", "", "[]{ bwsl::Lattice l(bwsl::ChainLattice, {3}, bwsl::Lattice::boundaries_t::Open); l.SaveDistances(\"@d\"); "
         "l.SavePositions(\"@p\"); l.SaveMomenta(\"@m\"); l.SavePairs(\"@q\"); std::ifstream f(\"@q\"); return f.good(); }()"),
        ("static", "", "static const bwsl::Lattice @l(bwsl::TriangularLattice, {3, 3});", "@l.GetCoordination() == 6"),
    ],
    "mcutils/MoveStatus.hpp": [("status", "", "", "bwsl::montecarlo::MoveStatus::Accepted != bwsl::montecarlo::MoveStatus::Rejected")],
    "mcutils/MoveResult.hpp": [
        ("result", "", "", "[]{ using R = bwsl::montecarlo::MoveResult; return R::Accept(0.5).IsAccepted() && R::Reject(0.5).IsRejected() && "
         "R::Impossible().IsImpossible() && R().GetStatus() == bwsl::montecarlo::MoveStatus::Impossible && "
         "R(bwsl::montecarlo::MoveStatus::Accepted, 1.0).Probability() == 1.0; }()"),
    ],
    "mcutils/MoveStats.hpp": [
        ("stats", "sstream", "", "[]{ using namespace bwsl::montecarlo; MoveStats s(\"m\"); s.Add(MoveResult::Accept(0.5)); s.Propose(); s.Reject(0.5); s.Propose(); s.Impossible(); "
         "s.Propose(); s.Accept(0.5); std::ostringstream o; o << s; try { s.Accept(1.0); } catch (bwsl::montecarlo::exception::MoveInvalidSequence const&) { "
         "return s.GetName() == \"m\" && s.GetAcceptedRatio() == 0.5 && s.GetRejectedRatio() == 0.25 && s.GetImpossibleRatio() == 0.25 && "
         "s.GetAverageProbability() > 0 && o.str().size() > 5; } return false; }()"),
        ("prob", "string", "", "std::string(bwsl::montecarlo::exception::InvalidProbability(2.0).what()).size() > 3"),
        ("archive", "sstream boost/archive/text_oarchive.hpp boost/archive/text_iarchive.hpp", "",
         "[]{ bwsl::montecarlo::MoveStats g(\"x\"), h; g.Propose(); g.Accept(1); std::stringstream s; { boost::archive::text_oarchive o(s); "
         "auto const& c = g; o << c; } { boost::archive::text_iarchive i(s); i >> h; } return h.GetAcceptedRatio() == 1.0; }()"),
    ],
    "RNGUtils.hpp": [
        ("archive", "random sstream boost/archive/text_oarchive.hpp boost/archive/text_iarchive.hpp", "",
         "[]{ std::mt19937 a(3), b; std::mt19937_64 c(4), d; a(); c(); std::stringstream s; { boost::archive::text_oarchive o(s); "
         "auto const& ca = a; auto const& cc = c; o << ca << cc; } { boost::archive::text_iarchive i(s); i >> b >> d; } return a == b && c == d; }()"),
        ("binary", "random sstream boost/archive/binary_oarchive.hpp boost/archive/binary_iarchive.hpp", "",
         "[]{ std::mt19937 a(3), b; a(); std::stringstream s; { boost::archive::binary_oarchive o(s); "
         "auto const& ca = a; o << ca; } { boost::archive::binary_iarchive i(s); i >> b; } return a == b; }()"),
    ],
}
# headers that only pull others in offer what those offer
USES["MonteCarloUtils.hpp"] = USES["mcutils/MoveResult.hpp"] + USES["mcutils/MoveStats.hpp"]

SHARED = {
    "shared_enum.hpp": "#pragma once\n#include <bwsl/EnumString.hpp>\nnamespace prog {\n"
                       "BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Colour, (Red)(Green)(Blue))\n}\n",
    "shared_rel.hpp": "#pragma once\n#include <bwsl/RelationalUtils.hpp>\nnamespace prog {\n"
                      "struct Rel { int v; };\ninline bool operator<(Rel const& a, Rel const& b) { return a.v < b.v; }\n"
                      "OVERLOADRELATIONAL(Rel, Rel)\n"
                      "struct ERel { int v; FDEFINEOVERLOADRELATIONAL(ERel, ERel) };\n"
                      "inline bool operator<(ERel const& a, ERel const& b) { return a.v < b.v; }\n"
                      "inline bool operator==(ERel const& a, ERel const& b) { return a.v == b.v; }\n"
                      "OVERLOADRELATIONALNOEQ(ERel, ERel)\n"
                      "template<class T> struct TRel { T v; };\n"
                      "template<class T> inline bool operator<(TRel<T> const& a, TRel<T> const& b) { return a.v < b.v; }\n"
                      "TEMPLATEOVERLOADRELATIONAL(TRel<T>, TRel<T>, T)\n}\n",
}
STD = ["vector", "string", "iostream", "cmath", "algorithm", "random", "map", "memory", "cassert", "numeric",
       "fstream", "sstream", "limits", "exception", "utility", "functional"]
CXX = ["g++", "clang++"]
DIALECT = ["c++17", "gnu++17", "c++20", "gnu++20", "c++23"]
OPT = ["-O0", "-O2"]
LIMIT = 240


def headers():
    base = os.path.join(check.REPO, "include", "bwsl")
    found = []
    for root, _, files in os.walk(base):
        for f in files:
            if f.endswith((".hpp", ".h")):
                found.append(os.path.relpath(os.path.join(root, f), base))
    return sorted(found)


def source(prog, k):
    tu = prog["units"][k]
    out = []
    for kind, h in tu["includes"]:
        out.append(f"#include <{'bwsl/' if kind == 'b' else ''}{h}>")
    body, exprs = [], []
    for i, (h, name) in enumerate(tu["uses"]):
        for n, std, scope, expr in USES[h]:
            if n == name:
                uniq = f"u{k}_{i}_"
                out += [f"#include <{s}>" for s in std.split()]
                body.append(scope.replace("@", uniq))
                exprs.append((f"{h} {name}", expr.replace("@", uniq)))
    out.append("extern \"C\" int puts(char const*);")
    out += body
    out.append(f"int unit{k}() {{ int bad = 0;")
    for label, e in exprs:
        out.append(f"  if (!({e})) {{ puts(\"unit {k}: {label} is wrong\"); ++bad; }}")
    out.append("  return bad; }")
    if k == 0:
        n = len(prog["units"])
        out += [f"int unit{j}();" for j in range(1, n)]
        out.append("int main() { int bad = " + " + ".join(f"unit{j}()" for j in range(n)) + ";")
        out.append("  if (!bad) puts(\"program ok\"); return bad ? 1 : 0; }")
    return "\n".join(out) + "\n"


def build_and_run(prog, work, tag):
    """None when the program is valid, else (stage, text); raises Broken on lack of resources."""
    d = os.path.join(work, tag)
    os.makedirs(d, exist_ok=True)
    try:
        for n, t in SHARED.items():
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        base = [prog["cxx"], "-std=" + prog["std"], prog["opt"], "-w", "-I",
                os.path.join(check.REPO, "include"), "-I", d]
        base += ["-DBWSL_ACCUMULATORS_CHECKS"] if prog["checks"] else []
        base += ["-DFMT_HEADER_ONLY"] if prog["fmt"] == "header" else []
        objs = []
        for k in range(len(prog["units"])):
            src = os.path.join(d, f"unit{k}.cpp")
            with open(src, "w") as f:
                f.write(source(prog, k))
            obj = src[:-4] + ".o"
            rc, out = sh(base + ["-c", src, "-o", obj], LIMIT, cwd=d)
            if rc == 124 or "Killed" in out or "virtual memory exhausted" in out:
                raise Broken("a compiler ran out of time or memory")
            if rc != 0:
                return "compile", out
            objs.append(obj)
        exe = os.path.join(d, "prog")
        libs = (["-lfmt"] if prog["fmt"] == "lib" else []) + ["-lboost_serialization"]
        rc, out = sh([prog["cxx"], *objs, "-o", exe, *libs], LIMIT, cwd=d)
        if rc == 124 or "Killed" in out:
            raise Broken("the linker ran out of time or memory")
        if rc != 0:
            return "link", out
        rc, out = sh([exe], 60, cwd=d)
        if rc == 124:
            raise Broken("a generated program did not finish")
        if rc != 0 or "program ok" not in out:
            return "run", f"exit status {rc}\n{out}"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def unit(includes, uses):
    return {"includes": includes, "uses": uses}


def config(r):
    return {"cxx": r.choice(CXX), "std": r.choice(DIALECT), "opt": r.choice(OPT),
            "checks": r.random() < 0.5, "fmt": r.choice(["header", "header", "lib"])}


def random_program(r, hs):
    prog = config(r)
    n = r.choice([1, 2, 2, 2, 3, 3, 4])
    prog["units"] = []
    common = r.sample(hs, r.randint(1, len(hs)))
    for _ in range(n):
        mine = list(common) if r.random() < 0.5 else r.sample(hs, r.randint(1, len(hs)))
        r.shuffle(mine)
        mine = mine[:r.choice([1, 2, 3, 5, 8, len(mine)])]
        inc = [["b", h] for h in mine]
        for _ in range(r.choice([0, 0, 1, 3])):
            inc.insert(r.randint(0, len(inc)), list(r.choice(inc)))
        for _ in range(r.choice([0, 0, 2, 5])):
            inc.insert(r.randint(0, len(inc)), ["s", r.choice(STD)])
        pool = [[h, u[0]] for h in mine for u in USES.get(h, [])]
        r.shuffle(pool)
        prog["units"].append(unit(inc, pool[:r.choice([0, 1, 3, 6, 12])]))
    return prog


def core_programs(hs):
    """Every header alone with all its uses in each compiler; everything twice per configuration."""
    out = []
    i = 0
    for j, h in enumerate(hs):
        for c, cxx in enumerate(CXX):
            for checks in ((j + c) % 2 == 0,):
                inc = [["b", h]]
                uses = [[h, u[0]] for u in USES.get(h, [])]
                out.append({"cxx": cxx, "std": DIALECT[i % 5], "opt": "-O0", "checks": checks,
                            "fmt": "header",
                            "units": [unit(inc, uses if checks else []), unit(inc + inc, uses)]})
                i += 1
    for cxx in CXX:
        for std in DIALECT:
            for checks in (False, True):
                alluses = [[h, u[0]] for h in hs for u in USES.get(h, [])]
                out.append({"cxx": cxx, "std": std, "opt": OPT[i % 2], "checks": checks,
                            "fmt": ["header", "lib"][i // 2 % 2],
                            "units": [unit([["b", h] for h in hs], alluses),
                                      unit([["b", h] for h in reversed(hs)], alluses[::-1])]})
                i += 1
    return out


def size(p):
    return sum(1 + len(u["includes"]) + len(u["uses"]) for u in p["units"])


def smaller(p):
    """Candidates a step simpler than p, the boldest first."""
    def copy():
        return json.loads(json.dumps(p))
    for k in range(len(p["units"])):
        if len(p["units"]) > 1:
            q = copy()
            del q["units"][k]
            yield q
    for k in range(len(p["units"])):
        for field in ("uses", "includes"):
            items = p["units"][k][field]
            step = len(items)
            while step >= 1:
                for s in range(0, len(items), step):
                    q = copy()
                    keep = items[:s] + items[s + step:]
                    q["units"][k][field] = keep
                    have = {h for kind, h in q["units"][k]["includes"] if kind == "b"}
                    q["units"][k]["uses"] = [u for u in q["units"][k]["uses"] if u[0] in have]
                    if size(q) < size(p):
                        yield q
                step //= 2
    for key, simple in (("checks", False), ("opt", "-O0"), ("fmt", "header"), ("std", "c++17"),
                        ("cxx", "g++")):
        if p[key] != simple:
            q = copy()
            q[key] = simple
            yield q


class Check:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.notes, self.stats, self.samples = [], {}, []
        self.cases = 0
        self.seen = set()

    def probe(self):
        """Do the compilers, fmt and boost work without the library?"""
        src = os.path.join(self.work, "probe.cpp")
        with open(src, "w") as f:
            f.write("#include <fmt/format.h>\n#include <boost/archive/text_oarchive.hpp>\n#include <sstream>\n"
                    "int main() { std::ostringstream s; boost::archive::text_oarchive o(s); int const x = 1; o << x; "
                    "return fmt::format(\"{}\", 1).size() != 1; }\n")
        for cxx in CXX:
            for std in DIALECT:
                for flags, libs in ((["-DFMT_HEADER_ONLY"], []), ([], ["-lfmt"])):
                    rc, out = sh([cxx, "-std=" + std, *flags, src, "-o", src + ".x", *libs,
                                  "-lboost_serialization"], LIMIT)
                    if rc == 0:
                        rc, out = sh([src + ".x"], 30)
                    if rc != 0:
                        raise Broken(f"{cxx} -std={std} does not work: {out[-1500:]}")

    def note(self, p):
        self.cases += 1
        self.seen.add(json.dumps(p, sort_keys=True)) if self.nontrivial(p) else None
        for c in (p["cxx"], p["std"], p["opt"], "checks" if p["checks"] else "no checks",
                  "fmt " + p["fmt"], f"{len(p['units'])} units"):
            self.stats[c] = self.stats.get(c, 0) + 1

    @staticmethod
    def nontrivial(p):
        units = [{h for kind, h in u["includes"] if kind == "b"} for u in p["units"]]
        shared = any(units[i] & units[j] for i in range(len(units)) for j in range(i))
        return shared and any(u["uses"] for u in p["units"])

    def shrink(self, p, stage, text, budget=120):
        best, msg = p, text
        again = True
        while again and budget > 0:
            again = False
            cands = list(smaller(best))
            for s in range(0, len(cands), 8):
                batch = cands[s:s + 8]
                budget -= 1
                with ThreadPoolExecutor(8) as ex:
                    res = list(ex.map(lambda iq: self.attempt(iq[1], f"shrink{iq[0]}"), enumerate(batch)))
                hit = [(q, r) for q, r in zip(batch, res) if r and r[0] == stage]
                if hit:
                    best, msg = hit[0][0], hit[0][1][1]
                    again = True
                    break
                if budget <= 0:
                    break
        return best, msg

    def attempt(self, p, tag):
        try:
            return build_and_run(p, self.work, tag)
        except Broken:
            return None

    def search(self):
        hs = headers()
        missing = [h for h in USES if h not in hs]
        if missing:
            raise Violation(json.dumps({"missing": missing}),
                            "documented headers are gone: " + " ".join(missing))
        r = random.Random(f"C34/{self.seed}")
        n = 50 if self.tier == "quick" else 3000
        progs = core_programs(hs) + [random_program(r, hs) for _ in range(n)]
        bad = []

        def one(ip):
            if bad:
                return
            res = build_and_run(ip[1], self.work, f"p{ip[0]}")
            self.note(ip[1])
            if res:
                bad.append((ip[1], res))
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, enumerate(progs)))
        for p in progs[-3:] + progs[:1]:
            self.samples.append({"config": {k: p[k] for k in p if k != "units"},
                                 "units": [{"includes": [h for _, h in u["includes"]],
                                            "uses": [" ".join(x) for x in u["uses"]]} for u in p["units"]]})
        if bad:
            self.probe()
            p, (stage, text) = min(bad, key=lambda b: size(b[0]))
            if not build_and_run(p, self.work, "again"):
                raise Broken("a failing program builds and runs when tried again")
            p, text = self.shrink(p, stage, text)
            lines = [json.dumps(p), "", f"fails to {stage}:", text[-5000:], ""]
            for k in range(len(p["units"])):
                lines += [f"--- unit{k}.cpp", source(p, k)]
            raise Violation("\n".join(lines), f"found by random program generation ({stage})")

    def coverage(self):
        return {"evaluations": self.cases, "distinct_nontrivial": len(self.seen),
                "rule": "A case is a program of 1 to 4 translation units over random subsets, orders and repetitions of "
                        "every header under include/bwsl, with uses of their interfaces, under a random compiler, dialect, "
                        "optimisation, checks macro and fmt linkage; it must compile, link, run and print the values "
                        "expected. Non-trivial: two units share a header and something is used.",
                "samples": self.samples or ["no case was run"], "classes": self.stats}

    def replay(self, file):
        first = check.read(file).splitlines()[0]
        p = json.loads(first)
        if "missing" in p:
            gone = [h for h in p["missing"] if h not in headers()]
            print("missing:", gone)
            return 1 if gone else 0
        res = build_and_run(p, self.work, "replay")
        print("holds" if res is None else f"fails to {res[0]}:\n{res[1][-5000:]}")
        return 1 if res else 0
