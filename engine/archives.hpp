// Objects whose counts no run could reach by itself: save, replace the count
// in the text, restore.  Needs -lboost_serialization.
#pragma once
#include "pbt.hpp"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <map>

namespace arc {

template<class A>
std::string
saved(A const& a)
{
  std::ostringstream o;
  {
    boost::archive::text_oarchive ar(o, boost::archive::no_header);
    ar << a;
  }
  return o.str();
}

template<class A>
void
restore(A& a, std::string const& text)
{
  std::istringstream in(text);
  boost::archive::text_iarchive ar(in, boost::archive::no_header);
  ar >> a;
}

/// Replaces whole tokens; every key has to occur exactly `hits` times
inline bool
replace(std::string& text, std::map<std::string, std::string> const& with, std::size_t hits = 1)
{
  std::istringstream in(text);
  std::map<std::string, std::size_t> found;
  std::string t, out;
  while (in >> t) {
    auto it = with.find(t);
    if (it != with.end()) {
      ++found[t];
      t = it->second;
    }
    out += t + " ";
  }
  for (auto const& w : with)
    if (found[w.first] != hits) return false;
  text = out;
  return true;
}

/// Counts of all magnitudes, in particular around 2^24, 2^31, 2^32 and 2^53
inline unsigned long
count(pbt::Src& s, unsigned long lo, unsigned long hi)
{
  auto e = s.urange(11, 63);
  if (s.coin()) e = s.oneof<std::uint64_t>({ 16, 24, 31, 32, 33, 53 });
  auto v = (1UL << e) + static_cast<unsigned long>(s.range(-3, 3));
  if (s.coin()) v += s.urange(0, (1UL << e) - 8);
  return std::min(std::max(v, lo), hi);
}

} // namespace arc
