// Helpers to judge numbers printed in scientific notation.
#pragma once
#include "pbt.hpp"
#include <fstream>

namespace txt {

inline std::string
slurp(std::string const& file)
{
  std::ifstream in(file, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}

inline std::vector<std::string>
lines(std::string const& text)
{
  std::vector<std::string> v;
  std::string cur;
  for (char ch : text) {
    if (ch == '\n') {
      v.push_back(cur);
      cur.clear();
    } else {
      cur += ch;
    }
  }
  if (!cur.empty()) v.push_back(cur + "<no newline>");
  return v;
}

/// Is `s` the number `x` (known to a relative error `rel`) written as
/// [-]d.ddd..e[+-]dd with `prec` decimals, correctly rounded?
inline bool
scientific(std::string const& s, long double x, std::size_t prec, long double rel = 5e-16L)
{
  if (std::isnan(x)) return s == "nan" || s == "-nan";
  std::size_t i = 0;
  if (i < s.size() && s[i] == '-') ++i;
  if (i >= s.size() || !std::isdigit(static_cast<unsigned char>(s[i]))) return false;
  ++i;
  std::size_t dec = 0;
  if (prec > 0) {
    if (i >= s.size() || s[i] != '.') return false;
    ++i;
    while (i < s.size() && std::isdigit(static_cast<unsigned char>(s[i]))) {
      ++i;
      ++dec;
    }
  }
  if (dec != prec) return false;
  if (i + 3 >= s.size() || s[i] != 'e' || (s[i + 1] != '+' && s[i + 1] != '-')) return false;
  for (auto k = i + 2; k < s.size(); ++k)
    if (!std::isdigit(static_cast<unsigned char>(s[k]))) return false;
  auto e = std::atoi(s.c_str() + i + 1);
  auto v = std::strtold(s.c_str(), nullptr);
  if (x == 0) return v == 0;
  if (s[s[0] == '-'] == '0') return false; // one digit other than 0 before the point
  auto half = 0.5L * std::pow(10.0L, static_cast<long double>(e) - static_cast<long double>(prec));
  return std::fabs(v - x) <= half * (1 + 1e-9L) + std::fabs(x) * (rel + 1e-18L);
}

} // namespace txt
