// Global locales that group digits or use another decimal point, made of facets
// of our own so that no locale needs to be installed.
#pragma once
#include "pbt.hpp"
#include <locale>

namespace loc {

struct Punct : std::numpunct<char>
{
  Punct(char sep, char point, std::string groups)
    : sep_(sep)
    , point_(point)
    , groups_(std::move(groups))
  {
  }

  auto do_thousands_sep() const -> char override { return sep_; }
  auto do_decimal_point() const -> char override { return point_; }
  auto do_grouping() const -> std::string override { return groups_; }
  auto do_truename() const -> std::string override { return "vrai"; }
  auto do_falsename() const -> std::string override { return "faux"; }

  char sep_, point_;
  std::string groups_;
};

/// The classic locale, or one with other punctuation
inline std::locale
any(pbt::Src& s)
{
  switch (s.index(6)) {
    case 0:
      return std::locale::classic();
    case 1:
      return std::locale(std::locale::classic(), new Punct('.', ',', "\3"));
    case 2:
      return std::locale(std::locale::classic(), new Punct(' ', ',', "\3"));
    case 3:
      return std::locale(std::locale::classic(), new Punct('\'', '.', "\3\2"));
    case 4:
      return std::locale(std::locale::classic(), new Punct('_', '.', "\1"));
    default:
      return std::locale(std::locale::classic(), new Punct(',', '.', "\3"));
  }
}

/// The global locale is another one while this lives
class Global
{
public:
  explicit Global(std::locale const& l)
    : was_(std::locale::global(l))
  {
  }
  ~Global() { std::locale::global(was_); }
  Global(Global const&) = delete;
  Global& operator=(Global const&) = delete;

private:
  std::locale was_;
};

}
