// check: factor=30
// check: san_factor=20
// check: fuzz_runs=80000
#include "pbt.hpp"
#include <bwsl/EnumString.hpp>

const char* const pbt::rule =
  "Twelve enumerations (one to forty enumerators, names that are prefixes of each other, differ in case, "
  "resemble the enumeration, at global and namespace scope) exhaustively over their enumerators and over "
  "all values of their range, with texts that are their names, names of other enumerations, names "
  "mutated by one to three edits, long or arbitrary bytes. Non-trivial: a rejected text within two "
  "edits of a name, or a parsed name that is not the first enumerator's.";

BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(OS_type, (Linux)(Apple)(Windows))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Single, (Only))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Prefixes, (A)(AB)(ABC)(ABCD)(B)(BC)(Abc)(a)(ab)(aB))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Cases, (lower)(Lower)(LOWER)(lOWER)(lower_)(_lower)(lower1))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(
  E40,
  (v0)(v1)(v2)(v3)(v4)(v5)(v6)(v7)(v8)(v9)(v10)(v11)(v12)(v13)(v14)(v15)(v16)(v17)(v18)(v19)(v20)(v21)(v22)(
    v23)(v24)(v25)(v26)(v27)(v28)(v29)(v30)(v31)(v32)(v33)(v34)(v35)(v36)(v37)(v38)(v39))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Unknown, (Unknown_)(unknown)(Enum)(enum_))

namespace first {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Status, (Accepted)(Rejected)(Impossible))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(status, (ok)(failed))
}
namespace second {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Status, (Rejected)(Accepted))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(
  an_enumeration_with_a_rather_long_name_that_does_not_fit_a_short_string,
  (an_enumerator_with_a_rather_long_name_that_does_not_fit_a_short_string)(
    an_enumerator_with_a_rather_long_name_that_does_not_fit_a_short_string_))
namespace third {
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(M, (n)(v)(m))
BWSL_DEFINE_ENUM_WITH_STRING_CONVERSIONS(Move, (Open)(Close)(Insert)(Remove)(Advance)(Recede)(Swap)(Wiggle)(Shift))
}
}

namespace {

using Names = std::vector<std::string>;

const std::vector<Names>&
pool()
{
  static const std::vector<Names> p = {
    { "Linux", "Apple", "Windows" },
    { "Only" },
    { "A", "AB", "ABC", "ABCD", "B", "BC", "Abc", "a", "ab", "aB" },
    { "lower", "Lower", "LOWER", "lOWER", "lower_", "_lower", "lower1" },
    [] {
      Names n;
      for (int i = 0; i < 40; ++i) n.push_back("v" + std::to_string(i));
      return n;
    }(),
    { "Unknown_", "unknown", "Enum", "enum_" },
    { "Accepted", "Rejected", "Impossible" },
    { "ok", "failed" },
    { "Rejected", "Accepted" },
    { "an_enumerator_with_a_rather_long_name_that_does_not_fit_a_short_string",
      "an_enumerator_with_a_rather_long_name_that_does_not_fit_a_short_string_" },
    { "n", "v", "m" },
    { "Open", "Close", "Insert", "Remove", "Advance", "Recede", "Swap", "Wiggle", "Shift" },
  };
  return p;
}

template<class E, class Error>
void
enumeration(pbt::Ctx& c, std::string const& name, Names const& names)
{
  NOTE("enumeration " << name);
  for (auto i = 0UL; i < names.size(); ++i) {
    auto e = static_cast<E>(i);
    auto t = ToString(e);
    CHECK(t == names[i], "enumerator " << i << " is converted to " << pbt::quote(t) << " instead of "
                                       << names[i]);
  }
  // values in the range of the enumeration that no enumerator has
  auto range = 1UL;
  while (range < names.size()) range *= 2;
  if (names.size() == 1) range = 2;
  for (auto i = names.size(); i < range; ++i) {
    auto t = ToString(static_cast<E>(i));
    CHECK(t == "[ Unknown " + name + " ]", "value " << i << " is converted to " << pbt::quote(t));
  }
  std::string text;
  int edits = 0;
  switch (c.s.index(6)) {
    case 0:
      text = c.s.pick(names);
      break;
    case 1:
      text = c.s.pick(c.s.pick(pool()));
      edits = 3;
      break;
    case 2:
      text = c.s.text(10, 400, "abcABC_0129 v");
      if (c.s.coin(1, 6)) {
        // far longer than any buffer
        auto const k = c.s.urange(400, 60000);
        while (text.size() < k) text += text + c.s.pick(names);
      }
      edits = 3;
      break;
    default: {
      text = c.s.pick(names);
      auto n = c.s.urange(1, 3);
      for (auto i = 0UL; i < n; ++i) {
        ++edits;
        auto at = c.s.index(text.size() + 1);
        auto ch = c.s.coin(1, 8) ? static_cast<char>(c.s.urange(0, 255)) : " aAbB_019\t"[c.s.index(10)];
        switch (c.s.index(6)) {
          case 0:
            text.insert(at, 1, ch);
            break;
          case 1:
            if (at < text.size()) text.erase(at, 1);
            break;
          case 2:
            if (at < text.size()) text[at] = ch;
            break;
          case 3:
            if (at < text.size()) text[at] = static_cast<char>(text[at] ^ 32);
            break;
          case 4:
            text += c.s.pick(names);
            break;
          default:
            text = c.s.coin() ? text + ch : ch + text;
        }
      }
    }
  }
  for (char ch : text) c.s.fold(static_cast<unsigned char>(ch));
  NOTE("text " << pbt::quote(text));
  auto found = std::find(names.begin(), names.end(), text) - names.begin();
  bool const known = static_cast<std::size_t>(found) < names.size();
  auto was = static_cast<E>(c.s.index(names.size()));
  auto target = was;
  c.nt(known ? found > 0 : edits <= 2);
  c.cls(known, "known name");
  std::string message;
  bool thrown = false;
  try {
    FromString(target, text);
  } catch (Error const& e) {
    thrown = true;
    // the message lives as long as the error
    const char* w = e.what();
    std::string churn(300, 'x');
    for (int i = 0; i < 4; ++i) churn += std::string(40, static_cast<char>('a' + i));
    message = w;
    Error copy(e);
    CHECK(message == copy.what() && message == e.what(), "a copied error has another message");
    std::exception const& base = e;
    CHECK(message == base.what(), "the message depends on the static type of the error");
  }
  if (known) {
    CHECK(!thrown, "the name " << text << " is rejected");
    CHECK(target == static_cast<E>(found), "the name " << text << " gives value " << int(target)
                                                       << " instead of " << found);
    return;
  }
  CHECK(thrown, "the text " << pbt::quote(text) << " is accepted");
  CHECK(target == was, "a rejected text changes the target");
  auto visible = std::string(text.c_str());
  CHECK(message.find(visible) != std::string::npos, "the message " << pbt::quote(message) << " lacks the text");
  if (visible == text) {
    CHECK(message.find(name) != std::string::npos, "the message " << pbt::quote(message)
                                                                  << " lacks the enumeration");
  }
}

} // namespace

PBT_TEST(enumerations, 20000, 1000000, 0.4)
{
  auto& p = pool();
  auto k = c.s.index(p.size());
  switch (k) {
    case 0:
      return enumeration<OS_type, EnumStringConversionFailed_OS_type>(c, "OS_type", p[k]);
    case 1:
      return enumeration<Single, EnumStringConversionFailed_Single>(c, "Single", p[k]);
    case 2:
      return enumeration<Prefixes, EnumStringConversionFailed_Prefixes>(c, "Prefixes", p[k]);
    case 3:
      return enumeration<Cases, EnumStringConversionFailed_Cases>(c, "Cases", p[k]);
    case 4:
      return enumeration<E40, EnumStringConversionFailed_E40>(c, "E40", p[k]);
    case 5:
      return enumeration<Unknown, EnumStringConversionFailed_Unknown>(c, "Unknown", p[k]);
    case 6:
      return enumeration<first::Status, first::EnumStringConversionFailed_Status>(c, "Status", p[k]);
    case 7:
      return enumeration<first::status, first::EnumStringConversionFailed_status>(c, "status", p[k]);
    case 8:
      return enumeration<second::Status, second::EnumStringConversionFailed_Status>(c, "Status", p[k]);
    case 9:
      return enumeration<
        second::an_enumeration_with_a_rather_long_name_that_does_not_fit_a_short_string,
        second::
          EnumStringConversionFailed_an_enumeration_with_a_rather_long_name_that_does_not_fit_a_short_string>(
        c, "an_enumeration_with_a_rather_long_name_that_does_not_fit_a_short_string", p[k]);
    case 10:
      return enumeration<second::third::M, second::third::EnumStringConversionFailed_M>(c, "M", p[k]);
    default:
      return enumeration<second::third::Move, second::third::EnumStringConversionFailed_Move>(c, "Move", p[k]);
  }
}
