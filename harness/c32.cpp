// check: cpu=120
// check: factor=6
// check: san_factor=2
// check: fuzz_runs=2500
// check: max_len=600
#include "text.hpp"
#include <bwsl/FileUtils.hpp>
#include <sys/stat.h>
#include <unistd.h>

const char* const pbt::rule =
  "Sparse files of up to 4 GB that extend a short one; pairs of sparse files of up to 64 MiB that are "
  "equal or differ in one byte anywhere; pairs of files of 0 to 300000 arbitrary bytes (lengths around buffer sizes included) that are "
  "identical, differ in one byte at the start, the end, a buffer boundary or anywhere, are prefixes of "
  "each other, differ in line ends or are unrelated; through plain, relative, hard-linked and "
  "symbolically linked paths, and missing, dangling, cyclic, overlong, empty, directory and forbidden "
  "ones. Non-trivial: two distinct readable files of equal length, at least two bytes.";

namespace {

std::string
content(pbt::Ctx& c)
{
  static const std::size_t sizes[] = { 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16382, 16383, 16384, 16385,
                                       65535, 65536, 65537, 131072, 300000, 1, 256, 512, 1024, 2048, 32768 };
  std::size_t n = 0;
  auto k = c.s.index(12);
  if (k < 6) {
    n = c.s.urange(0, 40);
  } else if (k < 10) {
    n = c.s.urange(0, 3000);
  } else {
    n = sizes[c.s.index(sizeof sizes / sizeof *sizes)];
  }
  auto style = c.s.index(5);
  auto b = c.s.bulk();
  std::string s(n, '\0');
  for (auto& ch : s) {
    switch (style) {
      case 0:
        ch = static_cast<char>(b.raw(255));
        break;
      case 1:
        ch = "abc \n"[b.raw(4)];
        break;
      case 2:
        ch = "\xff\x00\x1a\n\r"[b.raw(4)];
        break;
      case 3:
        ch = '\xff';
        break;
      default:
        ch = static_cast<char>('a' + b.raw(1));
    }
  }
  NOTE("first file: " << n << " bytes of style " << style
                      << (n <= 60 ? " " + pbt::quote(s) : std::string()));
  return s;
}

std::string
variation(pbt::Ctx& c, std::string const& a)
{
  auto b = a;
  auto k = c.s.index(9);
  switch (k) {
    case 8: {
      // a multiple of a power of two longer
      auto m = (1UL << c.s.urange(2, 18)) * c.s.urange(1, 3);
      b.append(m, c.s.coin() ? 'x' : '\0');
      NOTE("second file: " << m << " bytes longer");
      break;
    }
    case 0:
      NOTE("second file: identical");
      break;
    case 1:
    case 2:
    case 3: {
      if (b.empty()) break;
      static const std::size_t marks[] = { 0, 4095, 4096, 8190, 8191, 8192, 16382, 16384, 65536 };
      auto at = k == 1   ? c.s.index(b.size())
                : k == 2 ? b.size() - 1 - c.s.urange(0, std::min<std::size_t>(1, b.size() - 1))
                         : std::min(b.size() - 1, marks[c.s.index(9)]);
      auto x = c.s.coin() ? 1U << c.s.index(8) : static_cast<unsigned>(c.s.urange(1, 255));
      b[at] = static_cast<char>(static_cast<unsigned char>(b[at]) ^ x);
      NOTE("second file: byte " << at << " changed by " << x);
      break;
    }
    case 4: {
      auto m = std::min<std::size_t>(b.size(), c.s.urange(1, 3));
      b.resize(b.size() - m);
      NOTE("second file: " << m << " bytes shorter");
      break;
    }
    case 5: {
      auto m = c.s.urange(1, 3);
      b.append(m, "\0\n\xff"[c.s.index(3)]);
      NOTE("second file: " << m << " bytes longer");
      break;
    }
    case 6: {
      std::string r;
      for (char ch : b) {
        if (ch == '\n') r += '\r';
        r += ch;
      }
      b = r;
      NOTE("second file: other line ends");
      break;
    }
    default:
      if (b.size() > 1) {
        auto i = c.s.index(b.size()), j = c.s.index(b.size());
        std::swap(b[i], b[j]);
        NOTE("second file: bytes " << i << " and " << j << " exchanged");
      }
  }
  return b;
}

void
write(std::string const& f, std::string const& s)
{
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o.write(s.data(), static_cast<long>(s.size()));
  if (!o.flush()) throw std::runtime_error("harness: cannot write " + f);
}

struct Stamp
{
  struct stat st{};
  bool ok;
  explicit Stamp(std::string const& f)
    : ok(lstat(f.c_str(), &st) == 0)
  {
  }
  bool same(Stamp const& o) const
  {
    return ok == o.ok && (!ok || (st.st_size == o.st.st_size && st.st_mode == o.st.st_mode &&
                                  st.st_ino == o.st.st_ino && st.st_mtim.tv_sec == o.st.st_mtim.tv_sec &&
                                  st.st_mtim.tv_nsec == o.st.st_mtim.tv_nsec));
  }
};

/// The rest of the process keeps its rights
struct Unprivileged
{
  bool on = false;
  explicit Unprivileged(bool want) { on = want && geteuid() == 0 && seteuid(65534) == 0; }
  ~Unprivileged()
  {
    if (on && seteuid(0) != 0) std::abort();
  }
};

bool
compare(std::string const& a, std::string const& b, bool forbidden = false)
{
  try {
    Unprivileged u(forbidden);
    return bwsl::compare_files(a, b);
  } catch (std::exception const& e) {
    throw pbt::Failure{ std::string("comparing files raises ") + e.what() };
  }
}

} // namespace

PBT_TEST(files, 4000, 200000, 0.3)
{
  auto dir = pbt::scratch() + "/files_" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  std::string const f[2] = { dir + "/first file", dir + "/second\xc3\xa9" };
  std::string text[2];
  text[0] = content(c);
  text[1] = variation(c, text[0]);
  write(f[0], text[0]);
  write(f[1], text[1]);
  c.nt(text[0].size() == text[1].size() && text[0].size() > 1);
  c.cls(text[0] == text[1], "identical contents");

  std::string const links[] = { dir + "/hard", dir + "/soft", dir + "/chain", dir + "/dangling", dir + "/loop",
                                dir + "/sub" };
  auto cleanup = [&] {
    for (auto i = 0; i < 5; ++i) unlink(links[i].c_str());
    rmdir(links[5].c_str());
    for (auto& x : f) unlink(x.c_str());
    rmdir(dir.c_str());
  };
  struct Guard
  {
    decltype(cleanup)& f;
    ~Guard() { f(); }
  } guard{ cleanup };

  auto target = c.s.index(2);
  if (link(f[target].c_str(), links[0].c_str()) != 0 || symlink(f[target].c_str(), links[1].c_str()) != 0 ||
      symlink("soft", links[2].c_str()) != 0 || symlink("nowhere", links[3].c_str()) != 0 ||
      symlink("loop", links[4].c_str()) != 0 || mkdir(links[5].c_str(), 0700) != 0) {
    throw std::runtime_error("harness: cannot make links in " + dir);
  }

  // a path and which content it leads to (-1: none)
  struct Path
  {
    std::string name;
    int what;
    const char* kind;
  };
  auto path = [&](std::size_t k) -> Path {
    auto t = static_cast<int>(target);
    switch (k) {
      case 0:
        return { f[0], 0, "the first file" };
      case 1:
        return { f[1], 1, "the second file" };
      case 2:
        return { links[0], t, "a hard link" };
      case 3:
        return { links[1], t, "a symbolic link" };
      case 4:
        return { links[2], t, "a chain of links" };
      case 5:
        return { dir + "/sub/../" + f[0].substr(dir.size() + 1), 0, "a path with dots" };
      case 6:
        return { dir + "/missing", -1, "a missing file" };
      case 7:
        return { links[3], -1, "a dangling link" };
      case 8:
        return { links[4], -1, "a cyclic link" };
      case 9:
        return { "", -1, "an empty path" };
      case 10:
        return { dir + "/" + std::string(300, 'x'), -1, "an overlong path" };
      case 11:
        return { links[5], -1, "a directory" };
      case 12:
        return { dir, -1, "another directory" };
      default:
        return { f[0] + "/x", -1, "a path below a file" };
    }
  };
  auto judge = [&](Path const& p, Path const& q, bool forbidden) {
    bool const want = p.what >= 0 && q.what >= 0 && !forbidden && text[p.what] == text[q.what];
    bool const r = compare(p.name, q.name, forbidden);
    CHECK(r == want, p.kind << " and " << q.kind << (forbidden ? " without permission" : "") << " compare "
                            << (r ? "equal" : "different"));
  };
  Stamp const s0(f[0]), s1(f[1]), s6(dir + "/missing");
  judge(path(0), path(1), false);
  judge(path(1), path(0), false);
  judge(path(0), path(0), false);
  for (int i = 0; i < 3; ++i) {
    auto p = path(c.s.coin() ? c.s.index(6) : c.s.index(14)), q = path(c.s.coin(1, 4) ? c.s.index(6) : c.s.index(14));
    NOTE("compare " << p.kind << " and " << q.kind);
    judge(p, q, false);
    judge(q, p, false);
    judge(p, p, false);
  }
  if (geteuid() == 0 && c.s.coin(1, 4)) {
    // forbidden through the permissions of the directory; the paths lead nowhere
    auto can = [] {
      Unprivileged u(true);
      return u.on;
    }();
    if (can) {
      chmod(dir.c_str(), 0700);
      judge(path(0), path(0), true);
      judge(path(0), path(1), true);
      c.cls("forbidden files");
    }
  }
  CHECK(s0.same(Stamp(f[0])) && s1.same(Stamp(f[1])) && s6.same(Stamp(dir + "/missing")),
        "a file was modified, created or replaced");
  CHECK(txt::slurp(f[0]) == text[0] && txt::slurp(f[1]) == text[1], "the contents of a file were changed");
}

PBT_TEST(huge_files, 12, 200, 0.1)
{
  // sparse files: sizes that differ by powers of two, up to 2^32
  auto dir = pbt::scratch() + "/huge_" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  std::string const f[2] = { dir + "/a", dir + "/b" };
  struct Guard
  {
    std::string const* f;
    std::string dir;
    ~Guard()
    {
      unlink(f[0].c_str());
      unlink(f[1].c_str());
      rmdir(dir.c_str());
    }
  } guard{ f, dir };
  auto n = c.s.urange(0, 5000);
  auto extra = 1UL << c.s.urange(18, 25);
#ifndef PBT_SAN
  if (c.s.coin(1, 6)) extra = 1UL << 32;
#endif
  auto text = std::string(n, c.s.coin() ? 'y' : '\0');
  write(f[0], text);
  write(f[1], text);
  NOTE(n << " bytes and " << extra << " zeros more");
  if (truncate(f[1].c_str(), static_cast<long>(n + extra)) != 0) throw pbt::Discard{};
  c.nt();
  CHECK(!compare(f[0], f[1]), "a file and a longer one compare equal");
  CHECK(!compare(f[1], f[0]), "a file and a shorter one compare equal");
}

PBT_TEST(large_files, 24, 600, 0.1)
{
  // equal sizes, at most one byte differs
  auto dir = pbt::scratch() + "/large_" + std::to_string(getpid());
  mkdir(dir.c_str(), 0700);
  std::string const f[2] = { dir + "/a", dir + "/b" };
  struct Guard
  {
    std::string const* f;
    std::string dir;
    ~Guard()
    {
      unlink(f[0].c_str());
      unlink(f[1].c_str());
      rmdir(dir.c_str());
    }
  } guard{ f, dir };
#ifdef PBT_SAN
  auto top = 22UL;
#else
  auto top = c.s.coin(1, 5) ? 26UL : 24UL;
#endif
  auto n = (1UL << c.s.urange(16, top)) + c.s.urange(0, 5000);
  if (c.s.coin()) n -= c.s.urange(0, n / 3);
  auto text = std::string(c.s.urange(0, 300), 'y');
  for (auto& x : f) {
    write(x, text);
    if (truncate(x.c_str(), static_cast<long>(n)) != 0) throw pbt::Discard{};
  }
  auto differ = c.s.coin(3, 4);
  auto at = c.s.urange(0, n - 1);
  NOTE("two files of " << n << " bytes" << (differ ? " that differ at " : " ") << (differ ? std::to_string(at) : ""));
  if (differ) {
    std::fstream o(f[c.s.index(2)], std::ios::binary | std::ios::in | std::ios::out);
    o.seekp(static_cast<long>(at));
    o.put('x');
    if (!o.flush()) throw pbt::Discard{};
  }
  c.nt();
  CHECK(compare(f[0], f[1]) == !differ, "comparison " << (differ ? "misses the difference" : "finds a difference"));
  CHECK(compare(f[1], f[0]) == !differ, "comparison is not symmetric");
}
