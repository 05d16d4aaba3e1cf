#include "rt/cc/c02.hpp"
#include "rt/src/c02.rs.h"
#include <cstring>
#include <memory>
#include <sstream>
#include <string_view>
namespace c02 {
namespace {
bool same(const char *p, std::size_t n, const char *q, std::size_t m) {
  return n == m && (n == 0 || std::memcmp(p, q, n) == 0);
}
// 0: as expected.
template <typename F>
bool wrong(F mk, bool valid, const char *p, std::size_t n) {
  bool threw = false, ok = false;
  try {
    auto t = mk();
    ok = same(t.data(), t.size(), p, n) && t.length() == n &&
         t.empty() == (n == 0);
    std::ostringstream os;
    os << t;
    std::string c(t);
    ok = ok && same(os.str().data(), os.str().size(), p, n) &&
         same(c.data(), c.size(), p, n) &&
         std::string(t.begin(), t.end()) == c &&
         std::string(t.cbegin(), t.cend()) == c;
    rust::Str v(t);
    ok = ok && rs_view(v, reinterpret_cast<const std::uint8_t *>(p), n);
  } catch (const std::invalid_argument &) {
    threw = true;
  }
  return valid ? (threw || !ok) : !threw;
}
} // namespace
std::uint32_t check8(rust::Slice<const std::uint8_t> b, bool valid,
                     rust::Str lossy) {
  std::uint32_t m = 0;
  auto n = b.size();
  // exact-size buffer: an over-read is visible to AddressSanitizer
  std::unique_ptr<char[]> buf(new char[n]);
  std::memcpy(buf.get(), b.data(), n);
  const char *p = buf.get();
  std::string str(p, n);
  std::unique_ptr<char[]> z(new char[n + 1]);
  std::memcpy(z.get(), p, n);
  z[n] = 0;
  bool nonul = std::strlen(z.get()) == n;
  m |= wrong([&] { return rust::String(str); }, valid, p, n) << 0;
  m |= wrong([&] { return rust::String(p, n); }, valid, p, n) << 1;
  m |= wrong([&] { return rust::String(reinterpret_cast<const char8_t *>(p), n); },
             valid, p, n) << 2;
  m |= wrong([&] { return rust::Str(str); }, valid, p, n) << 3;
  m |= wrong([&] { return rust::Str(p, n); }, valid, p, n) << 4;
  if (nonul) {
    m |= wrong([&] { return rust::String(z.get()); }, valid, p, n) << 5;
    m |= wrong([&] { return rust::Str(z.get()); }, valid, p, n) << 6;
    m |= wrong([&] { return rust::String(reinterpret_cast<const char8_t *>(z.get())); },
               valid, p, n) << 7;
    m |= wrong([&] { return rust::String::lossy(z.get()); }, true, lossy.data(),
               lossy.size()) << 8;
  }
  m |= wrong([&] { return rust::String::lossy(str); }, true, lossy.data(),
             lossy.size()) << 9;
  m |= wrong([&] { return rust::String::lossy(p, n); }, true, lossy.data(),
             lossy.size()) << 10;
  if (valid && n) {
    rust::Str s(p, n);
    m |= (s.data() != p) << 11; // a Str is a view, not a copy
    m |= (std::string_view(s) != std::string_view(p, n)) << 12;
    rust::String o(s.data(), s.size());
    m |= (rust::Str(o).data() != o.data()) << 13;
  }
  return m;
}
std::uint32_t check16(rust::Slice<const std::uint16_t> b, bool valid,
                      rust::Str exact, rust::Str lossy) {
  std::uint32_t m = 0;
  auto n = b.size();
  std::unique_ptr<char16_t[]> buf(new char16_t[n]);
  for (std::size_t i = 0; i < n; i++)
    buf[i] = b[i];
  std::u16string z(buf.get(), n);
  const char16_t *p = buf.get();
  m |= wrong([&] { return rust::String(p, n); }, valid, exact.data(),
             exact.size()) << 0;
  m |= wrong([&] { return rust::String::lossy(p, n); }, true, lossy.data(),
             lossy.size()) << 1;
  if (z.find(u'\0') == std::u16string::npos) {
    m |= wrong([&] { return rust::String(z.c_str()); }, valid, exact.data(),
               exact.size()) << 2;
    m |= wrong([&] { return rust::String::lossy(z.c_str()); }, true,
               lossy.data(), lossy.size()) << 3;
  }
  return m;
}
template <typename A>
static std::uint32_t ops(const A &a, const A &b, int o) {
  std::uint32_t m = 0;
  m |= ((a == b) != (o == 0)) << 0;
  m |= ((a != b) != (o != 0)) << 1;
  m |= ((a < b) != (o < 0)) << 2;
  m |= ((a <= b) != (o <= 0)) << 3;
  m |= ((a > b) != (o > 0)) << 4;
  m |= ((a >= b) != (o >= 0)) << 5;
  return m;
}
std::uint32_t check_cmp(rust::Str a, rust::Str b, std::int8_t ord) {
  std::uint32_t m = ops(a, b, ord);
  rust::String x(a.data(), a.size()), y(b.data(), b.size());
  m |= ops(x, y, ord) << 6;
  m |= ops(rust::Str(x), b, ord) << 12;
  m |= (rs_cmp(a, b) != ord) << 20;
  return m;
}
bool check_view(const std::string &s, rust::Slice<const std::uint8_t> b) {
  return same(s.data(), s.size(), reinterpret_cast<const char *>(b.data()),
              b.size()) &&
         s.c_str()[s.size()] == 0;
}
std::uint32_t check_misc() {
  rust::Str e;
  if (!e.empty() || e.size() != 0 || e.data() == nullptr)
    return 1;
  if (!rs_view(e, nullptr, 0))
    return 2;
  const char *lit = "h\xC3\xA9";
  rust::Str a(lit);
  rust::Str b = a;
  if (b.data() != lit || b.size() != 3)
    return 3;
  rust::Str c("zz");
  c.swap(b);
  if (b.size() != 2 || c.data() != lit)
    return 4;
  b = c;
  if (b.data() != lit || b.length() != 3)
    return 5;
  if (std::string(b.begin(), b.end()) != lit || b.cend() - b.cbegin() != 3)
    return 6;
  rust::Str n(static_cast<const char *>(nullptr), 0);
  if (!n.empty() || !rs_view(n, nullptr, 0))
    return 7;
  rust::String ns(static_cast<const char *>(nullptr), 0);
  if (!ns.empty() || !rs_string_view(ns, nullptr, 0))
    return 8;
  rust::String n16(static_cast<const char16_t *>(nullptr), 0);
  if (!n16.empty())
    return 9;
  std::string empty;
  if (!rust::Str(empty).empty() || !rust::String(empty).empty())
    return 10;
  if (!rust::String::lossy(static_cast<const char *>(nullptr), 0).empty())
    return 11;
  if (!rust::String::lossy(static_cast<const char16_t *>(nullptr), 0).empty())
    return 12;
  std::ostringstream os;
  os << a << rust::String("|") << c;
  if (os.str() != std::string(lit) + "|" + lit)
    return 13;
  return 0;
}
} // namespace c02
