#include "rt/cc/c06.hpp"
#include "rt/src/c06.rs.h"
namespace c06 {
bool view(const std::string &s, rust::Slice<const std::uint8_t> b) noexcept {
  if (s.size() != b.size() || s.data()[s.size()] != '\0' ||
      s.capacity() < s.size())
    return false;
  for (std::size_t i = 0; i < b.size(); i++)
    if (static_cast<std::uint8_t>(s[i]) != b[i])
      return false;
  return true;
}
std::size_t cap(const std::string &s) noexcept { return s.capacity(); }
void assign(std::string &s, rust::Slice<const std::uint8_t> b) {
  s.assign(reinterpret_cast<const char *>(b.data()), b.size());
}
void append(std::string &s, rust::Str b) { s.append(b.data(), b.size()); }
void resize(std::string &s, std::size_t n, std::uint8_t c) {
  s.resize(n, static_cast<char>(c));
}
void swap_strings(std::string &a, std::string &b) noexcept { a.swap(b); }
void move_assign(std::string &a, std::string &b) noexcept {
  a = std::move(b);
  b.clear();
}
void copy_assign(std::string &a, const std::string &b) { a = b; }
void erase_front(std::string &s) {
  if (!s.empty())
    s.erase(0, 1);
}
void shrink(std::string &s) { s.shrink_to_fit(); }
void poison() noexcept {
  volatile char b[2048];
  for (std::size_t i = 0; i < sizeof b; i++)
    b[i] = char(0xA5);
}
} // namespace c06
