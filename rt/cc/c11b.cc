// Generated by gen_c11.py.
#include "rt/src/c11b.rs.h"
#include <stdexcept>
namespace c11b {
std::int32_t ncalls;
std::int32_t calls() { return ncalls; }
static std::string text;
static void go(std::int32_t kind, rust::Slice<const std::uint8_t> msg) {
  text = std::string(reinterpret_cast<const char *>(msg.data()), msg.size());
  switch (kind) {
  case 1: throw std::runtime_error(text);
  case 2: throw text;
  case 3: throw 3;
  case 4: throw text.c_str();
  case 5: throw Own{text};
  case 6: try { throw std::runtime_error("inner"); } catch (const std::exception &) { throw static_cast<const char *>(text.c_str()); }
  }
}
void custom(std::int32_t kind, rust::Slice<const std::uint8_t> msg) { go(kind, msg); }
rust::String custom_value(std::int32_t kind, rust::Slice<const std::uint8_t> msg) { go(kind, msg); return rust::String("value"); }
std::unique_ptr<std::string> custom_ptr(std::int32_t kind, rust::Slice<const std::uint8_t> msg) { auto p = std::make_unique<std::string>(reinterpret_cast<const char *>(msg.data()), msg.size()); go(kind, msg); return p; }
} // namespace c11b
