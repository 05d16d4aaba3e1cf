// Generated by gen_c11.py.
#pragma once
#include "rust/cxx.h"
#include <cstdint>
#include <exception>
#include <memory>
#include <string>
namespace c11b {
struct Own { std::string m; };
extern std::int32_t ncalls;
void custom(std::int32_t kind, rust::Slice<const std::uint8_t> msg);
rust::String custom_value(std::int32_t kind, rust::Slice<const std::uint8_t> msg);
std::unique_ptr<std::string> custom_ptr(std::int32_t kind, rust::Slice<const std::uint8_t> msg);
std::int32_t calls();
} // namespace c11b
namespace rust {
namespace behavior {
template <typename Try, typename Fail>
static void trycatch(Try &&func, Fail &&fail) noexcept try {
  ++c11b::ncalls;
  func();
} catch (const std::exception &e) {
  fail(std::string("std:") + e.what());
} catch (const std::string &s) {
  fail(s);
} catch (int) {
  fail("int");
} catch (const char *s) {
  fail(s);
} catch (const c11b::Own &o) {
  fail(o.m);
}
} // namespace behavior
} // namespace rust
