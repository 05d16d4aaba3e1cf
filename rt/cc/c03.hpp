#pragma once
#include "rust/cxx.h"
#include <cstdint>
#include <type_traits>
extern "C" {
std::uint64_t vk_tracked_new();
void vk_tracked_drop(std::uint64_t);
}
namespace c03 {
struct Boom {};
extern int copies_until_boom; // -1: never
// A C++ type with ledgered identity that Rust may relocate bitwise.
struct Tracked {
  using IsRelocatable = std::true_type;
  std::uint64_t id;
  std::int32_t val;
  std::int32_t pad = 0;
  Tracked() : id(vk_tracked_new()), val(0) {}
  Tracked(int v) : id(vk_tracked_new()), val(v) {}
  Tracked(const Tracked &o) : id(0), val(o.val) {
    tick();
    id = vk_tracked_new();
  }
  Tracked(Tracked &&o) noexcept : id(o.id), val(o.val) {
    o.id = 0;
    o.val = -7;
  }
  Tracked &operator=(const Tracked &o) {
    tick();
    val = o.val;
    return *this;
  }
  Tracked &operator=(Tracked &&o) noexcept {
    std::swap(id, o.id);
    std::swap(val, o.val);
    return *this;
  }
  ~Tracked() {
    vk_tracked_drop(id);
    id = 0xdead0000dead;
  }
  static void tick() {
    if (copies_until_boom > 0 && --copies_until_boom == 0) {
      copies_until_boom = -1;
      throw Boom{};
    }
  }
};
} // namespace c03
