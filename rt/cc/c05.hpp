#pragma once
#include "rust/cxx.h"
#include <cstdint>
#include <type_traits>
extern "C" {
std::uint64_t vk5_tracked_new();
void vk5_tracked_drop(std::uint64_t);
}
namespace c05 {
struct Boom {};
extern bool boom; // the next copy or value construction throws
extern std::int64_t tracked_live;
extern bool ledger_bad;
// A C++ type with ledgered identity that Rust may relocate bitwise.
struct Tracked {
  using IsRelocatable = std::true_type;
  std::uint64_t id;
  std::int32_t val;
  std::int32_t pad = 0;
  Tracked(int v) : id(0), val(v) {
    tick();
    id = vk5_tracked_new();
  }
  Tracked(const Tracked &o) : id(0), val(o.val) {
    tick();
    id = vk5_tracked_new();
  }
  Tracked(Tracked &&o) noexcept : id(o.id), val(o.val) {
    o.id = 0;
    o.val = -7;
  }
  Tracked &operator=(const Tracked &o) {
    tick();
    val = o.val;
    return *this;
  }
  Tracked &operator=(Tracked &&o) noexcept {
    std::swap(id, o.id);
    std::swap(val, o.val);
    return *this;
  }
  ~Tracked() {
    vk5_tracked_drop(id);
    id = 0xdead0000dead;
  }
  static void tick() {
    if (boom) {
      boom = false;
      throw Boom{};
    }
  }
};
struct alignas(64) TrackedA {
  using IsRelocatable = std::true_type;
  Tracked t;
  TrackedA(int v) : t(v) { here(); }
  TrackedA(const TrackedA &o) : t(o.t) { here(); }
  TrackedA(TrackedA &&o) noexcept : t(std::move(o.t)) { here(); }
  TrackedA &operator=(const TrackedA &) = default;
  TrackedA &operator=(TrackedA &&) noexcept = default;
  void here() const {
    if (reinterpret_cast<std::uintptr_t>(this) % 64)
      ledger_bad = true;
  }
};
} // namespace c05
