// C03: strings, structs, enums, C++ types with ledger, opaque Rust types.
#include "c03t.hpp"
#include <unordered_set>
namespace c03 {
int copies_until_boom = -1;
bool ledger_bad = false;
std::int64_t tracked_live = 0;
// ids are never reused; a fixed bitmap avoids allocation
static std::uint64_t next_id = 1;
static const std::size_t CAP = 1u << 20;
static std::uint8_t *state() {
  static std::uint8_t *p = static_cast<std::uint8_t *>(std::calloc(CAP, 1));
  return p;
}
template <>
struct Tr<rust::String> {
  using T = rust::String;
  static constexpr bool copy = true, complete = true, thr = false;
  static T mk(int k) { return texts[k]; }
  static int val(const T &x) { return untext(x); }
  static void set(T &x, int k) { x = texts[k]; }
  RUST_HELPERS(T, string)
};
template <>
struct Tr<Sh> {
  using T = Sh;
  static constexpr bool copy = true, complete = true, thr = false;
  static T mk(int k) { return Sh{texts[k], k}; }
  static int val(const T &x) { return untext(x.s) == x.n ? x.n : -2; }
  static void set(T &x, int k) {
    x.s = texts[k];
    x.n = k;
  }
  RUST_HELPERS(T, sh)
};
template <>
struct Tr<Bx> {
  using T = Bx;
  static constexpr bool copy = false, complete = true, thr = false;
  static T mk(int k) { return Bx{box_op(k), k}; }
  static int val(const T &x) { return x.b->val() == x.n ? x.n : -2; }
  static void set(T &x, int k) {
    x.b = box_op(k);
    x.n = k;
  }
  RUST_HELPERS(T, bx)
};
template <>
struct Tr<En> {
  using T = En;
  static constexpr bool copy = true, complete = true, thr = false;
  static T mk(int k) { return static_cast<En>(k); }
  static int val(const T &x) { return static_cast<int>(x); }
  static void set(T &x, int k) { x = static_cast<En>(k); }
  RUST_HELPERS(T, en)
};
template <>
struct Tr<Tracked> {
  using T = Tracked;
  static constexpr bool copy = true, complete = true, thr = true;
  static T mk(int k) { return Tracked(k); }
  static int val(const T &x) { return x.val; }
  static void set(T &x, int k) { x.val = k; }
  RUST_HELPERS(T, tracked)
};
template <>
struct Tr<Op> {
  using T = Op;
  static constexpr bool copy = false, complete = false, thr = false;
  static int val(const T &x) { return x.val(); }
  static void set(T &x, int k) { x.set(k); }
  RUST_HELPERS(T, op)
};
template <>
struct Tr<Big> {
  using T = Big;
  static constexpr bool copy = false, complete = false, thr = false;
  static int val(const T &x) { return x.val(); }
  static void set(T &x, int k) { x.set(k); }
  RUST_HELPERS(T, big)
};
static Reg r1([](Def &d) { build<rust::String>(d, "String"); });
static Reg r3([](Def &d) { build<Sh>(d, "struct"); });
static Reg r4([](Def &d) { build<Bx>(d, "box-struct"); });
static Reg r5([](Def &d) { build<En>(d, "enum"); });
static Reg r6([](Def &d) { build<Tracked>(d, "tracked"); });
static Reg r7([](Def &d) { build<Op>(d, "opaque"); });
static Reg r8([](Def &d) { build<Big>(d, "opaque-big"); });
} // namespace c03
using namespace c03;
extern "C" {
std::uint64_t vk_tracked_new() {
  tracked_live++;
  auto id = next_id++;
  if (next_id >= CAP) { // wrap: every id below is dead between histories
    next_id = 1;
  }
  if (state()[id])
    ledger_bad = true;
  state()[id] = 1;
  return id;
}
void vk_tracked_drop(std::uint64_t id) {
  if (id == 0)
    return; // moved-from
  if (id >= CAP || !state()[id]) {
    ledger_bad = true;
    return;
  }
  state()[id] = 0;
  tracked_live--;
}
}
