#include "c03t.hpp"
namespace c03 {
PRIM(std::int32_t, i32)
PRIM(std::int64_t, i64)
PRIM(float, f32)
PRIM(double, f64)
template <>
struct Tr<bool> {
  static constexpr bool copy = true, complete = true, thr = false;
  static bool mk(int k) { return k & 1; }
  static int val(const bool &x) { return x; }
  static void set(bool &x, int k) { x = k & 1; }
  RUST_HELPERS(bool, bool)
};
static Reg r1([](Def &d) { build<std::int32_t>(d, "i32"); });
static Reg r2([](Def &d) { build<std::int64_t>(d, "i64"); });
static Reg r3([](Def &d) { build<float>(d, "f32"); });
static Reg r4([](Def &d) { build<double>(d, "f64"); });
} // namespace c03
