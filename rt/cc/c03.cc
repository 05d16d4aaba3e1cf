// C03: rust::Vec of every primitive.
#include "c03t.hpp"
namespace c03 {
PRIM(std::uint8_t, u8)
PRIM(std::uint16_t, u16)
PRIM(std::uint32_t, u32)
PRIM(std::uint64_t, u64)
PRIM(std::int8_t, i8)
PRIM(std::int16_t, i16)
static Reg r1([](Def &d) { build<std::uint8_t>(d, "u8"); });
static Reg r2([](Def &d) { build<std::uint16_t>(d, "u16"); });
static Reg r3([](Def &d) { build<std::uint32_t>(d, "u32"); });
static Reg r4([](Def &d) { build<std::uint64_t>(d, "u64"); });
static Reg r6([](Def &d) { build<std::int8_t>(d, "i8"); });
static Reg r7([](Def &d) { build<std::int16_t>(d, "i16"); });
} // namespace c03
