#pragma once
#include "rust/cxx.h"
#include <string>
namespace c02 {
std::uint32_t check8(rust::Slice<const std::uint8_t> b, bool valid,
                     rust::Str lossy);
std::uint32_t check16(rust::Slice<const std::uint16_t> b, bool valid,
                      rust::Str exact, rust::Str lossy);
std::uint32_t check_cmp(rust::Str a, rust::Str b, std::int8_t ord);
bool check_view(const std::string &s, rust::Slice<const std::uint8_t> b);
std::uint32_t check_misc();
} // namespace c02
