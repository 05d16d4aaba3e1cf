// Generated by gen_c12.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <memory>
#include <string>
namespace c12 {
struct P; struct Sh; struct Small;
struct CObj { int x = 0; };
std::int32_t c_entry(std::size_t e, std::int32_t context);
void c_call_fn(rust::Fn<std::int32_t(std::int32_t)> f);
void c_call_fn2(rust::Fn<rust::String(rust::Box<P>, rust::Vec<std::uint8_t>)> f);
void c_call_fn3(rust::Fn<bool(rust::Str)> f);
void c_call_fn4(rust::Fn<Sh(Small, std::array<std::uint8_t, 3>)> f);
void c_call_fn5(rust::Fn<void()> f);
void c_deep(std::int32_t n);
void c_deep_try(std::int32_t n);
} // namespace c12
