#pragma once
#include "rust/cxx.h"
#include <memory>
#include <string>
namespace c06 {
bool view(const std::string &s, rust::Slice<const std::uint8_t> b) noexcept;
std::size_t cap(const std::string &s) noexcept;
void assign(std::string &s, rust::Slice<const std::uint8_t> b);
void append(std::string &s, rust::Str b);
void resize(std::string &s, std::size_t n, std::uint8_t c);
void swap_strings(std::string &a, std::string &b) noexcept;
void move_assign(std::string &a, std::string &b) noexcept;
void copy_assign(std::string &a, const std::string &b);
void erase_front(std::string &s);
void shrink(std::string &s);
void poison() noexcept;
} // namespace c06
