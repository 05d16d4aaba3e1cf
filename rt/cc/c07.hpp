// Generated by gen_c07.py.
#pragma once
#include "rust/cxx.h"
#include <memory>
#include <string>
#include <vector>
extern "C" {
std::uint64_t vk7_new();
void vk7_drop(std::uint64_t);
}
namespace c07 {
struct Sh;
struct P3;
enum class En : std::int16_t;
struct Look;
struct Base {
  std::uint64_t id;
  std::int32_t val;
  std::int32_t pad = 0;
  Base(int v = 0) : id(vk7_new()), val(v) {}
  Base(const Base &o) : id(vk7_new()), val(o.val) {}
  Base(Base &&o) noexcept : id(o.id), val(o.val) {
    o.id = 0;
    o.val = -7;
  }
  Base &operator=(const Base &o) {
    val = o.val;
    return *this;
  }
  Base &operator=(Base &&o) noexcept {
    std::swap(id, o.id);
    std::swap(val, o.val);
    return *this;
  }
  ~Base() {
    vk7_drop(id);
    id = 0xdead0000dead;
  }
};
struct Tracked : Base {
  using IsRelocatable = std::true_type;
  using Base::Base;
};
struct Obj : Base { // not movable by Rust: knows its own address
  const Obj *self = this;
  using Base::Base;
  Obj() = default;
  Obj(const Obj &o) : Base(o) {}
  Obj(Obj &&o) noexcept : Base(std::move(o)) {}
  Obj &operator=(const Obj &o) {
    Base::operator=(o);
    return *this;
  }
  Obj &operator=(Obj &&o) noexcept {
    Base::operator=(std::move(o));
    return *this;
  }
  std::int32_t oval() const noexcept { return self == this ? val : -2; }
  void oset(std::int32_t k) noexcept { val = k; }
};
std::int64_t live() noexcept;
bool bad() noexcept;
void string_set(std::string &s, std::int32_t k);
Tracked tracked_mk(std::int32_t k);
using V_u8 = std::vector<std::uint8_t>;
void cpush_u8(V_u8 &v, std::int32_t k);
void cresize_u8(V_u8 &v, std::size_t n);
void cerase_u8(V_u8 &v);
void cswap_u8(V_u8 &a, V_u8 &b);
void ccopy_u8(V_u8 &a, const V_u8 &b);
std::unique_ptr<V_u8> cmake_u8(std::size_t n);
Look clook_u8(const V_u8 &v);
std::size_t cat_u8(const V_u8 &v, std::size_t i);
V_u8 &crefl_u8(V_u8 &v);
using V_u16 = std::vector<std::uint16_t>;
void cpush_u16(V_u16 &v, std::int32_t k);
void cresize_u16(V_u16 &v, std::size_t n);
void cerase_u16(V_u16 &v);
void cswap_u16(V_u16 &a, V_u16 &b);
void ccopy_u16(V_u16 &a, const V_u16 &b);
std::unique_ptr<V_u16> cmake_u16(std::size_t n);
Look clook_u16(const V_u16 &v);
std::size_t cat_u16(const V_u16 &v, std::size_t i);
V_u16 &crefl_u16(V_u16 &v);
using V_u32 = std::vector<std::uint32_t>;
void cpush_u32(V_u32 &v, std::int32_t k);
void cresize_u32(V_u32 &v, std::size_t n);
void cerase_u32(V_u32 &v);
void cswap_u32(V_u32 &a, V_u32 &b);
void ccopy_u32(V_u32 &a, const V_u32 &b);
std::unique_ptr<V_u32> cmake_u32(std::size_t n);
Look clook_u32(const V_u32 &v);
std::size_t cat_u32(const V_u32 &v, std::size_t i);
V_u32 &crefl_u32(V_u32 &v);
using V_u64 = std::vector<std::uint64_t>;
void cpush_u64(V_u64 &v, std::int32_t k);
void cresize_u64(V_u64 &v, std::size_t n);
void cerase_u64(V_u64 &v);
void cswap_u64(V_u64 &a, V_u64 &b);
void ccopy_u64(V_u64 &a, const V_u64 &b);
std::unique_ptr<V_u64> cmake_u64(std::size_t n);
Look clook_u64(const V_u64 &v);
std::size_t cat_u64(const V_u64 &v, std::size_t i);
V_u64 &crefl_u64(V_u64 &v);
using V_usize = std::vector<std::size_t>;
void cpush_usize(V_usize &v, std::int32_t k);
void cresize_usize(V_usize &v, std::size_t n);
void cerase_usize(V_usize &v);
void cswap_usize(V_usize &a, V_usize &b);
void ccopy_usize(V_usize &a, const V_usize &b);
std::unique_ptr<V_usize> cmake_usize(std::size_t n);
Look clook_usize(const V_usize &v);
std::size_t cat_usize(const V_usize &v, std::size_t i);
V_usize &crefl_usize(V_usize &v);
using V_i8 = std::vector<std::int8_t>;
void cpush_i8(V_i8 &v, std::int32_t k);
void cresize_i8(V_i8 &v, std::size_t n);
void cerase_i8(V_i8 &v);
void cswap_i8(V_i8 &a, V_i8 &b);
void ccopy_i8(V_i8 &a, const V_i8 &b);
std::unique_ptr<V_i8> cmake_i8(std::size_t n);
Look clook_i8(const V_i8 &v);
std::size_t cat_i8(const V_i8 &v, std::size_t i);
V_i8 &crefl_i8(V_i8 &v);
using V_i16 = std::vector<std::int16_t>;
void cpush_i16(V_i16 &v, std::int32_t k);
void cresize_i16(V_i16 &v, std::size_t n);
void cerase_i16(V_i16 &v);
void cswap_i16(V_i16 &a, V_i16 &b);
void ccopy_i16(V_i16 &a, const V_i16 &b);
std::unique_ptr<V_i16> cmake_i16(std::size_t n);
Look clook_i16(const V_i16 &v);
std::size_t cat_i16(const V_i16 &v, std::size_t i);
V_i16 &crefl_i16(V_i16 &v);
using V_i32 = std::vector<std::int32_t>;
void cpush_i32(V_i32 &v, std::int32_t k);
void cresize_i32(V_i32 &v, std::size_t n);
void cerase_i32(V_i32 &v);
void cswap_i32(V_i32 &a, V_i32 &b);
void ccopy_i32(V_i32 &a, const V_i32 &b);
std::unique_ptr<V_i32> cmake_i32(std::size_t n);
Look clook_i32(const V_i32 &v);
std::size_t cat_i32(const V_i32 &v, std::size_t i);
V_i32 &crefl_i32(V_i32 &v);
using V_i64 = std::vector<std::int64_t>;
void cpush_i64(V_i64 &v, std::int32_t k);
void cresize_i64(V_i64 &v, std::size_t n);
void cerase_i64(V_i64 &v);
void cswap_i64(V_i64 &a, V_i64 &b);
void ccopy_i64(V_i64 &a, const V_i64 &b);
std::unique_ptr<V_i64> cmake_i64(std::size_t n);
Look clook_i64(const V_i64 &v);
std::size_t cat_i64(const V_i64 &v, std::size_t i);
V_i64 &crefl_i64(V_i64 &v);
using V_isize = std::vector<rust::isize>;
void cpush_isize(V_isize &v, std::int32_t k);
void cresize_isize(V_isize &v, std::size_t n);
void cerase_isize(V_isize &v);
void cswap_isize(V_isize &a, V_isize &b);
void ccopy_isize(V_isize &a, const V_isize &b);
std::unique_ptr<V_isize> cmake_isize(std::size_t n);
Look clook_isize(const V_isize &v);
std::size_t cat_isize(const V_isize &v, std::size_t i);
V_isize &crefl_isize(V_isize &v);
using V_f32 = std::vector<float>;
void cpush_f32(V_f32 &v, std::int32_t k);
void cresize_f32(V_f32 &v, std::size_t n);
void cerase_f32(V_f32 &v);
void cswap_f32(V_f32 &a, V_f32 &b);
void ccopy_f32(V_f32 &a, const V_f32 &b);
std::unique_ptr<V_f32> cmake_f32(std::size_t n);
Look clook_f32(const V_f32 &v);
std::size_t cat_f32(const V_f32 &v, std::size_t i);
V_f32 &crefl_f32(V_f32 &v);
using V_f64 = std::vector<double>;
void cpush_f64(V_f64 &v, std::int32_t k);
void cresize_f64(V_f64 &v, std::size_t n);
void cerase_f64(V_f64 &v);
void cswap_f64(V_f64 &a, V_f64 &b);
void ccopy_f64(V_f64 &a, const V_f64 &b);
std::unique_ptr<V_f64> cmake_f64(std::size_t n);
Look clook_f64(const V_f64 &v);
std::size_t cat_f64(const V_f64 &v, std::size_t i);
V_f64 &crefl_f64(V_f64 &v);
using V_string = std::vector<std::string>;
void cpush_string(V_string &v, std::int32_t k);
void cresize_string(V_string &v, std::size_t n);
void cerase_string(V_string &v);
void cswap_string(V_string &a, V_string &b);
void ccopy_string(V_string &a, const V_string &b);
std::unique_ptr<V_string> cmake_string(std::size_t n);
Look clook_string(const V_string &v);
std::size_t cat_string(const V_string &v, std::size_t i);
V_string &crefl_string(V_string &v);
using V_sh = std::vector<Sh>;
void cpush_sh(V_sh &v, std::int32_t k);
void cresize_sh(V_sh &v, std::size_t n);
void cerase_sh(V_sh &v);
void cswap_sh(V_sh &a, V_sh &b);
void ccopy_sh(V_sh &a, const V_sh &b);
std::unique_ptr<V_sh> cmake_sh(std::size_t n);
Look clook_sh(const V_sh &v);
std::size_t cat_sh(const V_sh &v, std::size_t i);
V_sh &crefl_sh(V_sh &v);
using V_p3 = std::vector<P3>;
void cpush_p3(V_p3 &v, std::int32_t k);
void cresize_p3(V_p3 &v, std::size_t n);
void cerase_p3(V_p3 &v);
void cswap_p3(V_p3 &a, V_p3 &b);
void ccopy_p3(V_p3 &a, const V_p3 &b);
std::unique_ptr<V_p3> cmake_p3(std::size_t n);
Look clook_p3(const V_p3 &v);
std::size_t cat_p3(const V_p3 &v, std::size_t i);
V_p3 &crefl_p3(V_p3 &v);
using V_en = std::vector<En>;
void cpush_en(V_en &v, std::int32_t k);
void cresize_en(V_en &v, std::size_t n);
void cerase_en(V_en &v);
void cswap_en(V_en &a, V_en &b);
void ccopy_en(V_en &a, const V_en &b);
std::unique_ptr<V_en> cmake_en(std::size_t n);
Look clook_en(const V_en &v);
std::size_t cat_en(const V_en &v, std::size_t i);
V_en &crefl_en(V_en &v);
using V_obj = std::vector<Obj>;
void cpush_obj(V_obj &v, std::int32_t k);
void cresize_obj(V_obj &v, std::size_t n);
void cerase_obj(V_obj &v);
void cswap_obj(V_obj &a, V_obj &b);
void ccopy_obj(V_obj &a, const V_obj &b);
std::unique_ptr<V_obj> cmake_obj(std::size_t n);
Look clook_obj(const V_obj &v);
std::size_t cat_obj(const V_obj &v, std::size_t i);
V_obj &crefl_obj(V_obj &v);
using V_tracked = std::vector<Tracked>;
void cpush_tracked(V_tracked &v, std::int32_t k);
void cresize_tracked(V_tracked &v, std::size_t n);
void cerase_tracked(V_tracked &v);
void cswap_tracked(V_tracked &a, V_tracked &b);
void ccopy_tracked(V_tracked &a, const V_tracked &b);
std::unique_ptr<V_tracked> cmake_tracked(std::size_t n);
Look clook_tracked(const V_tracked &v);
std::size_t cat_tracked(const V_tracked &v, std::size_t i);
V_tracked &crefl_tracked(V_tracked &v);
} // namespace c07
