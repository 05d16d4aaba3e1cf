// Generated by gen_sig.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
extern "C" std::uintptr_t vk_addr_c09a;
namespace c09a {
static inline void note(std::uintptr_t a) { vk_addr_c09a = a; }
static const void *volatile vk_sink;
static const std::string TXT[4] = {"", "a", std::string("h\xc3\xa9\0x", 5), "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\xf0\x9f\x98\x80"};
struct RObj;
struct S3;
enum class Eu8 : std::uint8_t;
enum class Ei8 : std::int8_t;
enum class Eu16 : std::uint16_t;
enum class Ei32 : std::int32_t;
enum class Eu32 : std::uint32_t;
enum class Ei64 : std::int64_t;
enum class Eu64 : std::uint64_t;
enum class XE : std::uint16_t { V0 = 3, V1 = 1, V2 = 500, V3 = 65535 };
struct S1;
struct S2;
struct S4;
struct S5;
struct S6;
struct S7;
struct S8;
struct S9;
struct S10;
struct S11;
struct S12;
struct S13;
struct S14;
struct S15;
struct S16;
struct S17;
struct S18;
struct S19;
struct S20;
struct S21;
struct S22;
struct S23;
struct TrivA { std::int32_t f0;  };
struct TrivB { double f0; double f1;  };
struct TrivC { std::uint64_t f0; std::uint8_t f1; std::uint64_t f2; std::uint16_t f3;  };
struct TrivD { float f0; std::int32_t f1;  };
struct TrivM { std::int32_t f0; std::uint8_t f1; TrivM(int a, int b) : f0(a), f1(b) {} TrivM(const TrivM &o) : f0(o.f0), f1(o.f1) {} TrivM &operator=(const TrivM &) = default; ~TrivM() { vk_sink = this; } using IsRelocatable = std::true_type; };
class CObj {
  int t; std::string pad; const CObj *self = this;
public:
  explicit CObj(int k) : t(k), pad(TXT[k]) {}
  CObj(const CObj &o) : t(o.t), pad(o.pad) {}
  CObj &operator=(const CObj &o) { t = o.t; pad = o.pad; return *this; }
  std::int32_t c_tag() const { return self == this && pad == TXT[t] ? t : -1; }
  void c_set(std::int32_t k) { t = k; pad = TXT[k]; }
  bool c_m_bool(bool x, std::int32_t k) const;
  std::uint8_t c_m_u8(std::uint8_t x, std::int32_t k);
  std::int16_t c_m_i16(std::int16_t x, std::int32_t k) const;
  std::uint32_t c_m_u32(std::uint32_t x, std::int32_t k);
  std::int64_t c_m_i64(std::int64_t x, std::int32_t k) const;
  std::size_t c_m_usize(std::size_t x, std::int32_t k);
  float c_m_f32(float x, std::int32_t k) const;
  double c_m_f64(double x, std::int32_t k);
  Eu16 c_m_Eu16(Eu16 x, std::int32_t k) const;
  Ei32 c_m_Ei32(Ei32 x, std::int32_t k);
  Eu64 c_m_Eu64(Eu64 x, std::int32_t k) const;
  XE c_m_XE(XE x, std::int32_t k);
  S1 c_m_S1(S1 x, std::int32_t k) const;
  S2 c_m_S2(S2 x, std::int32_t k);
  S5 c_m_S5(S5 x, std::int32_t k) const;
  S6 c_m_S6(S6 x, std::int32_t k);
  S9 c_m_S9(S9 x, std::int32_t k) const;
  S10 c_m_S10(S10 x, std::int32_t k);
  S13 c_m_S13(S13 x, std::int32_t k) const;
  S14 c_m_S14(S14 x, std::int32_t k);
  S17 c_m_S17(S17 x, std::int32_t k) const;
  S18 c_m_S18(S18 x, std::int32_t k);
  S21 c_m_S21(S21 x, std::int32_t k) const;
  bool c_m_S22(S22 x, std::int32_t k);
  TrivB c_m_TrivB(TrivB x, std::int32_t k) const;
  TrivC c_m_TrivC(TrivC x, std::int32_t k);
  std::array<std::uint8_t, 4> c_m_arr4_u8(std::array<std::uint8_t, 4> x, std::int32_t k) const;
  std::array<std::uint32_t, 1> c_m_arr1_u32(std::array<std::uint32_t, 1> x, std::int32_t k);
  std::array<std::array<std::int32_t, 2>, 2> c_m_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> x, std::int32_t k) const;
  std::array<Eu8, 2> c_m_arr2_Eu8(std::array<Eu8, 2> x, std::int32_t k);
  std::unique_ptr<CObj> c_m_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) const;
  std::shared_ptr<CObj> c_m_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
};
bool c_take_bool(bool x, std::int32_t k);
bool c_make_bool(std::int32_t k);
bool c_try_bool(std::int32_t k, bool fail);
bool c_echo_bool(bool x, std::int32_t k);
bool c_mix_bool(std::uint8_t a, bool x, double b, std::int32_t k, bool y, std::uint16_t c);
bool c_cb_bool(rust::Fn<bool(bool, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_bool(std::int32_t pos, std::int32_t k);
bool c_take_u8(std::uint8_t x, std::int32_t k);
std::uint8_t c_make_u8(std::int32_t k);
std::uint8_t c_try_u8(std::int32_t k, bool fail);
std::uint8_t c_echo_u8(std::uint8_t x, std::int32_t k);
bool c_mix_u8(std::uint8_t a, std::uint8_t x, double b, std::int32_t k, std::uint8_t y, std::uint16_t c);
bool c_cb_u8(rust::Fn<std::uint8_t(std::uint8_t, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_u8(std::int32_t pos, std::int32_t k);
bool c_take_i8(std::int8_t x, std::int32_t k);
std::int8_t c_make_i8(std::int32_t k);
std::int8_t c_try_i8(std::int32_t k, bool fail);
std::int8_t c_echo_i8(std::int8_t x, std::int32_t k);
bool c_mix_i8(std::uint8_t a, std::int8_t x, double b, std::int32_t k, std::int8_t y, std::uint16_t c);
bool c_cb_i8(rust::Fn<std::int8_t(std::int8_t, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_i8(std::int32_t pos, std::int32_t k);
bool c_take_u16(std::uint16_t x, std::int32_t k);
std::uint16_t c_make_u16(std::int32_t k);
std::uint16_t c_try_u16(std::int32_t k, bool fail);
std::uint16_t c_echo_u16(std::uint16_t x, std::int32_t k);
bool c_mix_u16(std::uint8_t a, std::uint16_t x, double b, std::int32_t k, std::uint16_t y, std::uint16_t c);
bool c_cb_u16(rust::Fn<std::uint16_t(std::uint16_t, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_u16(std::int32_t pos, std::int32_t k);
bool c_take_i16(std::int16_t x, std::int32_t k);
std::int16_t c_make_i16(std::int32_t k);
std::int16_t c_try_i16(std::int32_t k, bool fail);
std::int16_t c_echo_i16(std::int16_t x, std::int32_t k);
bool c_mix_i16(std::uint8_t a, std::int16_t x, double b, std::int32_t k, std::int16_t y, std::uint16_t c);
bool c_cb_i16(rust::Fn<std::int16_t(std::int16_t, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_i16(std::int32_t pos, std::int32_t k);
bool c_take_u32(std::uint32_t x, std::int32_t k);
std::uint32_t c_make_u32(std::int32_t k);
std::uint32_t c_try_u32(std::int32_t k, bool fail);
std::uint32_t c_echo_u32(std::uint32_t x, std::int32_t k);
bool c_mix_u32(std::uint8_t a, std::uint32_t x, double b, std::int32_t k, std::uint32_t y, std::uint16_t c);
bool c_cb_u32(rust::Fn<std::uint32_t(std::uint32_t, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_u32(std::int32_t pos, std::int32_t k);
bool c_take_i32(std::int32_t x, std::int32_t k);
std::int32_t c_make_i32(std::int32_t k);
std::int32_t c_try_i32(std::int32_t k, bool fail);
std::int32_t c_echo_i32(std::int32_t x, std::int32_t k);
bool c_mix_i32(std::uint8_t a, std::int32_t x, double b, std::int32_t k, std::int32_t y, std::uint16_t c);
bool c_cb_i32(rust::Fn<std::int32_t(std::int32_t, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_i32(std::int32_t pos, std::int32_t k);
bool c_take_u64(std::uint64_t x, std::int32_t k);
std::uint64_t c_make_u64(std::int32_t k);
std::uint64_t c_try_u64(std::int32_t k, bool fail);
std::uint64_t c_echo_u64(std::uint64_t x, std::int32_t k);
bool c_mix_u64(std::uint8_t a, std::uint64_t x, double b, std::int32_t k, std::uint64_t y, std::uint16_t c);
bool c_cb_u64(rust::Fn<std::uint64_t(std::uint64_t, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_u64(std::int32_t pos, std::int32_t k);
bool c_take_i64(std::int64_t x, std::int32_t k);
std::int64_t c_make_i64(std::int32_t k);
std::int64_t c_try_i64(std::int32_t k, bool fail);
std::int64_t c_echo_i64(std::int64_t x, std::int32_t k);
bool c_mix_i64(std::uint8_t a, std::int64_t x, double b, std::int32_t k, std::int64_t y, std::uint16_t c);
bool c_cb_i64(rust::Fn<std::int64_t(std::int64_t, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_i64(std::int32_t pos, std::int32_t k);
bool c_take_usize(std::size_t x, std::int32_t k);
std::size_t c_make_usize(std::int32_t k);
std::size_t c_try_usize(std::int32_t k, bool fail);
std::size_t c_echo_usize(std::size_t x, std::int32_t k);
bool c_mix_usize(std::uint8_t a, std::size_t x, double b, std::int32_t k, std::size_t y, std::uint16_t c);
bool c_cb_usize(rust::Fn<std::size_t(std::size_t, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_usize(std::int32_t pos, std::int32_t k);
bool c_take_isize(rust::isize x, std::int32_t k);
rust::isize c_make_isize(std::int32_t k);
rust::isize c_try_isize(std::int32_t k, bool fail);
rust::isize c_echo_isize(rust::isize x, std::int32_t k);
bool c_mix_isize(std::uint8_t a, rust::isize x, double b, std::int32_t k, rust::isize y, std::uint16_t c);
bool c_cb_isize(rust::Fn<rust::isize(rust::isize, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_isize(std::int32_t pos, std::int32_t k);
bool c_take_c_char(char x, std::int32_t k);
char c_make_c_char(std::int32_t k);
char c_try_c_char(std::int32_t k, bool fail);
char c_echo_c_char(char x, std::int32_t k);
bool c_mix_c_char(std::uint8_t a, char x, double b, std::int32_t k, char y, std::uint16_t c);
bool c_cb_c_char(rust::Fn<char(char, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_c_char(std::int32_t pos, std::int32_t k);
bool c_take_f32(float x, std::int32_t k);
float c_make_f32(std::int32_t k);
float c_try_f32(std::int32_t k, bool fail);
float c_echo_f32(float x, std::int32_t k);
bool c_mix_f32(std::uint8_t a, float x, double b, std::int32_t k, float y, std::uint16_t c);
bool c_cb_f32(rust::Fn<float(float, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_f32(std::int32_t pos, std::int32_t k);
bool c_take_f64(double x, std::int32_t k);
double c_make_f64(std::int32_t k);
double c_try_f64(std::int32_t k, bool fail);
double c_echo_f64(double x, std::int32_t k);
bool c_mix_f64(std::uint8_t a, double x, double b, std::int32_t k, double y, std::uint16_t c);
bool c_cb_f64(rust::Fn<double(double, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_f64(std::int32_t pos, std::int32_t k);
bool c_take_Eu8(Eu8 x, std::int32_t k);
Eu8 c_make_Eu8(std::int32_t k);
Eu8 c_try_Eu8(std::int32_t k, bool fail);
Eu8 c_echo_Eu8(Eu8 x, std::int32_t k);
bool c_mix_Eu8(std::uint8_t a, Eu8 x, double b, std::int32_t k, Eu8 y, std::uint16_t c);
bool c_cb_Eu8(rust::Fn<Eu8(Eu8, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Eu8(std::int32_t pos, std::int32_t k);
bool c_take_Ei8(Ei8 x, std::int32_t k);
Ei8 c_make_Ei8(std::int32_t k);
Ei8 c_try_Ei8(std::int32_t k, bool fail);
Ei8 c_echo_Ei8(Ei8 x, std::int32_t k);
bool c_mix_Ei8(std::uint8_t a, Ei8 x, double b, std::int32_t k, Ei8 y, std::uint16_t c);
bool c_cb_Ei8(rust::Fn<Ei8(Ei8, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Ei8(std::int32_t pos, std::int32_t k);
bool c_take_Eu16(Eu16 x, std::int32_t k);
Eu16 c_make_Eu16(std::int32_t k);
Eu16 c_try_Eu16(std::int32_t k, bool fail);
Eu16 c_echo_Eu16(Eu16 x, std::int32_t k);
bool c_mix_Eu16(std::uint8_t a, Eu16 x, double b, std::int32_t k, Eu16 y, std::uint16_t c);
bool c_cb_Eu16(rust::Fn<Eu16(Eu16, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Eu16(std::int32_t pos, std::int32_t k);
bool c_take_Ei32(Ei32 x, std::int32_t k);
Ei32 c_make_Ei32(std::int32_t k);
Ei32 c_try_Ei32(std::int32_t k, bool fail);
Ei32 c_echo_Ei32(Ei32 x, std::int32_t k);
bool c_mix_Ei32(std::uint8_t a, Ei32 x, double b, std::int32_t k, Ei32 y, std::uint16_t c);
bool c_cb_Ei32(rust::Fn<Ei32(Ei32, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Ei32(std::int32_t pos, std::int32_t k);
bool c_take_Eu32(Eu32 x, std::int32_t k);
Eu32 c_make_Eu32(std::int32_t k);
Eu32 c_try_Eu32(std::int32_t k, bool fail);
Eu32 c_echo_Eu32(Eu32 x, std::int32_t k);
bool c_mix_Eu32(std::uint8_t a, Eu32 x, double b, std::int32_t k, Eu32 y, std::uint16_t c);
bool c_cb_Eu32(rust::Fn<Eu32(Eu32, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Eu32(std::int32_t pos, std::int32_t k);
bool c_take_Ei64(Ei64 x, std::int32_t k);
Ei64 c_make_Ei64(std::int32_t k);
Ei64 c_try_Ei64(std::int32_t k, bool fail);
Ei64 c_echo_Ei64(Ei64 x, std::int32_t k);
bool c_mix_Ei64(std::uint8_t a, Ei64 x, double b, std::int32_t k, Ei64 y, std::uint16_t c);
bool c_cb_Ei64(rust::Fn<Ei64(Ei64, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Ei64(std::int32_t pos, std::int32_t k);
bool c_take_Eu64(Eu64 x, std::int32_t k);
Eu64 c_make_Eu64(std::int32_t k);
Eu64 c_try_Eu64(std::int32_t k, bool fail);
Eu64 c_echo_Eu64(Eu64 x, std::int32_t k);
bool c_mix_Eu64(std::uint8_t a, Eu64 x, double b, std::int32_t k, Eu64 y, std::uint16_t c);
bool c_cb_Eu64(rust::Fn<Eu64(Eu64, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Eu64(std::int32_t pos, std::int32_t k);
bool c_take_XE(XE x, std::int32_t k);
XE c_make_XE(std::int32_t k);
XE c_try_XE(std::int32_t k, bool fail);
XE c_echo_XE(XE x, std::int32_t k);
bool c_mix_XE(std::uint8_t a, XE x, double b, std::int32_t k, XE y, std::uint16_t c);
bool c_cb_XE(rust::Fn<XE(XE, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_XE(std::int32_t pos, std::int32_t k);
bool c_take_str(rust::Str x, std::int32_t k);
rust::Str c_make_str(std::uint8_t const &, std::int32_t k);
rust::Str c_try_str(std::uint8_t const &, std::int32_t k, bool fail);
rust::Str c_echo_str(rust::Str x, std::int32_t k);
bool c_mix_str(std::uint8_t a, rust::Str x, double b, std::int32_t k, rust::Str y, std::uint16_t c);
bool c_cb_str(rust::Fn<rust::Str(rust::Str, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_str(std::int32_t pos, std::int32_t k);
bool c_take_String(rust::String x, std::int32_t k);
rust::String c_make_String(std::int32_t k);
rust::String c_try_String(std::int32_t k, bool fail);
rust::String c_echo_String(rust::String x, std::int32_t k);
bool c_mix_String(std::uint8_t a, rust::String x, double b, std::int32_t k, rust::String y, std::uint16_t c);
bool c_cb_String(rust::Fn<rust::String(rust::String, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_String(std::int32_t pos, std::int32_t k);
bool c_take_S1(S1 x, std::int32_t k);
S1 c_make_S1(std::int32_t k);
S1 c_try_S1(std::int32_t k, bool fail);
S1 c_echo_S1(S1 x, std::int32_t k);
bool c_mix_S1(std::uint8_t a, S1 x, double b, std::int32_t k, S1 y, std::uint16_t c);
bool c_cb_S1(rust::Fn<S1(S1, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S1(std::int32_t pos, std::int32_t k);
bool c_take_S2(S2 x, std::int32_t k);
S2 c_make_S2(std::int32_t k);
S2 c_try_S2(std::int32_t k, bool fail);
S2 c_echo_S2(S2 x, std::int32_t k);
bool c_mix_S2(std::uint8_t a, S2 x, double b, std::int32_t k, S2 y, std::uint16_t c);
bool c_cb_S2(rust::Fn<S2(S2, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S2(std::int32_t pos, std::int32_t k);
bool c_take_S3(S3 x, std::int32_t k);
S3 c_make_S3(std::int32_t k);
S3 c_try_S3(std::int32_t k, bool fail);
S3 c_echo_S3(S3 x, std::int32_t k);
bool c_mix_S3(std::uint8_t a, S3 x, double b, std::int32_t k, S3 y, std::uint16_t c);
bool c_cb_S3(rust::Fn<S3(S3, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S3(std::int32_t pos, std::int32_t k);
bool c_take_S4(S4 x, std::int32_t k);
S4 c_make_S4(std::int32_t k);
S4 c_try_S4(std::int32_t k, bool fail);
S4 c_echo_S4(S4 x, std::int32_t k);
bool c_mix_S4(std::uint8_t a, S4 x, double b, std::int32_t k, S4 y, std::uint16_t c);
bool c_cb_S4(rust::Fn<S4(S4, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S4(std::int32_t pos, std::int32_t k);
bool c_take_S5(S5 x, std::int32_t k);
S5 c_make_S5(std::int32_t k);
S5 c_try_S5(std::int32_t k, bool fail);
S5 c_echo_S5(S5 x, std::int32_t k);
bool c_mix_S5(std::uint8_t a, S5 x, double b, std::int32_t k, S5 y, std::uint16_t c);
bool c_cb_S5(rust::Fn<S5(S5, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S5(std::int32_t pos, std::int32_t k);
bool c_take_S6(S6 x, std::int32_t k);
S6 c_make_S6(std::int32_t k);
S6 c_try_S6(std::int32_t k, bool fail);
S6 c_echo_S6(S6 x, std::int32_t k);
bool c_mix_S6(std::uint8_t a, S6 x, double b, std::int32_t k, S6 y, std::uint16_t c);
bool c_cb_S6(rust::Fn<S6(S6, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S6(std::int32_t pos, std::int32_t k);
bool c_take_S7(S7 x, std::int32_t k);
S7 c_make_S7(std::int32_t k);
S7 c_try_S7(std::int32_t k, bool fail);
S7 c_echo_S7(S7 x, std::int32_t k);
bool c_mix_S7(std::uint8_t a, S7 x, double b, std::int32_t k, S7 y, std::uint16_t c);
bool c_cb_S7(rust::Fn<S7(S7, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S7(std::int32_t pos, std::int32_t k);
bool c_take_S8(S8 x, std::int32_t k);
S8 c_make_S8(std::int32_t k);
S8 c_try_S8(std::int32_t k, bool fail);
S8 c_echo_S8(S8 x, std::int32_t k);
bool c_mix_S8(std::uint8_t a, S8 x, double b, std::int32_t k, S8 y, std::uint16_t c);
bool c_cb_S8(rust::Fn<S8(S8, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S8(std::int32_t pos, std::int32_t k);
bool c_take_S9(S9 x, std::int32_t k);
S9 c_make_S9(std::int32_t k);
S9 c_try_S9(std::int32_t k, bool fail);
S9 c_echo_S9(S9 x, std::int32_t k);
bool c_mix_S9(std::uint8_t a, S9 x, double b, std::int32_t k, S9 y, std::uint16_t c);
bool c_cb_S9(rust::Fn<S9(S9, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S9(std::int32_t pos, std::int32_t k);
bool c_take_S10(S10 x, std::int32_t k);
S10 c_make_S10(std::int32_t k);
S10 c_try_S10(std::int32_t k, bool fail);
S10 c_echo_S10(S10 x, std::int32_t k);
bool c_mix_S10(std::uint8_t a, S10 x, double b, std::int32_t k, S10 y, std::uint16_t c);
bool c_cb_S10(rust::Fn<S10(S10, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S10(std::int32_t pos, std::int32_t k);
bool c_take_S11(S11 x, std::int32_t k);
S11 c_make_S11(std::int32_t k);
S11 c_try_S11(std::int32_t k, bool fail);
S11 c_echo_S11(S11 x, std::int32_t k);
bool c_mix_S11(std::uint8_t a, S11 x, double b, std::int32_t k, S11 y, std::uint16_t c);
bool c_cb_S11(rust::Fn<S11(S11, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S11(std::int32_t pos, std::int32_t k);
bool c_take_S12(S12 x, std::int32_t k);
S12 c_make_S12(std::int32_t k);
S12 c_try_S12(std::int32_t k, bool fail);
S12 c_echo_S12(S12 x, std::int32_t k);
bool c_mix_S12(std::uint8_t a, S12 x, double b, std::int32_t k, S12 y, std::uint16_t c);
bool c_cb_S12(rust::Fn<S12(S12, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S12(std::int32_t pos, std::int32_t k);
bool c_take_S13(S13 x, std::int32_t k);
S13 c_make_S13(std::int32_t k);
S13 c_try_S13(std::int32_t k, bool fail);
S13 c_echo_S13(S13 x, std::int32_t k);
bool c_mix_S13(std::uint8_t a, S13 x, double b, std::int32_t k, S13 y, std::uint16_t c);
bool c_cb_S13(rust::Fn<S13(S13, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S13(std::int32_t pos, std::int32_t k);
bool c_take_S14(S14 x, std::int32_t k);
S14 c_make_S14(std::int32_t k);
S14 c_try_S14(std::int32_t k, bool fail);
S14 c_echo_S14(S14 x, std::int32_t k);
bool c_mix_S14(std::uint8_t a, S14 x, double b, std::int32_t k, S14 y, std::uint16_t c);
bool c_cb_S14(rust::Fn<S14(S14, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S14(std::int32_t pos, std::int32_t k);
bool c_take_S15(S15 x, std::int32_t k);
S15 c_make_S15(std::int32_t k);
S15 c_try_S15(std::int32_t k, bool fail);
S15 c_echo_S15(S15 x, std::int32_t k);
bool c_mix_S15(std::uint8_t a, S15 x, double b, std::int32_t k, S15 y, std::uint16_t c);
bool c_cb_S15(rust::Fn<S15(S15, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S15(std::int32_t pos, std::int32_t k);
bool c_take_S16(S16 x, std::int32_t k);
S16 c_make_S16(std::uint8_t const &, std::int32_t k);
S16 c_try_S16(std::uint8_t const &, std::int32_t k, bool fail);
S16 c_echo_S16(S16 x, std::int32_t k);
bool c_mix_S16(std::uint8_t a, S16 x, double b, std::int32_t k, S16 y, std::uint16_t c);
std::int32_t c_run_S16(std::int32_t pos, std::int32_t k);
bool c_take_S17(S17 x, std::int32_t k);
S17 c_make_S17(std::int32_t k);
S17 c_try_S17(std::int32_t k, bool fail);
S17 c_echo_S17(S17 x, std::int32_t k);
bool c_mix_S17(std::uint8_t a, S17 x, double b, std::int32_t k, S17 y, std::uint16_t c);
bool c_cb_S17(rust::Fn<S17(S17, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S17(std::int32_t pos, std::int32_t k);
bool c_take_S18(S18 x, std::int32_t k);
S18 c_make_S18(std::int32_t k);
S18 c_try_S18(std::int32_t k, bool fail);
S18 c_echo_S18(S18 x, std::int32_t k);
bool c_mix_S18(std::uint8_t a, S18 x, double b, std::int32_t k, S18 y, std::uint16_t c);
bool c_cb_S18(rust::Fn<S18(S18, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S18(std::int32_t pos, std::int32_t k);
bool c_take_S19(S19 x, std::int32_t k);
S19 c_make_S19(std::int32_t k);
S19 c_try_S19(std::int32_t k, bool fail);
S19 c_echo_S19(S19 x, std::int32_t k);
bool c_mix_S19(std::uint8_t a, S19 x, double b, std::int32_t k, S19 y, std::uint16_t c);
bool c_cb_S19(rust::Fn<S19(S19, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S19(std::int32_t pos, std::int32_t k);
bool c_take_S20(S20 x, std::int32_t k);
S20 c_make_S20(std::int32_t k);
S20 c_try_S20(std::int32_t k, bool fail);
S20 c_echo_S20(S20 x, std::int32_t k);
bool c_mix_S20(std::uint8_t a, S20 x, double b, std::int32_t k, S20 y, std::uint16_t c);
bool c_cb_S20(rust::Fn<S20(S20, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S20(std::int32_t pos, std::int32_t k);
bool c_take_S21(S21 x, std::int32_t k);
S21 c_make_S21(std::int32_t k);
S21 c_try_S21(std::int32_t k, bool fail);
S21 c_echo_S21(S21 x, std::int32_t k);
bool c_mix_S21(std::uint8_t a, S21 x, double b, std::int32_t k, S21 y, std::uint16_t c);
bool c_cb_S21(rust::Fn<S21(S21, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_S21(std::int32_t pos, std::int32_t k);
bool c_take_S22(S22 x, std::int32_t k);
S22 c_make_S22(std::uint8_t const &, std::int32_t k);
S22 c_try_S22(std::uint8_t const &, std::int32_t k, bool fail);
S22 c_echo_S22(S22 x, std::int32_t k);
bool c_mix_S22(std::uint8_t a, S22 x, double b, std::int32_t k, S22 y, std::uint16_t c);
std::int32_t c_run_S22(std::int32_t pos, std::int32_t k);
bool c_take_S23(S23 x, std::int32_t k);
S23 c_make_S23(std::uint8_t const &, std::int32_t k);
S23 c_try_S23(std::uint8_t const &, std::int32_t k, bool fail);
S23 c_echo_S23(S23 x, std::int32_t k);
bool c_mix_S23(std::uint8_t a, S23 x, double b, std::int32_t k, S23 y, std::uint16_t c);
std::int32_t c_run_S23(std::int32_t pos, std::int32_t k);
bool c_take_TrivA(TrivA x, std::int32_t k);
TrivA c_make_TrivA(std::int32_t k);
TrivA c_try_TrivA(std::int32_t k, bool fail);
TrivA c_echo_TrivA(TrivA x, std::int32_t k);
bool c_mix_TrivA(std::uint8_t a, TrivA x, double b, std::int32_t k, TrivA y, std::uint16_t c);
bool c_cb_TrivA(rust::Fn<TrivA(TrivA, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_TrivA(std::int32_t pos, std::int32_t k);
bool c_take_TrivB(TrivB x, std::int32_t k);
TrivB c_make_TrivB(std::int32_t k);
TrivB c_try_TrivB(std::int32_t k, bool fail);
TrivB c_echo_TrivB(TrivB x, std::int32_t k);
bool c_mix_TrivB(std::uint8_t a, TrivB x, double b, std::int32_t k, TrivB y, std::uint16_t c);
bool c_cb_TrivB(rust::Fn<TrivB(TrivB, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_TrivB(std::int32_t pos, std::int32_t k);
bool c_take_TrivC(TrivC x, std::int32_t k);
TrivC c_make_TrivC(std::int32_t k);
TrivC c_try_TrivC(std::int32_t k, bool fail);
TrivC c_echo_TrivC(TrivC x, std::int32_t k);
bool c_mix_TrivC(std::uint8_t a, TrivC x, double b, std::int32_t k, TrivC y, std::uint16_t c);
bool c_cb_TrivC(rust::Fn<TrivC(TrivC, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_TrivC(std::int32_t pos, std::int32_t k);
bool c_take_TrivD(TrivD x, std::int32_t k);
TrivD c_make_TrivD(std::int32_t k);
TrivD c_try_TrivD(std::int32_t k, bool fail);
TrivD c_echo_TrivD(TrivD x, std::int32_t k);
bool c_mix_TrivD(std::uint8_t a, TrivD x, double b, std::int32_t k, TrivD y, std::uint16_t c);
bool c_cb_TrivD(rust::Fn<TrivD(TrivD, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_TrivD(std::int32_t pos, std::int32_t k);
bool c_take_TrivM(TrivM x, std::int32_t k);
TrivM c_make_TrivM(std::int32_t k);
TrivM c_try_TrivM(std::int32_t k, bool fail);
TrivM c_echo_TrivM(TrivM x, std::int32_t k);
bool c_mix_TrivM(std::uint8_t a, TrivM x, double b, std::int32_t k, TrivM y, std::uint16_t c);
bool c_cb_TrivM(rust::Fn<TrivM(TrivM, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_TrivM(std::int32_t pos, std::int32_t k);
bool c_take_arr4_u8(std::array<std::uint8_t, 4> x, std::int32_t k);
std::array<std::uint8_t, 4> c_make_arr4_u8(std::int32_t k);
std::array<std::uint8_t, 4> c_try_arr4_u8(std::int32_t k, bool fail);
std::array<std::uint8_t, 4> c_echo_arr4_u8(std::array<std::uint8_t, 4> x, std::int32_t k);
bool c_mix_arr4_u8(std::uint8_t a, std::array<std::uint8_t, 4> x, double b, std::int32_t k, std::array<std::uint8_t, 4> y, std::uint16_t c);
bool c_cb_arr4_u8(rust::Fn<std::array<std::uint8_t, 4>(std::array<std::uint8_t, 4>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_arr4_u8(std::int32_t pos, std::int32_t k);
bool c_take_arr1_u32(std::array<std::uint32_t, 1> x, std::int32_t k);
std::array<std::uint32_t, 1> c_make_arr1_u32(std::int32_t k);
std::array<std::uint32_t, 1> c_try_arr1_u32(std::int32_t k, bool fail);
std::array<std::uint32_t, 1> c_echo_arr1_u32(std::array<std::uint32_t, 1> x, std::int32_t k);
bool c_mix_arr1_u32(std::uint8_t a, std::array<std::uint32_t, 1> x, double b, std::int32_t k, std::array<std::uint32_t, 1> y, std::uint16_t c);
bool c_cb_arr1_u32(rust::Fn<std::array<std::uint32_t, 1>(std::array<std::uint32_t, 1>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_arr1_u32(std::int32_t pos, std::int32_t k);
bool c_take_arr2_String(std::array<rust::String, 2> x, std::int32_t k);
std::array<rust::String, 2> c_make_arr2_String(std::int32_t k);
std::array<rust::String, 2> c_try_arr2_String(std::int32_t k, bool fail);
std::array<rust::String, 2> c_echo_arr2_String(std::array<rust::String, 2> x, std::int32_t k);
bool c_mix_arr2_String(std::uint8_t a, std::array<rust::String, 2> x, double b, std::int32_t k, std::array<rust::String, 2> y, std::uint16_t c);
bool c_cb_arr2_String(rust::Fn<std::array<rust::String, 2>(std::array<rust::String, 2>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_arr2_String(std::int32_t pos, std::int32_t k);
bool c_take_arr3_S2(std::array<S2, 3> x, std::int32_t k);
std::array<S2, 3> c_make_arr3_S2(std::int32_t k);
std::array<S2, 3> c_try_arr3_S2(std::int32_t k, bool fail);
std::array<S2, 3> c_echo_arr3_S2(std::array<S2, 3> x, std::int32_t k);
bool c_mix_arr3_S2(std::uint8_t a, std::array<S2, 3> x, double b, std::int32_t k, std::array<S2, 3> y, std::uint16_t c);
bool c_cb_arr3_S2(rust::Fn<std::array<S2, 3>(std::array<S2, 3>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_arr3_S2(std::int32_t pos, std::int32_t k);
bool c_take_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> x, std::int32_t k);
std::array<std::array<std::int32_t, 2>, 2> c_make_arr2_arr2_i32(std::int32_t k);
std::array<std::array<std::int32_t, 2>, 2> c_try_arr2_arr2_i32(std::int32_t k, bool fail);
std::array<std::array<std::int32_t, 2>, 2> c_echo_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> x, std::int32_t k);
bool c_mix_arr2_arr2_i32(std::uint8_t a, std::array<std::array<std::int32_t, 2>, 2> x, double b, std::int32_t k, std::array<std::array<std::int32_t, 2>, 2> y, std::uint16_t c);
bool c_cb_arr2_arr2_i32(rust::Fn<std::array<std::array<std::int32_t, 2>, 2>(std::array<std::array<std::int32_t, 2>, 2>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_arr2_arr2_i32(std::int32_t pos, std::int32_t k);
bool c_take_arr2_Eu8(std::array<Eu8, 2> x, std::int32_t k);
std::array<Eu8, 2> c_make_arr2_Eu8(std::int32_t k);
std::array<Eu8, 2> c_try_arr2_Eu8(std::int32_t k, bool fail);
std::array<Eu8, 2> c_echo_arr2_Eu8(std::array<Eu8, 2> x, std::int32_t k);
bool c_mix_arr2_Eu8(std::uint8_t a, std::array<Eu8, 2> x, double b, std::int32_t k, std::array<Eu8, 2> y, std::uint16_t c);
bool c_cb_arr2_Eu8(rust::Fn<std::array<Eu8, 2>(std::array<Eu8, 2>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_arr2_Eu8(std::int32_t pos, std::int32_t k);
bool c_take_arr2_f64(std::array<double, 2> x, std::int32_t k);
std::array<double, 2> c_make_arr2_f64(std::int32_t k);
std::array<double, 2> c_try_arr2_f64(std::int32_t k, bool fail);
std::array<double, 2> c_echo_arr2_f64(std::array<double, 2> x, std::int32_t k);
bool c_mix_arr2_f64(std::uint8_t a, std::array<double, 2> x, double b, std::int32_t k, std::array<double, 2> y, std::uint16_t c);
bool c_cb_arr2_f64(rust::Fn<std::array<double, 2>(std::array<double, 2>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_arr2_f64(std::int32_t pos, std::int32_t k);
bool c_take_arr9_bool(std::array<bool, 9> x, std::int32_t k);
std::array<bool, 9> c_make_arr9_bool(std::int32_t k);
std::array<bool, 9> c_try_arr9_bool(std::int32_t k, bool fail);
std::array<bool, 9> c_echo_arr9_bool(std::array<bool, 9> x, std::int32_t k);
bool c_mix_arr9_bool(std::uint8_t a, std::array<bool, 9> x, double b, std::int32_t k, std::array<bool, 9> y, std::uint16_t c);
bool c_cb_arr9_bool(rust::Fn<std::array<bool, 9>(std::array<bool, 9>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_arr9_bool(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k);
std::unique_ptr<CObj> c_make_UniquePtr_CObj(std::int32_t k);
std::unique_ptr<CObj> c_try_UniquePtr_CObj(std::int32_t k, bool fail);
std::unique_ptr<CObj> c_echo_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k);
bool c_mix_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> x, double b, std::int32_t k, std::unique_ptr<CObj> y, std::uint16_t c);
bool c_cb_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
std::shared_ptr<CObj> c_make_SharedPtr_CObj(std::int32_t k);
std::shared_ptr<CObj> c_try_SharedPtr_CObj(std::int32_t k, bool fail);
std::shared_ptr<CObj> c_echo_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
bool c_mix_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> x, double b, std::int32_t k, std::shared_ptr<CObj> y, std::uint16_t c);
bool c_cb_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k);
std::unique_ptr<std::string> c_make_UniquePtr_CxxString(std::int32_t k);
std::unique_ptr<std::string> c_try_UniquePtr_CxxString(std::int32_t k, bool fail);
std::unique_ptr<std::string> c_echo_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k);
bool c_mix_UniquePtr_CxxString(std::uint8_t a, std::unique_ptr<std::string> x, double b, std::int32_t k, std::unique_ptr<std::string> y, std::uint16_t c);
bool c_cb_UniquePtr_CxxString(rust::Fn<std::unique_ptr<std::string>(std::unique_ptr<std::string>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CxxString(std::int32_t pos, std::int32_t k);
std::unique_ptr<CObj> c_store_CObj(std::int32_t k);
} // namespace c09a
