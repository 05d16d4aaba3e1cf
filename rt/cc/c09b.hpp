// Generated by gen_sig.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
extern "C" std::uintptr_t vk_addr_c09b;
namespace c09b {
static inline void note(std::uintptr_t a) { vk_addr_c09b = a; }
static const void *volatile vk_sink;
static const std::string TXT[4] = {"", "a", std::string("h\xc3\xa9\0x", 5), "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\xf0\x9f\x98\x80"};
struct RObj;
struct S3;
struct S2;
struct S7;
struct TrivA { std::int32_t f0;  };
enum class Ei8 : std::int8_t;
enum class Eu8 : std::uint8_t;
class CObj {
  int t; std::string pad; const CObj *self = this;
public:
  explicit CObj(int k) : t(k), pad(TXT[k]) {}
  CObj(const CObj &o) : t(o.t), pad(o.pad) {}
  CObj &operator=(const CObj &o) { t = o.t; pad = o.pad; return *this; }
  std::int32_t c_tag() const { return self == this && pad == TXT[t] ? t : -1; }
  void c_set(std::int32_t k) { t = k; pad = TXT[k]; }
  rust::Box<RObj> c_m_Box_RObj(rust::Box<RObj> x, std::int32_t k) const;
  rust::Box<S2> c_m_Box_S2(rust::Box<S2> x, std::int32_t k);
  rust::Vec<std::uint8_t> c_m_Vec_u8(rust::Vec<std::uint8_t> x, std::int32_t k) const;
  rust::Vec<std::int64_t> c_m_Vec_i64(rust::Vec<std::int64_t> x, std::int32_t k);
  rust::Vec<std::size_t> c_m_Vec_usize(rust::Vec<std::size_t> x, std::int32_t k) const;
  rust::Vec<char> c_m_Vec_c_char(rust::Vec<char> x, std::int32_t k);
  rust::Vec<S7> c_m_Vec_S7(rust::Vec<S7> x, std::int32_t k) const;
  rust::Vec<RObj> c_m_Vec_RObj(rust::Vec<RObj> x, std::int32_t k);
  std::unique_ptr<CObj> c_m_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) const;
  std::unique_ptr<std::string> c_m_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k);
  std::unique_ptr<TrivA> c_m_UniquePtr_TrivA(std::unique_ptr<TrivA> x, std::int32_t k) const;
  std::unique_ptr<std::vector<std::uint16_t>> c_m_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> x, std::int32_t k);
  std::unique_ptr<std::vector<S7>> c_m_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> x, std::int32_t k) const;
  std::unique_ptr<std::vector<double>> c_m_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> x, std::int32_t k);
  std::shared_ptr<std::uint32_t> c_m_SharedPtr_u32(std::shared_ptr<std::uint32_t> x, std::int32_t k) const;
  std::shared_ptr<bool> c_m_SharedPtr_bool(std::shared_ptr<bool> x, std::int32_t k);
  std::shared_ptr<TrivA> c_m_SharedPtr_TrivA(std::shared_ptr<TrivA> x, std::int32_t k) const;
  std::weak_ptr<CObj> c_m_WeakPtr_CObj(std::weak_ptr<CObj> x, std::int32_t k);
  std::weak_ptr<S2> c_m_WeakPtr_S2(std::weak_ptr<S2> x, std::int32_t k) const;
  bool c_m_ref_u8(std::uint8_t const & x, std::int32_t k);
  bool c_m_ref_bool(bool const & x, std::int32_t k) const;
  bool c_m_ref_String(rust::String const & x, std::int32_t k);
  bool c_m_ref_RObj(RObj const & x, std::int32_t k) const;
  bool c_m_ref_CObj(CObj const & x, std::int32_t k);
  bool c_m_ref_CxxVector_CxxString(std::vector<std::string> const & x, std::int32_t k) const;
  bool c_m_ref_Vec_u8(rust::Vec<std::uint8_t> const & x, std::int32_t k);
  bool c_m_ref_Box_RObj(rust::Box<RObj> const & x, std::int32_t k) const;
  bool c_m_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & x, std::int32_t k);
  bool c_m_ref_Eu8(Eu8 const & x, std::int32_t k) const;
  bool c_m_ref_TrivA(TrivA const & x, std::int32_t k);
};
std::unique_ptr<CObj> c_store_CObj(std::int32_t k);
std::unique_ptr<std::string> c_store_CxxString(std::int32_t k);
std::unique_ptr<std::vector<std::uint8_t>> c_store_CxxVector_u8(std::int32_t k);
std::unique_ptr<std::vector<std::string>> c_store_CxxVector_CxxString(std::int32_t k);
bool c_take_Box_RObj(rust::Box<RObj> x, std::int32_t k);
rust::Box<RObj> c_make_Box_RObj(std::int32_t k);
rust::Box<RObj> c_try_Box_RObj(std::int32_t k, bool fail);
rust::Box<RObj> c_echo_Box_RObj(rust::Box<RObj> x, std::int32_t k);
bool c_mix_Box_RObj(std::uint8_t a, rust::Box<RObj> x, double b, std::int32_t k, rust::Box<RObj> y, std::uint16_t c);
bool c_cb_Box_RObj(rust::Fn<rust::Box<RObj>(rust::Box<RObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Box_RObj(std::int32_t pos, std::int32_t k);
bool c_take_Box_S2(rust::Box<S2> x, std::int32_t k);
rust::Box<S2> c_make_Box_S2(std::int32_t k);
rust::Box<S2> c_try_Box_S2(std::int32_t k, bool fail);
rust::Box<S2> c_echo_Box_S2(rust::Box<S2> x, std::int32_t k);
bool c_mix_Box_S2(std::uint8_t a, rust::Box<S2> x, double b, std::int32_t k, rust::Box<S2> y, std::uint16_t c);
bool c_cb_Box_S2(rust::Fn<rust::Box<S2>(rust::Box<S2>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Box_S2(std::int32_t pos, std::int32_t k);
bool c_take_Box_S7(rust::Box<S7> x, std::int32_t k);
rust::Box<S7> c_make_Box_S7(std::int32_t k);
rust::Box<S7> c_try_Box_S7(std::int32_t k, bool fail);
rust::Box<S7> c_echo_Box_S7(rust::Box<S7> x, std::int32_t k);
bool c_mix_Box_S7(std::uint8_t a, rust::Box<S7> x, double b, std::int32_t k, rust::Box<S7> y, std::uint16_t c);
bool c_cb_Box_S7(rust::Fn<rust::Box<S7>(rust::Box<S7>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Box_S7(std::int32_t pos, std::int32_t k);
bool c_take_Box_TrivA(rust::Box<TrivA> x, std::int32_t k);
rust::Box<TrivA> c_make_Box_TrivA(std::int32_t k);
rust::Box<TrivA> c_try_Box_TrivA(std::int32_t k, bool fail);
rust::Box<TrivA> c_echo_Box_TrivA(rust::Box<TrivA> x, std::int32_t k);
bool c_mix_Box_TrivA(std::uint8_t a, rust::Box<TrivA> x, double b, std::int32_t k, rust::Box<TrivA> y, std::uint16_t c);
bool c_cb_Box_TrivA(rust::Fn<rust::Box<TrivA>(rust::Box<TrivA>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Box_TrivA(std::int32_t pos, std::int32_t k);
bool c_take_Vec_u8(rust::Vec<std::uint8_t> x, std::int32_t k);
rust::Vec<std::uint8_t> c_make_Vec_u8(std::int32_t k);
rust::Vec<std::uint8_t> c_try_Vec_u8(std::int32_t k, bool fail);
rust::Vec<std::uint8_t> c_echo_Vec_u8(rust::Vec<std::uint8_t> x, std::int32_t k);
bool c_mix_Vec_u8(std::uint8_t a, rust::Vec<std::uint8_t> x, double b, std::int32_t k, rust::Vec<std::uint8_t> y, std::uint16_t c);
bool c_cb_Vec_u8(rust::Fn<rust::Vec<std::uint8_t>(rust::Vec<std::uint8_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_u8(std::int32_t pos, std::int32_t k);
bool c_take_Vec_i64(rust::Vec<std::int64_t> x, std::int32_t k);
rust::Vec<std::int64_t> c_make_Vec_i64(std::int32_t k);
rust::Vec<std::int64_t> c_try_Vec_i64(std::int32_t k, bool fail);
rust::Vec<std::int64_t> c_echo_Vec_i64(rust::Vec<std::int64_t> x, std::int32_t k);
bool c_mix_Vec_i64(std::uint8_t a, rust::Vec<std::int64_t> x, double b, std::int32_t k, rust::Vec<std::int64_t> y, std::uint16_t c);
bool c_cb_Vec_i64(rust::Fn<rust::Vec<std::int64_t>(rust::Vec<std::int64_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_i64(std::int32_t pos, std::int32_t k);
bool c_take_Vec_bool(rust::Vec<bool> x, std::int32_t k);
rust::Vec<bool> c_make_Vec_bool(std::int32_t k);
rust::Vec<bool> c_try_Vec_bool(std::int32_t k, bool fail);
rust::Vec<bool> c_echo_Vec_bool(rust::Vec<bool> x, std::int32_t k);
bool c_mix_Vec_bool(std::uint8_t a, rust::Vec<bool> x, double b, std::int32_t k, rust::Vec<bool> y, std::uint16_t c);
bool c_cb_Vec_bool(rust::Fn<rust::Vec<bool>(rust::Vec<bool>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_bool(std::int32_t pos, std::int32_t k);
bool c_take_Vec_f32(rust::Vec<float> x, std::int32_t k);
rust::Vec<float> c_make_Vec_f32(std::int32_t k);
rust::Vec<float> c_try_Vec_f32(std::int32_t k, bool fail);
rust::Vec<float> c_echo_Vec_f32(rust::Vec<float> x, std::int32_t k);
bool c_mix_Vec_f32(std::uint8_t a, rust::Vec<float> x, double b, std::int32_t k, rust::Vec<float> y, std::uint16_t c);
bool c_cb_Vec_f32(rust::Fn<rust::Vec<float>(rust::Vec<float>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_f32(std::int32_t pos, std::int32_t k);
bool c_take_Vec_usize(rust::Vec<std::size_t> x, std::int32_t k);
rust::Vec<std::size_t> c_make_Vec_usize(std::int32_t k);
rust::Vec<std::size_t> c_try_Vec_usize(std::int32_t k, bool fail);
rust::Vec<std::size_t> c_echo_Vec_usize(rust::Vec<std::size_t> x, std::int32_t k);
bool c_mix_Vec_usize(std::uint8_t a, rust::Vec<std::size_t> x, double b, std::int32_t k, rust::Vec<std::size_t> y, std::uint16_t c);
bool c_cb_Vec_usize(rust::Fn<rust::Vec<std::size_t>(rust::Vec<std::size_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_usize(std::int32_t pos, std::int32_t k);
bool c_take_Vec_c_char(rust::Vec<char> x, std::int32_t k);
rust::Vec<char> c_make_Vec_c_char(std::int32_t k);
rust::Vec<char> c_try_Vec_c_char(std::int32_t k, bool fail);
rust::Vec<char> c_echo_Vec_c_char(rust::Vec<char> x, std::int32_t k);
bool c_mix_Vec_c_char(std::uint8_t a, rust::Vec<char> x, double b, std::int32_t k, rust::Vec<char> y, std::uint16_t c);
bool c_cb_Vec_c_char(rust::Fn<rust::Vec<char>(rust::Vec<char>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_c_char(std::int32_t pos, std::int32_t k);
bool c_take_Vec_String(rust::Vec<rust::String> x, std::int32_t k);
rust::Vec<rust::String> c_make_Vec_String(std::int32_t k);
rust::Vec<rust::String> c_try_Vec_String(std::int32_t k, bool fail);
rust::Vec<rust::String> c_echo_Vec_String(rust::Vec<rust::String> x, std::int32_t k);
bool c_mix_Vec_String(std::uint8_t a, rust::Vec<rust::String> x, double b, std::int32_t k, rust::Vec<rust::String> y, std::uint16_t c);
bool c_cb_Vec_String(rust::Fn<rust::Vec<rust::String>(rust::Vec<rust::String>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_String(std::int32_t pos, std::int32_t k);
bool c_take_Vec_S2(rust::Vec<S2> x, std::int32_t k);
rust::Vec<S2> c_make_Vec_S2(std::int32_t k);
rust::Vec<S2> c_try_Vec_S2(std::int32_t k, bool fail);
rust::Vec<S2> c_echo_Vec_S2(rust::Vec<S2> x, std::int32_t k);
bool c_mix_Vec_S2(std::uint8_t a, rust::Vec<S2> x, double b, std::int32_t k, rust::Vec<S2> y, std::uint16_t c);
bool c_cb_Vec_S2(rust::Fn<rust::Vec<S2>(rust::Vec<S2>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_S2(std::int32_t pos, std::int32_t k);
bool c_take_Vec_S7(rust::Vec<S7> x, std::int32_t k);
rust::Vec<S7> c_make_Vec_S7(std::int32_t k);
rust::Vec<S7> c_try_Vec_S7(std::int32_t k, bool fail);
rust::Vec<S7> c_echo_Vec_S7(rust::Vec<S7> x, std::int32_t k);
bool c_mix_Vec_S7(std::uint8_t a, rust::Vec<S7> x, double b, std::int32_t k, rust::Vec<S7> y, std::uint16_t c);
bool c_cb_Vec_S7(rust::Fn<rust::Vec<S7>(rust::Vec<S7>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_S7(std::int32_t pos, std::int32_t k);
bool c_take_Vec_RObj(rust::Vec<RObj> x, std::int32_t k);
rust::Vec<RObj> c_make_Vec_RObj(std::int32_t k);
rust::Vec<RObj> c_try_Vec_RObj(std::int32_t k, bool fail);
rust::Vec<RObj> c_echo_Vec_RObj(rust::Vec<RObj> x, std::int32_t k);
bool c_mix_Vec_RObj(std::uint8_t a, rust::Vec<RObj> x, double b, std::int32_t k, rust::Vec<RObj> y, std::uint16_t c);
bool c_cb_Vec_RObj(rust::Fn<rust::Vec<RObj>(rust::Vec<RObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_RObj(std::int32_t pos, std::int32_t k);
bool c_take_Vec_Ei8(rust::Vec<Ei8> x, std::int32_t k);
rust::Vec<Ei8> c_make_Vec_Ei8(std::int32_t k);
rust::Vec<Ei8> c_try_Vec_Ei8(std::int32_t k, bool fail);
rust::Vec<Ei8> c_echo_Vec_Ei8(rust::Vec<Ei8> x, std::int32_t k);
bool c_mix_Vec_Ei8(std::uint8_t a, rust::Vec<Ei8> x, double b, std::int32_t k, rust::Vec<Ei8> y, std::uint16_t c);
bool c_cb_Vec_Ei8(rust::Fn<rust::Vec<Ei8>(rust::Vec<Ei8>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_Ei8(std::int32_t pos, std::int32_t k);
bool c_take_Vec_TrivA(rust::Vec<TrivA> x, std::int32_t k);
rust::Vec<TrivA> c_make_Vec_TrivA(std::int32_t k);
rust::Vec<TrivA> c_try_Vec_TrivA(std::int32_t k, bool fail);
rust::Vec<TrivA> c_echo_Vec_TrivA(rust::Vec<TrivA> x, std::int32_t k);
bool c_mix_Vec_TrivA(std::uint8_t a, rust::Vec<TrivA> x, double b, std::int32_t k, rust::Vec<TrivA> y, std::uint16_t c);
bool c_cb_Vec_TrivA(rust::Fn<rust::Vec<TrivA>(rust::Vec<TrivA>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_Vec_TrivA(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k);
std::unique_ptr<CObj> c_make_UniquePtr_CObj(std::int32_t k);
std::unique_ptr<CObj> c_try_UniquePtr_CObj(std::int32_t k, bool fail);
std::unique_ptr<CObj> c_echo_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k);
bool c_mix_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> x, double b, std::int32_t k, std::unique_ptr<CObj> y, std::uint16_t c);
bool c_cb_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k);
std::unique_ptr<std::string> c_make_UniquePtr_CxxString(std::int32_t k);
std::unique_ptr<std::string> c_try_UniquePtr_CxxString(std::int32_t k, bool fail);
std::unique_ptr<std::string> c_echo_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k);
bool c_mix_UniquePtr_CxxString(std::uint8_t a, std::unique_ptr<std::string> x, double b, std::int32_t k, std::unique_ptr<std::string> y, std::uint16_t c);
bool c_cb_UniquePtr_CxxString(rust::Fn<std::unique_ptr<std::string>(std::unique_ptr<std::string>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CxxString(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_S2(std::unique_ptr<S2> x, std::int32_t k);
std::unique_ptr<S2> c_make_UniquePtr_S2(std::int32_t k);
std::unique_ptr<S2> c_try_UniquePtr_S2(std::int32_t k, bool fail);
std::unique_ptr<S2> c_echo_UniquePtr_S2(std::unique_ptr<S2> x, std::int32_t k);
bool c_mix_UniquePtr_S2(std::uint8_t a, std::unique_ptr<S2> x, double b, std::int32_t k, std::unique_ptr<S2> y, std::uint16_t c);
bool c_cb_UniquePtr_S2(rust::Fn<std::unique_ptr<S2>(std::unique_ptr<S2>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_S2(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_S7(std::unique_ptr<S7> x, std::int32_t k);
std::unique_ptr<S7> c_make_UniquePtr_S7(std::int32_t k);
std::unique_ptr<S7> c_try_UniquePtr_S7(std::int32_t k, bool fail);
std::unique_ptr<S7> c_echo_UniquePtr_S7(std::unique_ptr<S7> x, std::int32_t k);
bool c_mix_UniquePtr_S7(std::uint8_t a, std::unique_ptr<S7> x, double b, std::int32_t k, std::unique_ptr<S7> y, std::uint16_t c);
bool c_cb_UniquePtr_S7(rust::Fn<std::unique_ptr<S7>(std::unique_ptr<S7>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_S7(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_TrivA(std::unique_ptr<TrivA> x, std::int32_t k);
std::unique_ptr<TrivA> c_make_UniquePtr_TrivA(std::int32_t k);
std::unique_ptr<TrivA> c_try_UniquePtr_TrivA(std::int32_t k, bool fail);
std::unique_ptr<TrivA> c_echo_UniquePtr_TrivA(std::unique_ptr<TrivA> x, std::int32_t k);
bool c_mix_UniquePtr_TrivA(std::uint8_t a, std::unique_ptr<TrivA> x, double b, std::int32_t k, std::unique_ptr<TrivA> y, std::uint16_t c);
bool c_cb_UniquePtr_TrivA(rust::Fn<std::unique_ptr<TrivA>(std::unique_ptr<TrivA>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_TrivA(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> x, std::int32_t k);
std::unique_ptr<std::vector<std::uint16_t>> c_make_UniquePtr_CxxVector_u16(std::int32_t k);
std::unique_ptr<std::vector<std::uint16_t>> c_try_UniquePtr_CxxVector_u16(std::int32_t k, bool fail);
std::unique_ptr<std::vector<std::uint16_t>> c_echo_UniquePtr_CxxVector_u16(std::unique_ptr<std::vector<std::uint16_t>> x, std::int32_t k);
bool c_mix_UniquePtr_CxxVector_u16(std::uint8_t a, std::unique_ptr<std::vector<std::uint16_t>> x, double b, std::int32_t k, std::unique_ptr<std::vector<std::uint16_t>> y, std::uint16_t c);
bool c_cb_UniquePtr_CxxVector_u16(rust::Fn<std::unique_ptr<std::vector<std::uint16_t>>(std::unique_ptr<std::vector<std::uint16_t>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CxxVector_u16(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CxxVector_CxxString(std::unique_ptr<std::vector<std::string>> x, std::int32_t k);
std::unique_ptr<std::vector<std::string>> c_make_UniquePtr_CxxVector_CxxString(std::int32_t k);
std::unique_ptr<std::vector<std::string>> c_try_UniquePtr_CxxVector_CxxString(std::int32_t k, bool fail);
std::unique_ptr<std::vector<std::string>> c_echo_UniquePtr_CxxVector_CxxString(std::unique_ptr<std::vector<std::string>> x, std::int32_t k);
bool c_mix_UniquePtr_CxxVector_CxxString(std::uint8_t a, std::unique_ptr<std::vector<std::string>> x, double b, std::int32_t k, std::unique_ptr<std::vector<std::string>> y, std::uint16_t c);
bool c_cb_UniquePtr_CxxVector_CxxString(rust::Fn<std::unique_ptr<std::vector<std::string>>(std::unique_ptr<std::vector<std::string>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CxxVector_CxxString(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CxxVector_CObj(std::unique_ptr<std::vector<CObj>> x, std::int32_t k);
std::unique_ptr<std::vector<CObj>> c_make_UniquePtr_CxxVector_CObj(std::int32_t k);
std::unique_ptr<std::vector<CObj>> c_try_UniquePtr_CxxVector_CObj(std::int32_t k, bool fail);
std::unique_ptr<std::vector<CObj>> c_echo_UniquePtr_CxxVector_CObj(std::unique_ptr<std::vector<CObj>> x, std::int32_t k);
bool c_mix_UniquePtr_CxxVector_CObj(std::uint8_t a, std::unique_ptr<std::vector<CObj>> x, double b, std::int32_t k, std::unique_ptr<std::vector<CObj>> y, std::uint16_t c);
bool c_cb_UniquePtr_CxxVector_CObj(rust::Fn<std::unique_ptr<std::vector<CObj>>(std::unique_ptr<std::vector<CObj>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CxxVector_CObj(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> x, std::int32_t k);
std::unique_ptr<std::vector<S7>> c_make_UniquePtr_CxxVector_S7(std::int32_t k);
std::unique_ptr<std::vector<S7>> c_try_UniquePtr_CxxVector_S7(std::int32_t k, bool fail);
std::unique_ptr<std::vector<S7>> c_echo_UniquePtr_CxxVector_S7(std::unique_ptr<std::vector<S7>> x, std::int32_t k);
bool c_mix_UniquePtr_CxxVector_S7(std::uint8_t a, std::unique_ptr<std::vector<S7>> x, double b, std::int32_t k, std::unique_ptr<std::vector<S7>> y, std::uint16_t c);
bool c_cb_UniquePtr_CxxVector_S7(rust::Fn<std::unique_ptr<std::vector<S7>>(std::unique_ptr<std::vector<S7>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CxxVector_S7(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> x, std::int32_t k);
std::unique_ptr<std::vector<double>> c_make_UniquePtr_CxxVector_f64(std::int32_t k);
std::unique_ptr<std::vector<double>> c_try_UniquePtr_CxxVector_f64(std::int32_t k, bool fail);
std::unique_ptr<std::vector<double>> c_echo_UniquePtr_CxxVector_f64(std::unique_ptr<std::vector<double>> x, std::int32_t k);
bool c_mix_UniquePtr_CxxVector_f64(std::uint8_t a, std::unique_ptr<std::vector<double>> x, double b, std::int32_t k, std::unique_ptr<std::vector<double>> y, std::uint16_t c);
bool c_cb_UniquePtr_CxxVector_f64(rust::Fn<std::unique_ptr<std::vector<double>>(std::unique_ptr<std::vector<double>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CxxVector_f64(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
std::shared_ptr<CObj> c_make_SharedPtr_CObj(std::int32_t k);
std::shared_ptr<CObj> c_try_SharedPtr_CObj(std::int32_t k, bool fail);
std::shared_ptr<CObj> c_echo_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
bool c_mix_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> x, double b, std::int32_t k, std::shared_ptr<CObj> y, std::uint16_t c);
bool c_cb_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_CxxString(std::shared_ptr<std::string> x, std::int32_t k);
std::shared_ptr<std::string> c_make_SharedPtr_CxxString(std::int32_t k);
std::shared_ptr<std::string> c_try_SharedPtr_CxxString(std::int32_t k, bool fail);
std::shared_ptr<std::string> c_echo_SharedPtr_CxxString(std::shared_ptr<std::string> x, std::int32_t k);
bool c_mix_SharedPtr_CxxString(std::uint8_t a, std::shared_ptr<std::string> x, double b, std::int32_t k, std::shared_ptr<std::string> y, std::uint16_t c);
bool c_cb_SharedPtr_CxxString(rust::Fn<std::shared_ptr<std::string>(std::shared_ptr<std::string>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_CxxString(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_u32(std::shared_ptr<std::uint32_t> x, std::int32_t k);
std::shared_ptr<std::uint32_t> c_make_SharedPtr_u32(std::int32_t k);
std::shared_ptr<std::uint32_t> c_try_SharedPtr_u32(std::int32_t k, bool fail);
std::shared_ptr<std::uint32_t> c_echo_SharedPtr_u32(std::shared_ptr<std::uint32_t> x, std::int32_t k);
bool c_mix_SharedPtr_u32(std::uint8_t a, std::shared_ptr<std::uint32_t> x, double b, std::int32_t k, std::shared_ptr<std::uint32_t> y, std::uint16_t c);
bool c_cb_SharedPtr_u32(rust::Fn<std::shared_ptr<std::uint32_t>(std::shared_ptr<std::uint32_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_u32(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_bool(std::shared_ptr<bool> x, std::int32_t k);
std::shared_ptr<bool> c_make_SharedPtr_bool(std::int32_t k);
std::shared_ptr<bool> c_try_SharedPtr_bool(std::int32_t k, bool fail);
std::shared_ptr<bool> c_echo_SharedPtr_bool(std::shared_ptr<bool> x, std::int32_t k);
bool c_mix_SharedPtr_bool(std::uint8_t a, std::shared_ptr<bool> x, double b, std::int32_t k, std::shared_ptr<bool> y, std::uint16_t c);
bool c_cb_SharedPtr_bool(rust::Fn<std::shared_ptr<bool>(std::shared_ptr<bool>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_bool(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_f64(std::shared_ptr<double> x, std::int32_t k);
std::shared_ptr<double> c_make_SharedPtr_f64(std::int32_t k);
std::shared_ptr<double> c_try_SharedPtr_f64(std::int32_t k, bool fail);
std::shared_ptr<double> c_echo_SharedPtr_f64(std::shared_ptr<double> x, std::int32_t k);
bool c_mix_SharedPtr_f64(std::uint8_t a, std::shared_ptr<double> x, double b, std::int32_t k, std::shared_ptr<double> y, std::uint16_t c);
bool c_cb_SharedPtr_f64(rust::Fn<std::shared_ptr<double>(std::shared_ptr<double>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_f64(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_S7(std::shared_ptr<S7> x, std::int32_t k);
std::shared_ptr<S7> c_make_SharedPtr_S7(std::int32_t k);
std::shared_ptr<S7> c_try_SharedPtr_S7(std::int32_t k, bool fail);
std::shared_ptr<S7> c_echo_SharedPtr_S7(std::shared_ptr<S7> x, std::int32_t k);
bool c_mix_SharedPtr_S7(std::uint8_t a, std::shared_ptr<S7> x, double b, std::int32_t k, std::shared_ptr<S7> y, std::uint16_t c);
bool c_cb_SharedPtr_S7(rust::Fn<std::shared_ptr<S7>(std::shared_ptr<S7>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_S7(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_TrivA(std::shared_ptr<TrivA> x, std::int32_t k);
std::shared_ptr<TrivA> c_make_SharedPtr_TrivA(std::int32_t k);
std::shared_ptr<TrivA> c_try_SharedPtr_TrivA(std::int32_t k, bool fail);
std::shared_ptr<TrivA> c_echo_SharedPtr_TrivA(std::shared_ptr<TrivA> x, std::int32_t k);
bool c_mix_SharedPtr_TrivA(std::uint8_t a, std::shared_ptr<TrivA> x, double b, std::int32_t k, std::shared_ptr<TrivA> y, std::uint16_t c);
bool c_cb_SharedPtr_TrivA(rust::Fn<std::shared_ptr<TrivA>(std::shared_ptr<TrivA>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_TrivA(std::int32_t pos, std::int32_t k);
bool c_take_WeakPtr_CObj(std::weak_ptr<CObj> x, std::int32_t k);
std::weak_ptr<CObj> c_make_WeakPtr_CObj(std::int32_t k);
std::weak_ptr<CObj> c_try_WeakPtr_CObj(std::int32_t k, bool fail);
std::weak_ptr<CObj> c_echo_WeakPtr_CObj(std::weak_ptr<CObj> x, std::int32_t k);
bool c_mix_WeakPtr_CObj(std::uint8_t a, std::weak_ptr<CObj> x, double b, std::int32_t k, std::weak_ptr<CObj> y, std::uint16_t c);
bool c_cb_WeakPtr_CObj(rust::Fn<std::weak_ptr<CObj>(std::weak_ptr<CObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_WeakPtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_WeakPtr_CxxString(std::weak_ptr<std::string> x, std::int32_t k);
std::weak_ptr<std::string> c_make_WeakPtr_CxxString(std::int32_t k);
std::weak_ptr<std::string> c_try_WeakPtr_CxxString(std::int32_t k, bool fail);
std::weak_ptr<std::string> c_echo_WeakPtr_CxxString(std::weak_ptr<std::string> x, std::int32_t k);
bool c_mix_WeakPtr_CxxString(std::uint8_t a, std::weak_ptr<std::string> x, double b, std::int32_t k, std::weak_ptr<std::string> y, std::uint16_t c);
bool c_cb_WeakPtr_CxxString(rust::Fn<std::weak_ptr<std::string>(std::weak_ptr<std::string>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_WeakPtr_CxxString(std::int32_t pos, std::int32_t k);
bool c_take_WeakPtr_i64(std::weak_ptr<std::int64_t> x, std::int32_t k);
std::weak_ptr<std::int64_t> c_make_WeakPtr_i64(std::int32_t k);
std::weak_ptr<std::int64_t> c_try_WeakPtr_i64(std::int32_t k, bool fail);
std::weak_ptr<std::int64_t> c_echo_WeakPtr_i64(std::weak_ptr<std::int64_t> x, std::int32_t k);
bool c_mix_WeakPtr_i64(std::uint8_t a, std::weak_ptr<std::int64_t> x, double b, std::int32_t k, std::weak_ptr<std::int64_t> y, std::uint16_t c);
bool c_cb_WeakPtr_i64(rust::Fn<std::weak_ptr<std::int64_t>(std::weak_ptr<std::int64_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_WeakPtr_i64(std::int32_t pos, std::int32_t k);
bool c_take_WeakPtr_S2(std::weak_ptr<S2> x, std::int32_t k);
std::weak_ptr<S2> c_make_WeakPtr_S2(std::int32_t k);
std::weak_ptr<S2> c_try_WeakPtr_S2(std::int32_t k, bool fail);
std::weak_ptr<S2> c_echo_WeakPtr_S2(std::weak_ptr<S2> x, std::int32_t k);
bool c_mix_WeakPtr_S2(std::uint8_t a, std::weak_ptr<S2> x, double b, std::int32_t k, std::weak_ptr<S2> y, std::uint16_t c);
bool c_cb_WeakPtr_S2(rust::Fn<std::weak_ptr<S2>(std::weak_ptr<S2>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_WeakPtr_S2(std::int32_t pos, std::int32_t k);
bool c_take_ref_u8(std::uint8_t const & x, std::int32_t k);
std::uint8_t const & c_make_ref_u8(std::uint8_t const &, std::int32_t k);
std::uint8_t const & c_try_ref_u8(std::uint8_t const &, std::int32_t k, bool fail);
std::uint8_t const & c_echo_ref_u8(std::uint8_t const & x, std::int32_t k);
bool c_mix_ref_u8(std::uint8_t a, std::uint8_t const & x, double b, std::int32_t k, std::uint8_t const & y, std::uint16_t c);
bool c_cb_ref_u8(rust::Fn<std::uint8_t const &(std::uint8_t const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_u8(std::int32_t pos, std::int32_t k);
bool c_take_ref_u64(std::uint64_t const & x, std::int32_t k);
std::uint64_t const & c_make_ref_u64(std::uint8_t const &, std::int32_t k);
std::uint64_t const & c_try_ref_u64(std::uint8_t const &, std::int32_t k, bool fail);
std::uint64_t const & c_echo_ref_u64(std::uint64_t const & x, std::int32_t k);
bool c_mix_ref_u64(std::uint8_t a, std::uint64_t const & x, double b, std::int32_t k, std::uint64_t const & y, std::uint16_t c);
bool c_cb_ref_u64(rust::Fn<std::uint64_t const &(std::uint64_t const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_u64(std::int32_t pos, std::int32_t k);
bool c_take_ref_f64(double const & x, std::int32_t k);
double const & c_make_ref_f64(std::uint8_t const &, std::int32_t k);
double const & c_try_ref_f64(std::uint8_t const &, std::int32_t k, bool fail);
double const & c_echo_ref_f64(double const & x, std::int32_t k);
bool c_mix_ref_f64(std::uint8_t a, double const & x, double b, std::int32_t k, double const & y, std::uint16_t c);
bool c_cb_ref_f64(rust::Fn<double const &(double const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_f64(std::int32_t pos, std::int32_t k);
bool c_take_ref_bool(bool const & x, std::int32_t k);
bool const & c_make_ref_bool(std::uint8_t const &, std::int32_t k);
bool const & c_try_ref_bool(std::uint8_t const &, std::int32_t k, bool fail);
bool const & c_echo_ref_bool(bool const & x, std::int32_t k);
bool c_mix_ref_bool(std::uint8_t a, bool const & x, double b, std::int32_t k, bool const & y, std::uint16_t c);
bool c_cb_ref_bool(rust::Fn<bool const &(bool const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_bool(std::int32_t pos, std::int32_t k);
bool c_take_ref_String(rust::String const & x, std::int32_t k);
rust::String const & c_make_ref_String(std::uint8_t const &, std::int32_t k);
rust::String const & c_try_ref_String(std::uint8_t const &, std::int32_t k, bool fail);
rust::String const & c_echo_ref_String(rust::String const & x, std::int32_t k);
bool c_mix_ref_String(std::uint8_t a, rust::String const & x, double b, std::int32_t k, rust::String const & y, std::uint16_t c);
bool c_cb_ref_String(rust::Fn<rust::String const &(rust::String const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_String(std::int32_t pos, std::int32_t k);
bool c_take_ref_S2(S2 const & x, std::int32_t k);
S2 const & c_make_ref_S2(std::uint8_t const &, std::int32_t k);
S2 const & c_try_ref_S2(std::uint8_t const &, std::int32_t k, bool fail);
S2 const & c_echo_ref_S2(S2 const & x, std::int32_t k);
bool c_mix_ref_S2(std::uint8_t a, S2 const & x, double b, std::int32_t k, S2 const & y, std::uint16_t c);
bool c_cb_ref_S2(rust::Fn<S2 const &(S2 const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_S2(std::int32_t pos, std::int32_t k);
bool c_take_ref_S7(S7 const & x, std::int32_t k);
S7 const & c_make_ref_S7(std::uint8_t const &, std::int32_t k);
S7 const & c_try_ref_S7(std::uint8_t const &, std::int32_t k, bool fail);
S7 const & c_echo_ref_S7(S7 const & x, std::int32_t k);
bool c_mix_ref_S7(std::uint8_t a, S7 const & x, double b, std::int32_t k, S7 const & y, std::uint16_t c);
bool c_cb_ref_S7(rust::Fn<S7 const &(S7 const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_S7(std::int32_t pos, std::int32_t k);
bool c_take_ref_RObj(RObj const & x, std::int32_t k);
RObj const & c_make_ref_RObj(std::uint8_t const &, std::int32_t k);
RObj const & c_try_ref_RObj(std::uint8_t const &, std::int32_t k, bool fail);
RObj const & c_echo_ref_RObj(RObj const & x, std::int32_t k);
bool c_mix_ref_RObj(std::uint8_t a, RObj const & x, double b, std::int32_t k, RObj const & y, std::uint16_t c);
bool c_cb_ref_RObj(rust::Fn<RObj const &(RObj const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_RObj(std::int32_t pos, std::int32_t k);
bool c_take_ref_CObj(CObj const & x, std::int32_t k);
CObj const & c_make_ref_CObj(std::uint8_t const &, std::int32_t k);
CObj const & c_try_ref_CObj(std::uint8_t const &, std::int32_t k, bool fail);
CObj const & c_echo_ref_CObj(CObj const & x, std::int32_t k);
bool c_mix_ref_CObj(std::uint8_t a, CObj const & x, double b, std::int32_t k, CObj const & y, std::uint16_t c);
bool c_cb_ref_CObj(rust::Fn<CObj const &(CObj const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_CObj(std::int32_t pos, std::int32_t k);
bool c_take_ref_CxxString(std::string const & x, std::int32_t k);
std::string const & c_make_ref_CxxString(std::uint8_t const &, std::int32_t k);
std::string const & c_try_ref_CxxString(std::uint8_t const &, std::int32_t k, bool fail);
std::string const & c_echo_ref_CxxString(std::string const & x, std::int32_t k);
bool c_mix_ref_CxxString(std::uint8_t a, std::string const & x, double b, std::int32_t k, std::string const & y, std::uint16_t c);
bool c_cb_ref_CxxString(rust::Fn<std::string const &(std::string const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_CxxString(std::int32_t pos, std::int32_t k);
bool c_take_ref_CxxVector_u8(std::vector<std::uint8_t> const & x, std::int32_t k);
std::vector<std::uint8_t> const & c_make_ref_CxxVector_u8(std::uint8_t const &, std::int32_t k);
std::vector<std::uint8_t> const & c_try_ref_CxxVector_u8(std::uint8_t const &, std::int32_t k, bool fail);
std::vector<std::uint8_t> const & c_echo_ref_CxxVector_u8(std::vector<std::uint8_t> const & x, std::int32_t k);
bool c_mix_ref_CxxVector_u8(std::uint8_t a, std::vector<std::uint8_t> const & x, double b, std::int32_t k, std::vector<std::uint8_t> const & y, std::uint16_t c);
bool c_cb_ref_CxxVector_u8(rust::Fn<std::vector<std::uint8_t> const &(std::vector<std::uint8_t> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_CxxVector_u8(std::int32_t pos, std::int32_t k);
bool c_take_ref_CxxVector_CxxString(std::vector<std::string> const & x, std::int32_t k);
std::vector<std::string> const & c_make_ref_CxxVector_CxxString(std::uint8_t const &, std::int32_t k);
std::vector<std::string> const & c_try_ref_CxxVector_CxxString(std::uint8_t const &, std::int32_t k, bool fail);
std::vector<std::string> const & c_echo_ref_CxxVector_CxxString(std::vector<std::string> const & x, std::int32_t k);
bool c_mix_ref_CxxVector_CxxString(std::uint8_t a, std::vector<std::string> const & x, double b, std::int32_t k, std::vector<std::string> const & y, std::uint16_t c);
bool c_cb_ref_CxxVector_CxxString(rust::Fn<std::vector<std::string> const &(std::vector<std::string> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_CxxVector_CxxString(std::int32_t pos, std::int32_t k);
bool c_take_ref_Vec_u8(rust::Vec<std::uint8_t> const & x, std::int32_t k);
rust::Vec<std::uint8_t> const & c_make_ref_Vec_u8(std::uint8_t const &, std::int32_t k);
rust::Vec<std::uint8_t> const & c_try_ref_Vec_u8(std::uint8_t const &, std::int32_t k, bool fail);
rust::Vec<std::uint8_t> const & c_echo_ref_Vec_u8(rust::Vec<std::uint8_t> const & x, std::int32_t k);
bool c_mix_ref_Vec_u8(std::uint8_t a, rust::Vec<std::uint8_t> const & x, double b, std::int32_t k, rust::Vec<std::uint8_t> const & y, std::uint16_t c);
bool c_cb_ref_Vec_u8(rust::Fn<rust::Vec<std::uint8_t> const &(rust::Vec<std::uint8_t> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_Vec_u8(std::int32_t pos, std::int32_t k);
bool c_take_ref_Vec_String(rust::Vec<rust::String> const & x, std::int32_t k);
rust::Vec<rust::String> const & c_make_ref_Vec_String(std::uint8_t const &, std::int32_t k);
rust::Vec<rust::String> const & c_try_ref_Vec_String(std::uint8_t const &, std::int32_t k, bool fail);
rust::Vec<rust::String> const & c_echo_ref_Vec_String(rust::Vec<rust::String> const & x, std::int32_t k);
bool c_mix_ref_Vec_String(std::uint8_t a, rust::Vec<rust::String> const & x, double b, std::int32_t k, rust::Vec<rust::String> const & y, std::uint16_t c);
bool c_cb_ref_Vec_String(rust::Fn<rust::Vec<rust::String> const &(rust::Vec<rust::String> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_Vec_String(std::int32_t pos, std::int32_t k);
bool c_take_ref_Vec_RObj(rust::Vec<RObj> const & x, std::int32_t k);
rust::Vec<RObj> const & c_make_ref_Vec_RObj(std::uint8_t const &, std::int32_t k);
rust::Vec<RObj> const & c_try_ref_Vec_RObj(std::uint8_t const &, std::int32_t k, bool fail);
rust::Vec<RObj> const & c_echo_ref_Vec_RObj(rust::Vec<RObj> const & x, std::int32_t k);
bool c_mix_ref_Vec_RObj(std::uint8_t a, rust::Vec<RObj> const & x, double b, std::int32_t k, rust::Vec<RObj> const & y, std::uint16_t c);
bool c_cb_ref_Vec_RObj(rust::Fn<rust::Vec<RObj> const &(rust::Vec<RObj> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_Vec_RObj(std::int32_t pos, std::int32_t k);
bool c_take_ref_Box_RObj(rust::Box<RObj> const & x, std::int32_t k);
rust::Box<RObj> const & c_make_ref_Box_RObj(std::uint8_t const &, std::int32_t k);
rust::Box<RObj> const & c_try_ref_Box_RObj(std::uint8_t const &, std::int32_t k, bool fail);
rust::Box<RObj> const & c_echo_ref_Box_RObj(rust::Box<RObj> const & x, std::int32_t k);
bool c_mix_ref_Box_RObj(std::uint8_t a, rust::Box<RObj> const & x, double b, std::int32_t k, rust::Box<RObj> const & y, std::uint16_t c);
bool c_cb_ref_Box_RObj(rust::Fn<rust::Box<RObj> const &(rust::Box<RObj> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_Box_RObj(std::int32_t pos, std::int32_t k);
bool c_take_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & x, std::int32_t k);
std::unique_ptr<CObj> const & c_make_ref_UniquePtr_CObj(std::uint8_t const &, std::int32_t k);
std::unique_ptr<CObj> const & c_try_ref_UniquePtr_CObj(std::uint8_t const &, std::int32_t k, bool fail);
std::unique_ptr<CObj> const & c_echo_ref_UniquePtr_CObj(std::unique_ptr<CObj> const & x, std::int32_t k);
bool c_mix_ref_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> const & x, double b, std::int32_t k, std::unique_ptr<CObj> const & y, std::uint16_t c);
bool c_cb_ref_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj> const &(std::unique_ptr<CObj> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_UniquePtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_ref_SharedPtr_CObj(std::shared_ptr<CObj> const & x, std::int32_t k);
std::shared_ptr<CObj> const & c_make_ref_SharedPtr_CObj(std::uint8_t const &, std::int32_t k);
std::shared_ptr<CObj> const & c_try_ref_SharedPtr_CObj(std::uint8_t const &, std::int32_t k, bool fail);
std::shared_ptr<CObj> const & c_echo_ref_SharedPtr_CObj(std::shared_ptr<CObj> const & x, std::int32_t k);
bool c_mix_ref_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> const & x, double b, std::int32_t k, std::shared_ptr<CObj> const & y, std::uint16_t c);
bool c_cb_ref_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj> const &(std::shared_ptr<CObj> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_SharedPtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_ref_WeakPtr_CObj(std::weak_ptr<CObj> const & x, std::int32_t k);
std::weak_ptr<CObj> const & c_make_ref_WeakPtr_CObj(std::uint8_t const &, std::int32_t k);
std::weak_ptr<CObj> const & c_try_ref_WeakPtr_CObj(std::uint8_t const &, std::int32_t k, bool fail);
std::weak_ptr<CObj> const & c_echo_ref_WeakPtr_CObj(std::weak_ptr<CObj> const & x, std::int32_t k);
bool c_mix_ref_WeakPtr_CObj(std::uint8_t a, std::weak_ptr<CObj> const & x, double b, std::int32_t k, std::weak_ptr<CObj> const & y, std::uint16_t c);
bool c_cb_ref_WeakPtr_CObj(rust::Fn<std::weak_ptr<CObj> const &(std::weak_ptr<CObj> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_WeakPtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_ref_Eu8(Eu8 const & x, std::int32_t k);
Eu8 const & c_make_ref_Eu8(std::uint8_t const &, std::int32_t k);
Eu8 const & c_try_ref_Eu8(std::uint8_t const &, std::int32_t k, bool fail);
Eu8 const & c_echo_ref_Eu8(Eu8 const & x, std::int32_t k);
bool c_mix_ref_Eu8(std::uint8_t a, Eu8 const & x, double b, std::int32_t k, Eu8 const & y, std::uint16_t c);
bool c_cb_ref_Eu8(rust::Fn<Eu8 const &(Eu8 const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_Eu8(std::int32_t pos, std::int32_t k);
bool c_take_ref_TrivA(TrivA const & x, std::int32_t k);
TrivA const & c_make_ref_TrivA(std::uint8_t const &, std::int32_t k);
TrivA const & c_try_ref_TrivA(std::uint8_t const &, std::int32_t k, bool fail);
TrivA const & c_echo_ref_TrivA(TrivA const & x, std::int32_t k);
bool c_mix_ref_TrivA(std::uint8_t a, TrivA const & x, double b, std::int32_t k, TrivA const & y, std::uint16_t c);
bool c_cb_ref_TrivA(rust::Fn<TrivA const &(TrivA const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_TrivA(std::int32_t pos, std::int32_t k);
} // namespace c09b
