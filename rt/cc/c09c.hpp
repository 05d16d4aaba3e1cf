// Generated by gen_sig.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
extern "C" std::uintptr_t vk_addr_c09c;
namespace c09c {
static inline void note(std::uintptr_t a) { vk_addr_c09c = a; }
static const void *volatile vk_sink;
static const std::string TXT[4] = {"", "a", std::string("h\xc3\xa9\0x", 5), "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\xf0\x9f\x98\x80"};
struct RObj;
struct S3;
struct S2;
struct S7;
enum class Ei32 : std::int32_t;
struct TrivB { double f0; double f1;  };
enum class Ei8 : std::int8_t;
struct TrivA { std::int32_t f0;  };
enum class Eu16 : std::uint16_t;
struct TrivC { std::uint64_t f0; std::uint8_t f1; std::uint64_t f2; std::uint16_t f3;  };
class CObj {
  int t; std::string pad; const CObj *self = this;
public:
  explicit CObj(int k) : t(k), pad(TXT[k]) {}
  CObj(const CObj &o) : t(o.t), pad(o.pad) {}
  CObj &operator=(const CObj &o) { t = o.t; pad = o.pad; return *this; }
  std::int32_t c_tag() const { return self == this && pad == TXT[t] ? t : -1; }
  void c_set(std::int32_t k) { t = k; pad = TXT[k]; }
  bool c_m_ref_arr4_u8(std::array<std::uint8_t, 4> const & x, std::int32_t k) const;
  bool c_m_mut_u8(std::uint8_t & x, std::int32_t k);
  bool c_m_mut_bool(bool & x, std::int32_t k) const;
  bool c_m_mut_String(rust::String & x, std::int32_t k);
  bool c_m_mut_RObj(RObj & x, std::int32_t k) const;
  bool c_m_mut_CObj(CObj & x, std::int32_t k);
  bool c_m_mut_CxxVector_S2(std::vector<S2> & x, std::int32_t k) const;
  bool c_m_mut_Vec_u8(rust::Vec<std::uint8_t> & x, std::int32_t k);
  bool c_m_mut_UniquePtr_CObj(std::unique_ptr<CObj> & x, std::int32_t k) const;
  bool c_m_mut_SharedPtr_CObj(std::shared_ptr<CObj> & x, std::int32_t k);
  bool c_m_mut_arr3_S2(std::array<S2, 3> & x, std::int32_t k) const;
  bool c_m_sl_u8(rust::Slice<const std::uint8_t> x, std::int32_t k);
  bool c_m_sl_f64(rust::Slice<const double> x, std::int32_t k) const;
  bool c_m_sl_bool(rust::Slice<const bool> x, std::int32_t k);
  bool c_m_sl_String(rust::Slice<const rust::String> x, std::int32_t k) const;
  bool c_m_sl_S2(rust::Slice<const S2> x, std::int32_t k);
  bool c_m_sl_TrivA(rust::Slice<const TrivA> x, std::int32_t k) const;
  bool c_m_sl_RObj(rust::Slice<const RObj> x, std::int32_t k);
  bool c_m_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> x, std::int32_t k) const;
  bool c_m_sl_f32(rust::Slice<const float> x, std::int32_t k);
  bool c_m_slm_u8(rust::Slice<std::uint8_t> x, std::int32_t k) const;
  bool c_m_slm_i64(rust::Slice<std::int64_t> x, std::int32_t k);
  bool c_m_slm_S7(rust::Slice<S7> x, std::int32_t k) const;
  bool c_m_slm_RObj(rust::Slice<RObj> x, std::int32_t k);
  bool c_m_slm_TrivC(rust::Slice<TrivC> x, std::int32_t k) const;
  bool c_m_slm_Box_RObj(rust::Slice<rust::Box<RObj>> x, std::int32_t k);
  S2 const * c_m_ptrconst_S2(S2 const * x, std::int32_t k) const;
  S7 * c_m_ptrmut_S7(S7 * x, std::int32_t k);
  RObj const * c_m_ptrconst_RObj(RObj const * x, std::int32_t k) const;
  RObj * c_m_ptrmut_RObj(RObj * x, std::int32_t k);
  std::shared_ptr<CObj> c_m_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) const;
};
std::unique_ptr<CObj> c_store_CObj(std::int32_t k);
std::unique_ptr<std::string> c_store_CxxString(std::int32_t k);
std::unique_ptr<std::vector<std::uint8_t>> c_store_CxxVector_u8(std::int32_t k);
std::unique_ptr<std::vector<S2>> c_store_CxxVector_S2(std::int32_t k);
bool c_take_ref_arr4_u8(std::array<std::uint8_t, 4> const & x, std::int32_t k);
std::array<std::uint8_t, 4> const & c_make_ref_arr4_u8(std::uint8_t const &, std::int32_t k);
std::array<std::uint8_t, 4> const & c_try_ref_arr4_u8(std::uint8_t const &, std::int32_t k, bool fail);
std::array<std::uint8_t, 4> const & c_echo_ref_arr4_u8(std::array<std::uint8_t, 4> const & x, std::int32_t k);
bool c_mix_ref_arr4_u8(std::uint8_t a, std::array<std::uint8_t, 4> const & x, double b, std::int32_t k, std::array<std::uint8_t, 4> const & y, std::uint16_t c);
bool c_cb_ref_arr4_u8(rust::Fn<std::array<std::uint8_t, 4> const &(std::array<std::uint8_t, 4> const &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_ref_arr4_u8(std::int32_t pos, std::int32_t k);
bool c_take_mut_u8(std::uint8_t & x, std::int32_t k);
std::uint8_t & c_make_mut_u8(std::uint8_t &, std::int32_t k);
std::uint8_t & c_try_mut_u8(std::uint8_t &, std::int32_t k, bool fail);
std::uint8_t & c_echo_mut_u8(std::uint8_t & x, std::int32_t k);
bool c_mix_mut_u8(std::uint8_t a, std::uint8_t & x, double b, std::int32_t k, std::uint8_t & y, std::uint16_t c);
bool c_cb_mut_u8(rust::Fn<std::uint8_t &(std::uint8_t &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_u8(std::int32_t pos, std::int32_t k);
bool c_take_mut_i64(std::int64_t & x, std::int32_t k);
std::int64_t & c_make_mut_i64(std::uint8_t &, std::int32_t k);
std::int64_t & c_try_mut_i64(std::uint8_t &, std::int32_t k, bool fail);
std::int64_t & c_echo_mut_i64(std::int64_t & x, std::int32_t k);
bool c_mix_mut_i64(std::uint8_t a, std::int64_t & x, double b, std::int32_t k, std::int64_t & y, std::uint16_t c);
bool c_cb_mut_i64(rust::Fn<std::int64_t &(std::int64_t &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_i64(std::int32_t pos, std::int32_t k);
bool c_take_mut_f32(float & x, std::int32_t k);
float & c_make_mut_f32(std::uint8_t &, std::int32_t k);
float & c_try_mut_f32(std::uint8_t &, std::int32_t k, bool fail);
float & c_echo_mut_f32(float & x, std::int32_t k);
bool c_mix_mut_f32(std::uint8_t a, float & x, double b, std::int32_t k, float & y, std::uint16_t c);
bool c_cb_mut_f32(rust::Fn<float &(float &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_f32(std::int32_t pos, std::int32_t k);
bool c_take_mut_bool(bool & x, std::int32_t k);
bool & c_make_mut_bool(std::uint8_t &, std::int32_t k);
bool & c_try_mut_bool(std::uint8_t &, std::int32_t k, bool fail);
bool & c_echo_mut_bool(bool & x, std::int32_t k);
bool c_mix_mut_bool(std::uint8_t a, bool & x, double b, std::int32_t k, bool & y, std::uint16_t c);
bool c_cb_mut_bool(rust::Fn<bool &(bool &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_bool(std::int32_t pos, std::int32_t k);
bool c_take_mut_String(rust::String & x, std::int32_t k);
rust::String & c_make_mut_String(std::uint8_t &, std::int32_t k);
rust::String & c_try_mut_String(std::uint8_t &, std::int32_t k, bool fail);
rust::String & c_echo_mut_String(rust::String & x, std::int32_t k);
bool c_mix_mut_String(std::uint8_t a, rust::String & x, double b, std::int32_t k, rust::String & y, std::uint16_t c);
bool c_cb_mut_String(rust::Fn<rust::String &(rust::String &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_String(std::int32_t pos, std::int32_t k);
bool c_take_mut_S2(S2 & x, std::int32_t k);
S2 & c_make_mut_S2(std::uint8_t &, std::int32_t k);
S2 & c_try_mut_S2(std::uint8_t &, std::int32_t k, bool fail);
S2 & c_echo_mut_S2(S2 & x, std::int32_t k);
bool c_mix_mut_S2(std::uint8_t a, S2 & x, double b, std::int32_t k, S2 & y, std::uint16_t c);
bool c_cb_mut_S2(rust::Fn<S2 &(S2 &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_S2(std::int32_t pos, std::int32_t k);
bool c_take_mut_S7(S7 & x, std::int32_t k);
S7 & c_make_mut_S7(std::uint8_t &, std::int32_t k);
S7 & c_try_mut_S7(std::uint8_t &, std::int32_t k, bool fail);
S7 & c_echo_mut_S7(S7 & x, std::int32_t k);
bool c_mix_mut_S7(std::uint8_t a, S7 & x, double b, std::int32_t k, S7 & y, std::uint16_t c);
bool c_cb_mut_S7(rust::Fn<S7 &(S7 &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_S7(std::int32_t pos, std::int32_t k);
bool c_take_mut_RObj(RObj & x, std::int32_t k);
RObj & c_make_mut_RObj(std::uint8_t &, std::int32_t k);
RObj & c_try_mut_RObj(std::uint8_t &, std::int32_t k, bool fail);
RObj & c_echo_mut_RObj(RObj & x, std::int32_t k);
bool c_mix_mut_RObj(std::uint8_t a, RObj & x, double b, std::int32_t k, RObj & y, std::uint16_t c);
bool c_cb_mut_RObj(rust::Fn<RObj &(RObj &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_RObj(std::int32_t pos, std::int32_t k);
bool c_take_mut_CObj(CObj & x, std::int32_t k);
CObj & c_make_mut_CObj(std::uint8_t &, std::int32_t k);
CObj & c_try_mut_CObj(std::uint8_t &, std::int32_t k, bool fail);
CObj & c_echo_mut_CObj(CObj & x, std::int32_t k);
bool c_mix_mut_CObj(std::uint8_t a, CObj & x, double b, std::int32_t k, CObj & y, std::uint16_t c);
bool c_cb_mut_CObj(rust::Fn<CObj &(CObj &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_CObj(std::int32_t pos, std::int32_t k);
bool c_take_mut_CxxString(std::string & x, std::int32_t k);
std::string & c_make_mut_CxxString(std::uint8_t &, std::int32_t k);
std::string & c_try_mut_CxxString(std::uint8_t &, std::int32_t k, bool fail);
std::string & c_echo_mut_CxxString(std::string & x, std::int32_t k);
bool c_mix_mut_CxxString(std::uint8_t a, std::string & x, double b, std::int32_t k, std::string & y, std::uint16_t c);
bool c_cb_mut_CxxString(rust::Fn<std::string &(std::string &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_CxxString(std::int32_t pos, std::int32_t k);
bool c_take_mut_CxxVector_u8(std::vector<std::uint8_t> & x, std::int32_t k);
std::vector<std::uint8_t> & c_make_mut_CxxVector_u8(std::uint8_t &, std::int32_t k);
std::vector<std::uint8_t> & c_try_mut_CxxVector_u8(std::uint8_t &, std::int32_t k, bool fail);
std::vector<std::uint8_t> & c_echo_mut_CxxVector_u8(std::vector<std::uint8_t> & x, std::int32_t k);
bool c_mix_mut_CxxVector_u8(std::uint8_t a, std::vector<std::uint8_t> & x, double b, std::int32_t k, std::vector<std::uint8_t> & y, std::uint16_t c);
bool c_cb_mut_CxxVector_u8(rust::Fn<std::vector<std::uint8_t> &(std::vector<std::uint8_t> &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_CxxVector_u8(std::int32_t pos, std::int32_t k);
bool c_take_mut_CxxVector_S2(std::vector<S2> & x, std::int32_t k);
std::vector<S2> & c_make_mut_CxxVector_S2(std::uint8_t &, std::int32_t k);
std::vector<S2> & c_try_mut_CxxVector_S2(std::uint8_t &, std::int32_t k, bool fail);
std::vector<S2> & c_echo_mut_CxxVector_S2(std::vector<S2> & x, std::int32_t k);
bool c_mix_mut_CxxVector_S2(std::uint8_t a, std::vector<S2> & x, double b, std::int32_t k, std::vector<S2> & y, std::uint16_t c);
bool c_cb_mut_CxxVector_S2(rust::Fn<std::vector<S2> &(std::vector<S2> &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_CxxVector_S2(std::int32_t pos, std::int32_t k);
bool c_take_mut_Vec_u8(rust::Vec<std::uint8_t> & x, std::int32_t k);
rust::Vec<std::uint8_t> & c_make_mut_Vec_u8(std::uint8_t &, std::int32_t k);
rust::Vec<std::uint8_t> & c_try_mut_Vec_u8(std::uint8_t &, std::int32_t k, bool fail);
rust::Vec<std::uint8_t> & c_echo_mut_Vec_u8(rust::Vec<std::uint8_t> & x, std::int32_t k);
bool c_mix_mut_Vec_u8(std::uint8_t a, rust::Vec<std::uint8_t> & x, double b, std::int32_t k, rust::Vec<std::uint8_t> & y, std::uint16_t c);
bool c_cb_mut_Vec_u8(rust::Fn<rust::Vec<std::uint8_t> &(rust::Vec<std::uint8_t> &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_Vec_u8(std::int32_t pos, std::int32_t k);
bool c_take_mut_Vec_String(rust::Vec<rust::String> & x, std::int32_t k);
rust::Vec<rust::String> & c_make_mut_Vec_String(std::uint8_t &, std::int32_t k);
rust::Vec<rust::String> & c_try_mut_Vec_String(std::uint8_t &, std::int32_t k, bool fail);
rust::Vec<rust::String> & c_echo_mut_Vec_String(rust::Vec<rust::String> & x, std::int32_t k);
bool c_mix_mut_Vec_String(std::uint8_t a, rust::Vec<rust::String> & x, double b, std::int32_t k, rust::Vec<rust::String> & y, std::uint16_t c);
bool c_cb_mut_Vec_String(rust::Fn<rust::Vec<rust::String> &(rust::Vec<rust::String> &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_Vec_String(std::int32_t pos, std::int32_t k);
bool c_take_mut_Box_RObj(rust::Box<RObj> & x, std::int32_t k);
rust::Box<RObj> & c_make_mut_Box_RObj(std::uint8_t &, std::int32_t k);
rust::Box<RObj> & c_try_mut_Box_RObj(std::uint8_t &, std::int32_t k, bool fail);
rust::Box<RObj> & c_echo_mut_Box_RObj(rust::Box<RObj> & x, std::int32_t k);
bool c_mix_mut_Box_RObj(std::uint8_t a, rust::Box<RObj> & x, double b, std::int32_t k, rust::Box<RObj> & y, std::uint16_t c);
bool c_cb_mut_Box_RObj(rust::Fn<rust::Box<RObj> &(rust::Box<RObj> &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_Box_RObj(std::int32_t pos, std::int32_t k);
bool c_take_mut_UniquePtr_CObj(std::unique_ptr<CObj> & x, std::int32_t k);
std::unique_ptr<CObj> & c_make_mut_UniquePtr_CObj(std::uint8_t &, std::int32_t k);
std::unique_ptr<CObj> & c_try_mut_UniquePtr_CObj(std::uint8_t &, std::int32_t k, bool fail);
std::unique_ptr<CObj> & c_echo_mut_UniquePtr_CObj(std::unique_ptr<CObj> & x, std::int32_t k);
bool c_mix_mut_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> & x, double b, std::int32_t k, std::unique_ptr<CObj> & y, std::uint16_t c);
bool c_cb_mut_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj> &(std::unique_ptr<CObj> &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_UniquePtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_mut_SharedPtr_CObj(std::shared_ptr<CObj> & x, std::int32_t k);
std::shared_ptr<CObj> & c_make_mut_SharedPtr_CObj(std::uint8_t &, std::int32_t k);
std::shared_ptr<CObj> & c_try_mut_SharedPtr_CObj(std::uint8_t &, std::int32_t k, bool fail);
std::shared_ptr<CObj> & c_echo_mut_SharedPtr_CObj(std::shared_ptr<CObj> & x, std::int32_t k);
bool c_mix_mut_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> & x, double b, std::int32_t k, std::shared_ptr<CObj> & y, std::uint16_t c);
bool c_cb_mut_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj> &(std::shared_ptr<CObj> &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_SharedPtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_mut_Ei32(Ei32 & x, std::int32_t k);
Ei32 & c_make_mut_Ei32(std::uint8_t &, std::int32_t k);
Ei32 & c_try_mut_Ei32(std::uint8_t &, std::int32_t k, bool fail);
Ei32 & c_echo_mut_Ei32(Ei32 & x, std::int32_t k);
bool c_mix_mut_Ei32(std::uint8_t a, Ei32 & x, double b, std::int32_t k, Ei32 & y, std::uint16_t c);
bool c_cb_mut_Ei32(rust::Fn<Ei32 &(Ei32 &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_Ei32(std::int32_t pos, std::int32_t k);
bool c_take_mut_TrivB(TrivB & x, std::int32_t k);
TrivB & c_make_mut_TrivB(std::uint8_t &, std::int32_t k);
TrivB & c_try_mut_TrivB(std::uint8_t &, std::int32_t k, bool fail);
TrivB & c_echo_mut_TrivB(TrivB & x, std::int32_t k);
bool c_mix_mut_TrivB(std::uint8_t a, TrivB & x, double b, std::int32_t k, TrivB & y, std::uint16_t c);
bool c_cb_mut_TrivB(rust::Fn<TrivB &(TrivB &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_TrivB(std::int32_t pos, std::int32_t k);
bool c_take_mut_arr3_S2(std::array<S2, 3> & x, std::int32_t k);
std::array<S2, 3> & c_make_mut_arr3_S2(std::uint8_t &, std::int32_t k);
std::array<S2, 3> & c_try_mut_arr3_S2(std::uint8_t &, std::int32_t k, bool fail);
std::array<S2, 3> & c_echo_mut_arr3_S2(std::array<S2, 3> & x, std::int32_t k);
bool c_mix_mut_arr3_S2(std::uint8_t a, std::array<S2, 3> & x, double b, std::int32_t k, std::array<S2, 3> & y, std::uint16_t c);
bool c_cb_mut_arr3_S2(rust::Fn<std::array<S2, 3> &(std::array<S2, 3> &, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_mut_arr3_S2(std::int32_t pos, std::int32_t k);
bool c_take_sl_u8(rust::Slice<const std::uint8_t> x, std::int32_t k);
rust::Slice<const std::uint8_t> c_make_sl_u8(std::uint8_t const &, std::int32_t k);
rust::Slice<const std::uint8_t> c_try_sl_u8(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const std::uint8_t> c_echo_sl_u8(rust::Slice<const std::uint8_t> x, std::int32_t k);
bool c_mix_sl_u8(std::uint8_t a, rust::Slice<const std::uint8_t> x, double b, std::int32_t k, rust::Slice<const std::uint8_t> y, std::uint16_t c);
bool c_cb_sl_u8(rust::Fn<rust::Slice<const std::uint8_t>(rust::Slice<const std::uint8_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_u8(std::int32_t pos, std::int32_t k);
bool c_take_sl_u16(rust::Slice<const std::uint16_t> x, std::int32_t k);
rust::Slice<const std::uint16_t> c_make_sl_u16(std::uint8_t const &, std::int32_t k);
rust::Slice<const std::uint16_t> c_try_sl_u16(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const std::uint16_t> c_echo_sl_u16(rust::Slice<const std::uint16_t> x, std::int32_t k);
bool c_mix_sl_u16(std::uint8_t a, rust::Slice<const std::uint16_t> x, double b, std::int32_t k, rust::Slice<const std::uint16_t> y, std::uint16_t c);
bool c_cb_sl_u16(rust::Fn<rust::Slice<const std::uint16_t>(rust::Slice<const std::uint16_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_u16(std::int32_t pos, std::int32_t k);
bool c_take_sl_i32(rust::Slice<const std::int32_t> x, std::int32_t k);
rust::Slice<const std::int32_t> c_make_sl_i32(std::uint8_t const &, std::int32_t k);
rust::Slice<const std::int32_t> c_try_sl_i32(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const std::int32_t> c_echo_sl_i32(rust::Slice<const std::int32_t> x, std::int32_t k);
bool c_mix_sl_i32(std::uint8_t a, rust::Slice<const std::int32_t> x, double b, std::int32_t k, rust::Slice<const std::int32_t> y, std::uint16_t c);
bool c_cb_sl_i32(rust::Fn<rust::Slice<const std::int32_t>(rust::Slice<const std::int32_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_i32(std::int32_t pos, std::int32_t k);
bool c_take_sl_f64(rust::Slice<const double> x, std::int32_t k);
rust::Slice<const double> c_make_sl_f64(std::uint8_t const &, std::int32_t k);
rust::Slice<const double> c_try_sl_f64(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const double> c_echo_sl_f64(rust::Slice<const double> x, std::int32_t k);
bool c_mix_sl_f64(std::uint8_t a, rust::Slice<const double> x, double b, std::int32_t k, rust::Slice<const double> y, std::uint16_t c);
bool c_cb_sl_f64(rust::Fn<rust::Slice<const double>(rust::Slice<const double>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_f64(std::int32_t pos, std::int32_t k);
bool c_take_sl_bool(rust::Slice<const bool> x, std::int32_t k);
rust::Slice<const bool> c_make_sl_bool(std::uint8_t const &, std::int32_t k);
rust::Slice<const bool> c_try_sl_bool(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const bool> c_echo_sl_bool(rust::Slice<const bool> x, std::int32_t k);
bool c_mix_sl_bool(std::uint8_t a, rust::Slice<const bool> x, double b, std::int32_t k, rust::Slice<const bool> y, std::uint16_t c);
bool c_cb_sl_bool(rust::Fn<rust::Slice<const bool>(rust::Slice<const bool>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_bool(std::int32_t pos, std::int32_t k);
bool c_take_sl_usize(rust::Slice<const std::size_t> x, std::int32_t k);
rust::Slice<const std::size_t> c_make_sl_usize(std::uint8_t const &, std::int32_t k);
rust::Slice<const std::size_t> c_try_sl_usize(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const std::size_t> c_echo_sl_usize(rust::Slice<const std::size_t> x, std::int32_t k);
bool c_mix_sl_usize(std::uint8_t a, rust::Slice<const std::size_t> x, double b, std::int32_t k, rust::Slice<const std::size_t> y, std::uint16_t c);
bool c_cb_sl_usize(rust::Fn<rust::Slice<const std::size_t>(rust::Slice<const std::size_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_usize(std::int32_t pos, std::int32_t k);
bool c_take_sl_c_char(rust::Slice<const char> x, std::int32_t k);
rust::Slice<const char> c_make_sl_c_char(std::uint8_t const &, std::int32_t k);
rust::Slice<const char> c_try_sl_c_char(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const char> c_echo_sl_c_char(rust::Slice<const char> x, std::int32_t k);
bool c_mix_sl_c_char(std::uint8_t a, rust::Slice<const char> x, double b, std::int32_t k, rust::Slice<const char> y, std::uint16_t c);
bool c_cb_sl_c_char(rust::Fn<rust::Slice<const char>(rust::Slice<const char>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_c_char(std::int32_t pos, std::int32_t k);
bool c_take_sl_String(rust::Slice<const rust::String> x, std::int32_t k);
rust::Slice<const rust::String> c_make_sl_String(std::uint8_t const &, std::int32_t k);
rust::Slice<const rust::String> c_try_sl_String(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const rust::String> c_echo_sl_String(rust::Slice<const rust::String> x, std::int32_t k);
bool c_mix_sl_String(std::uint8_t a, rust::Slice<const rust::String> x, double b, std::int32_t k, rust::Slice<const rust::String> y, std::uint16_t c);
bool c_cb_sl_String(rust::Fn<rust::Slice<const rust::String>(rust::Slice<const rust::String>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_String(std::int32_t pos, std::int32_t k);
bool c_take_sl_S2(rust::Slice<const S2> x, std::int32_t k);
rust::Slice<const S2> c_make_sl_S2(std::uint8_t const &, std::int32_t k);
rust::Slice<const S2> c_try_sl_S2(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const S2> c_echo_sl_S2(rust::Slice<const S2> x, std::int32_t k);
bool c_mix_sl_S2(std::uint8_t a, rust::Slice<const S2> x, double b, std::int32_t k, rust::Slice<const S2> y, std::uint16_t c);
bool c_cb_sl_S2(rust::Fn<rust::Slice<const S2>(rust::Slice<const S2>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_S2(std::int32_t pos, std::int32_t k);
bool c_take_sl_S7(rust::Slice<const S7> x, std::int32_t k);
rust::Slice<const S7> c_make_sl_S7(std::uint8_t const &, std::int32_t k);
rust::Slice<const S7> c_try_sl_S7(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const S7> c_echo_sl_S7(rust::Slice<const S7> x, std::int32_t k);
bool c_mix_sl_S7(std::uint8_t a, rust::Slice<const S7> x, double b, std::int32_t k, rust::Slice<const S7> y, std::uint16_t c);
bool c_cb_sl_S7(rust::Fn<rust::Slice<const S7>(rust::Slice<const S7>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_S7(std::int32_t pos, std::int32_t k);
bool c_take_sl_Ei8(rust::Slice<const Ei8> x, std::int32_t k);
rust::Slice<const Ei8> c_make_sl_Ei8(std::uint8_t const &, std::int32_t k);
rust::Slice<const Ei8> c_try_sl_Ei8(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const Ei8> c_echo_sl_Ei8(rust::Slice<const Ei8> x, std::int32_t k);
bool c_mix_sl_Ei8(std::uint8_t a, rust::Slice<const Ei8> x, double b, std::int32_t k, rust::Slice<const Ei8> y, std::uint16_t c);
bool c_cb_sl_Ei8(rust::Fn<rust::Slice<const Ei8>(rust::Slice<const Ei8>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_Ei8(std::int32_t pos, std::int32_t k);
bool c_take_sl_TrivA(rust::Slice<const TrivA> x, std::int32_t k);
rust::Slice<const TrivA> c_make_sl_TrivA(std::uint8_t const &, std::int32_t k);
rust::Slice<const TrivA> c_try_sl_TrivA(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const TrivA> c_echo_sl_TrivA(rust::Slice<const TrivA> x, std::int32_t k);
bool c_mix_sl_TrivA(std::uint8_t a, rust::Slice<const TrivA> x, double b, std::int32_t k, rust::Slice<const TrivA> y, std::uint16_t c);
bool c_cb_sl_TrivA(rust::Fn<rust::Slice<const TrivA>(rust::Slice<const TrivA>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_TrivA(std::int32_t pos, std::int32_t k);
bool c_take_sl_RObj(rust::Slice<const RObj> x, std::int32_t k);
rust::Slice<const RObj> c_make_sl_RObj(std::uint8_t const &, std::int32_t k);
rust::Slice<const RObj> c_try_sl_RObj(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const RObj> c_echo_sl_RObj(rust::Slice<const RObj> x, std::int32_t k);
bool c_mix_sl_RObj(std::uint8_t a, rust::Slice<const RObj> x, double b, std::int32_t k, rust::Slice<const RObj> y, std::uint16_t c);
bool c_cb_sl_RObj(rust::Fn<rust::Slice<const RObj>(rust::Slice<const RObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_RObj(std::int32_t pos, std::int32_t k);
bool c_take_sl_Box_RObj(rust::Slice<const rust::Box<RObj>> x, std::int32_t k);
rust::Slice<const rust::Box<RObj>> c_make_sl_Box_RObj(std::uint8_t const &, std::int32_t k);
rust::Slice<const rust::Box<RObj>> c_try_sl_Box_RObj(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const rust::Box<RObj>> c_echo_sl_Box_RObj(rust::Slice<const rust::Box<RObj>> x, std::int32_t k);
bool c_mix_sl_Box_RObj(std::uint8_t a, rust::Slice<const rust::Box<RObj>> x, double b, std::int32_t k, rust::Slice<const rust::Box<RObj>> y, std::uint16_t c);
bool c_cb_sl_Box_RObj(rust::Fn<rust::Slice<const rust::Box<RObj>>(rust::Slice<const rust::Box<RObj>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_Box_RObj(std::int32_t pos, std::int32_t k);
bool c_take_sl_UniquePtr_CObj(rust::Slice<const std::unique_ptr<CObj>> x, std::int32_t k);
rust::Slice<const std::unique_ptr<CObj>> c_make_sl_UniquePtr_CObj(std::uint8_t const &, std::int32_t k);
rust::Slice<const std::unique_ptr<CObj>> c_try_sl_UniquePtr_CObj(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const std::unique_ptr<CObj>> c_echo_sl_UniquePtr_CObj(rust::Slice<const std::unique_ptr<CObj>> x, std::int32_t k);
bool c_mix_sl_UniquePtr_CObj(std::uint8_t a, rust::Slice<const std::unique_ptr<CObj>> x, double b, std::int32_t k, rust::Slice<const std::unique_ptr<CObj>> y, std::uint16_t c);
bool c_cb_sl_UniquePtr_CObj(rust::Fn<rust::Slice<const std::unique_ptr<CObj>>(rust::Slice<const std::unique_ptr<CObj>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_UniquePtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> x, std::int32_t k);
rust::Slice<const rust::Vec<std::uint8_t>> c_make_sl_Vec_u8(std::uint8_t const &, std::int32_t k);
rust::Slice<const rust::Vec<std::uint8_t>> c_try_sl_Vec_u8(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const rust::Vec<std::uint8_t>> c_echo_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> x, std::int32_t k);
bool c_mix_sl_Vec_u8(std::uint8_t a, rust::Slice<const rust::Vec<std::uint8_t>> x, double b, std::int32_t k, rust::Slice<const rust::Vec<std::uint8_t>> y, std::uint16_t c);
bool c_cb_sl_Vec_u8(rust::Fn<rust::Slice<const rust::Vec<std::uint8_t>>(rust::Slice<const rust::Vec<std::uint8_t>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_Vec_u8(std::int32_t pos, std::int32_t k);
bool c_take_sl_f32(rust::Slice<const float> x, std::int32_t k);
rust::Slice<const float> c_make_sl_f32(std::uint8_t const &, std::int32_t k);
rust::Slice<const float> c_try_sl_f32(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const float> c_echo_sl_f32(rust::Slice<const float> x, std::int32_t k);
bool c_mix_sl_f32(std::uint8_t a, rust::Slice<const float> x, double b, std::int32_t k, rust::Slice<const float> y, std::uint16_t c);
bool c_cb_sl_f32(rust::Fn<rust::Slice<const float>(rust::Slice<const float>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_f32(std::int32_t pos, std::int32_t k);
bool c_take_sl_isize(rust::Slice<const rust::isize> x, std::int32_t k);
rust::Slice<const rust::isize> c_make_sl_isize(std::uint8_t const &, std::int32_t k);
rust::Slice<const rust::isize> c_try_sl_isize(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const rust::isize> c_echo_sl_isize(rust::Slice<const rust::isize> x, std::int32_t k);
bool c_mix_sl_isize(std::uint8_t a, rust::Slice<const rust::isize> x, double b, std::int32_t k, rust::Slice<const rust::isize> y, std::uint16_t c);
bool c_cb_sl_isize(rust::Fn<rust::Slice<const rust::isize>(rust::Slice<const rust::isize>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_isize(std::int32_t pos, std::int32_t k);
bool c_take_sl_arr4_u8(rust::Slice<const std::array<std::uint8_t, 4>> x, std::int32_t k);
rust::Slice<const std::array<std::uint8_t, 4>> c_make_sl_arr4_u8(std::uint8_t const &, std::int32_t k);
rust::Slice<const std::array<std::uint8_t, 4>> c_try_sl_arr4_u8(std::uint8_t const &, std::int32_t k, bool fail);
rust::Slice<const std::array<std::uint8_t, 4>> c_echo_sl_arr4_u8(rust::Slice<const std::array<std::uint8_t, 4>> x, std::int32_t k);
bool c_mix_sl_arr4_u8(std::uint8_t a, rust::Slice<const std::array<std::uint8_t, 4>> x, double b, std::int32_t k, rust::Slice<const std::array<std::uint8_t, 4>> y, std::uint16_t c);
bool c_cb_sl_arr4_u8(rust::Fn<rust::Slice<const std::array<std::uint8_t, 4>>(rust::Slice<const std::array<std::uint8_t, 4>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_sl_arr4_u8(std::int32_t pos, std::int32_t k);
bool c_take_slm_u8(rust::Slice<std::uint8_t> x, std::int32_t k);
rust::Slice<std::uint8_t> c_make_slm_u8(std::uint8_t &, std::int32_t k);
rust::Slice<std::uint8_t> c_try_slm_u8(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<std::uint8_t> c_echo_slm_u8(rust::Slice<std::uint8_t> x, std::int32_t k);
bool c_mix_slm_u8(std::uint8_t a, rust::Slice<std::uint8_t> x, double b, std::int32_t k, rust::Slice<std::uint8_t> y, std::uint16_t c);
bool c_cb_slm_u8(rust::Fn<rust::Slice<std::uint8_t>(rust::Slice<std::uint8_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_u8(std::int32_t pos, std::int32_t k);
bool c_take_slm_i64(rust::Slice<std::int64_t> x, std::int32_t k);
rust::Slice<std::int64_t> c_make_slm_i64(std::uint8_t &, std::int32_t k);
rust::Slice<std::int64_t> c_try_slm_i64(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<std::int64_t> c_echo_slm_i64(rust::Slice<std::int64_t> x, std::int32_t k);
bool c_mix_slm_i64(std::uint8_t a, rust::Slice<std::int64_t> x, double b, std::int32_t k, rust::Slice<std::int64_t> y, std::uint16_t c);
bool c_cb_slm_i64(rust::Fn<rust::Slice<std::int64_t>(rust::Slice<std::int64_t>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_i64(std::int32_t pos, std::int32_t k);
bool c_take_slm_f32(rust::Slice<float> x, std::int32_t k);
rust::Slice<float> c_make_slm_f32(std::uint8_t &, std::int32_t k);
rust::Slice<float> c_try_slm_f32(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<float> c_echo_slm_f32(rust::Slice<float> x, std::int32_t k);
bool c_mix_slm_f32(std::uint8_t a, rust::Slice<float> x, double b, std::int32_t k, rust::Slice<float> y, std::uint16_t c);
bool c_cb_slm_f32(rust::Fn<rust::Slice<float>(rust::Slice<float>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_f32(std::int32_t pos, std::int32_t k);
bool c_take_slm_String(rust::Slice<rust::String> x, std::int32_t k);
rust::Slice<rust::String> c_make_slm_String(std::uint8_t &, std::int32_t k);
rust::Slice<rust::String> c_try_slm_String(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<rust::String> c_echo_slm_String(rust::Slice<rust::String> x, std::int32_t k);
bool c_mix_slm_String(std::uint8_t a, rust::Slice<rust::String> x, double b, std::int32_t k, rust::Slice<rust::String> y, std::uint16_t c);
bool c_cb_slm_String(rust::Fn<rust::Slice<rust::String>(rust::Slice<rust::String>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_String(std::int32_t pos, std::int32_t k);
bool c_take_slm_S7(rust::Slice<S7> x, std::int32_t k);
rust::Slice<S7> c_make_slm_S7(std::uint8_t &, std::int32_t k);
rust::Slice<S7> c_try_slm_S7(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<S7> c_echo_slm_S7(rust::Slice<S7> x, std::int32_t k);
bool c_mix_slm_S7(std::uint8_t a, rust::Slice<S7> x, double b, std::int32_t k, rust::Slice<S7> y, std::uint16_t c);
bool c_cb_slm_S7(rust::Fn<rust::Slice<S7>(rust::Slice<S7>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_S7(std::int32_t pos, std::int32_t k);
bool c_take_slm_RObj(rust::Slice<RObj> x, std::int32_t k);
rust::Slice<RObj> c_make_slm_RObj(std::uint8_t &, std::int32_t k);
rust::Slice<RObj> c_try_slm_RObj(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<RObj> c_echo_slm_RObj(rust::Slice<RObj> x, std::int32_t k);
bool c_mix_slm_RObj(std::uint8_t a, rust::Slice<RObj> x, double b, std::int32_t k, rust::Slice<RObj> y, std::uint16_t c);
bool c_cb_slm_RObj(rust::Fn<rust::Slice<RObj>(rust::Slice<RObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_RObj(std::int32_t pos, std::int32_t k);
bool c_take_slm_c_char(rust::Slice<char> x, std::int32_t k);
rust::Slice<char> c_make_slm_c_char(std::uint8_t &, std::int32_t k);
rust::Slice<char> c_try_slm_c_char(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<char> c_echo_slm_c_char(rust::Slice<char> x, std::int32_t k);
bool c_mix_slm_c_char(std::uint8_t a, rust::Slice<char> x, double b, std::int32_t k, rust::Slice<char> y, std::uint16_t c);
bool c_cb_slm_c_char(rust::Fn<rust::Slice<char>(rust::Slice<char>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_c_char(std::int32_t pos, std::int32_t k);
bool c_take_slm_Eu16(rust::Slice<Eu16> x, std::int32_t k);
rust::Slice<Eu16> c_make_slm_Eu16(std::uint8_t &, std::int32_t k);
rust::Slice<Eu16> c_try_slm_Eu16(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<Eu16> c_echo_slm_Eu16(rust::Slice<Eu16> x, std::int32_t k);
bool c_mix_slm_Eu16(std::uint8_t a, rust::Slice<Eu16> x, double b, std::int32_t k, rust::Slice<Eu16> y, std::uint16_t c);
bool c_cb_slm_Eu16(rust::Fn<rust::Slice<Eu16>(rust::Slice<Eu16>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_Eu16(std::int32_t pos, std::int32_t k);
bool c_take_slm_TrivC(rust::Slice<TrivC> x, std::int32_t k);
rust::Slice<TrivC> c_make_slm_TrivC(std::uint8_t &, std::int32_t k);
rust::Slice<TrivC> c_try_slm_TrivC(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<TrivC> c_echo_slm_TrivC(rust::Slice<TrivC> x, std::int32_t k);
bool c_mix_slm_TrivC(std::uint8_t a, rust::Slice<TrivC> x, double b, std::int32_t k, rust::Slice<TrivC> y, std::uint16_t c);
bool c_cb_slm_TrivC(rust::Fn<rust::Slice<TrivC>(rust::Slice<TrivC>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_TrivC(std::int32_t pos, std::int32_t k);
bool c_take_slm_Box_RObj(rust::Slice<rust::Box<RObj>> x, std::int32_t k);
rust::Slice<rust::Box<RObj>> c_make_slm_Box_RObj(std::uint8_t &, std::int32_t k);
rust::Slice<rust::Box<RObj>> c_try_slm_Box_RObj(std::uint8_t &, std::int32_t k, bool fail);
rust::Slice<rust::Box<RObj>> c_echo_slm_Box_RObj(rust::Slice<rust::Box<RObj>> x, std::int32_t k);
bool c_mix_slm_Box_RObj(std::uint8_t a, rust::Slice<rust::Box<RObj>> x, double b, std::int32_t k, rust::Slice<rust::Box<RObj>> y, std::uint16_t c);
bool c_cb_slm_Box_RObj(rust::Fn<rust::Slice<rust::Box<RObj>>(rust::Slice<rust::Box<RObj>>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_slm_Box_RObj(std::int32_t pos, std::int32_t k);
bool c_take_ptrconst_u8(std::uint8_t const * x, std::int32_t k);
std::uint8_t const * c_make_ptrconst_u8(std::int32_t k);
std::uint8_t const * c_try_ptrconst_u8(std::int32_t k, bool fail);
std::uint8_t const * c_echo_ptrconst_u8(std::uint8_t const * x, std::int32_t k);
bool c_mix_ptrconst_u8(std::uint8_t a, std::uint8_t const * x, double b, std::int32_t k, std::uint8_t const * y, std::uint16_t c);
std::int32_t c_run_ptrconst_u8(std::int32_t pos, std::int32_t k);
bool c_take_ptrmut_u64(std::uint64_t * x, std::int32_t k);
std::uint64_t * c_make_ptrmut_u64(std::int32_t k);
std::uint64_t * c_try_ptrmut_u64(std::int32_t k, bool fail);
std::uint64_t * c_echo_ptrmut_u64(std::uint64_t * x, std::int32_t k);
bool c_mix_ptrmut_u64(std::uint8_t a, std::uint64_t * x, double b, std::int32_t k, std::uint64_t * y, std::uint16_t c);
std::int32_t c_run_ptrmut_u64(std::int32_t pos, std::int32_t k);
bool c_take_ptrconst_S2(S2 const * x, std::int32_t k);
S2 const * c_make_ptrconst_S2(std::int32_t k);
S2 const * c_try_ptrconst_S2(std::int32_t k, bool fail);
S2 const * c_echo_ptrconst_S2(S2 const * x, std::int32_t k);
bool c_mix_ptrconst_S2(std::uint8_t a, S2 const * x, double b, std::int32_t k, S2 const * y, std::uint16_t c);
std::int32_t c_run_ptrconst_S2(std::int32_t pos, std::int32_t k);
bool c_take_ptrmut_S7(S7 * x, std::int32_t k);
S7 * c_make_ptrmut_S7(std::int32_t k);
S7 * c_try_ptrmut_S7(std::int32_t k, bool fail);
S7 * c_echo_ptrmut_S7(S7 * x, std::int32_t k);
bool c_mix_ptrmut_S7(std::uint8_t a, S7 * x, double b, std::int32_t k, S7 * y, std::uint16_t c);
std::int32_t c_run_ptrmut_S7(std::int32_t pos, std::int32_t k);
bool c_take_ptrmut_CObj(CObj * x, std::int32_t k);
CObj * c_make_ptrmut_CObj(std::int32_t k);
CObj * c_try_ptrmut_CObj(std::int32_t k, bool fail);
CObj * c_echo_ptrmut_CObj(CObj * x, std::int32_t k);
bool c_mix_ptrmut_CObj(std::uint8_t a, CObj * x, double b, std::int32_t k, CObj * y, std::uint16_t c);
std::int32_t c_run_ptrmut_CObj(std::int32_t pos, std::int32_t k);
bool c_take_ptrconst_CObj(CObj const * x, std::int32_t k);
CObj const * c_make_ptrconst_CObj(std::int32_t k);
CObj const * c_try_ptrconst_CObj(std::int32_t k, bool fail);
CObj const * c_echo_ptrconst_CObj(CObj const * x, std::int32_t k);
bool c_mix_ptrconst_CObj(std::uint8_t a, CObj const * x, double b, std::int32_t k, CObj const * y, std::uint16_t c);
std::int32_t c_run_ptrconst_CObj(std::int32_t pos, std::int32_t k);
bool c_take_ptrconst_RObj(RObj const * x, std::int32_t k);
RObj const * c_make_ptrconst_RObj(std::int32_t k);
RObj const * c_try_ptrconst_RObj(std::int32_t k, bool fail);
RObj const * c_echo_ptrconst_RObj(RObj const * x, std::int32_t k);
bool c_mix_ptrconst_RObj(std::uint8_t a, RObj const * x, double b, std::int32_t k, RObj const * y, std::uint16_t c);
std::int32_t c_run_ptrconst_RObj(std::int32_t pos, std::int32_t k);
bool c_take_ptrmut_RObj(RObj * x, std::int32_t k);
RObj * c_make_ptrmut_RObj(std::int32_t k);
RObj * c_try_ptrmut_RObj(std::int32_t k, bool fail);
RObj * c_echo_ptrmut_RObj(RObj * x, std::int32_t k);
bool c_mix_ptrmut_RObj(std::uint8_t a, RObj * x, double b, std::int32_t k, RObj * y, std::uint16_t c);
std::int32_t c_run_ptrmut_RObj(std::int32_t pos, std::int32_t k);
bool c_take_ptrconst_CxxString(std::string const * x, std::int32_t k);
std::string const * c_make_ptrconst_CxxString(std::int32_t k);
std::string const * c_try_ptrconst_CxxString(std::int32_t k, bool fail);
std::string const * c_echo_ptrconst_CxxString(std::string const * x, std::int32_t k);
bool c_mix_ptrconst_CxxString(std::uint8_t a, std::string const * x, double b, std::int32_t k, std::string const * y, std::uint16_t c);
std::int32_t c_run_ptrconst_CxxString(std::int32_t pos, std::int32_t k);
bool c_take_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k);
std::unique_ptr<CObj> c_make_UniquePtr_CObj(std::int32_t k);
std::unique_ptr<CObj> c_try_UniquePtr_CObj(std::int32_t k, bool fail);
std::unique_ptr<CObj> c_echo_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k);
bool c_mix_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> x, double b, std::int32_t k, std::unique_ptr<CObj> y, std::uint16_t c);
bool c_cb_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
std::shared_ptr<CObj> c_make_SharedPtr_CObj(std::int32_t k);
std::shared_ptr<CObj> c_try_SharedPtr_CObj(std::int32_t k, bool fail);
std::shared_ptr<CObj> c_echo_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
bool c_mix_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> x, double b, std::int32_t k, std::shared_ptr<CObj> y, std::uint16_t c);
bool c_cb_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_CObj(std::int32_t pos, std::int32_t k);
} // namespace c09c
