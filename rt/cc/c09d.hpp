// Generated by gen_sig.py.
#pragma once
#include "rust/cxx.h"
#include <array>
#include <cstdint>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
extern "C" std::uintptr_t vk_addr_c09d;
namespace c09d {
static inline void note(std::uintptr_t a) { vk_addr_c09d = a; }
static const void *volatile vk_sink;
static const std::string TXT[4] = {"", "a", std::string("h\xc3\xa9\0x", 5), "zzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzzz\xf0\x9f\x98\x80"};
struct RObj;
struct S3;
struct S6;
struct S2;
struct TrivA { std::int32_t f0;  };
enum class Eu8 : std::uint8_t;
struct S7;
class CObj {
  int t; std::string pad; const CObj *self = this;
public:
  explicit CObj(int k) : t(k), pad(TXT[k]) {}
  CObj(const CObj &o) : t(o.t), pad(o.pad) {}
  CObj &operator=(const CObj &o) { t = o.t; pad = o.pad; return *this; }
  std::int32_t c_tag() const { return self == this && pad == TXT[t] ? t : -1; }
  void c_set(std::int32_t k) { t = k; pad = TXT[k]; }
  std::unique_ptr<CObj> c_m_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) const;
  std::shared_ptr<CObj> c_m_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
};
bool c_take_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k);
std::unique_ptr<CObj> c_make_UniquePtr_CObj(std::int32_t k);
std::unique_ptr<CObj> c_try_UniquePtr_CObj(std::int32_t k, bool fail);
std::unique_ptr<CObj> c_echo_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k);
bool c_mix_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> x, double b, std::int32_t k, std::unique_ptr<CObj> y, std::uint16_t c);
bool c_cb_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_UniquePtr_CObj(std::int32_t pos, std::int32_t k);
bool c_take_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
std::shared_ptr<CObj> c_make_SharedPtr_CObj(std::int32_t k);
std::shared_ptr<CObj> c_try_SharedPtr_CObj(std::int32_t k, bool fail);
std::shared_ptr<CObj> c_echo_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k);
bool c_mix_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> x, double b, std::int32_t k, std::shared_ptr<CObj> y, std::uint16_t c);
bool c_cb_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::int32_t)> f, std::int32_t k);
std::int32_t c_run_SharedPtr_CObj(std::int32_t pos, std::int32_t k);
void c_abi0(std::uint8_t a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi0(std::int32_t k);
rust::String c_abi1(std::uint8_t a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi1(std::int32_t k);
S3 c_abi2(std::uint8_t a0, float a1, std::int32_t k);
bool c_run_abi2(std::int32_t k);
S6 c_abi3(std::uint8_t a0, double a1, std::int32_t k);
bool c_run_abi3(std::int32_t k);
rust::Box<RObj> c_abi4(std::uint8_t a0, S2 a1, std::int32_t k);
bool c_run_abi4(std::int32_t k);
std::uint8_t c_abi5(std::uint8_t a0, S3 a1, std::int32_t k);
bool c_run_abi5(std::int32_t k);
double c_abi6(std::uint8_t a0, S6 a1, std::int32_t k);
bool c_run_abi6(std::int32_t k);
std::unique_ptr<CObj> c_abi7(std::uint8_t a0, rust::String a1, std::int32_t k);
bool c_run_abi7(std::int32_t k);
rust::Vec<std::uint8_t> c_abi8(std::uint8_t a0, rust::Str a1, std::int32_t k);
bool c_run_abi8(std::int32_t k);
std::shared_ptr<CObj> c_abi9(std::uint8_t a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi9(std::int32_t k);
TrivA c_abi10(std::uint8_t a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi10(std::int32_t k);
Eu8 c_abi11(std::uint8_t a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi11(std::int32_t k);
std::array<std::uint8_t, 4> c_abi12(std::uint8_t a0, TrivA a1, std::int32_t k);
bool c_run_abi12(std::int32_t k);
void c_abi13(std::uint8_t a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi13(std::int32_t k);
rust::String c_abi14(std::uint64_t a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi14(std::int32_t k);
S3 c_abi15(std::uint64_t a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi15(std::int32_t k);
S6 c_abi16(std::uint64_t a0, float a1, std::int32_t k);
bool c_run_abi16(std::int32_t k);
rust::Box<RObj> c_abi17(std::uint64_t a0, double a1, std::int32_t k);
bool c_run_abi17(std::int32_t k);
std::uint8_t c_abi18(std::uint64_t a0, S2 a1, std::int32_t k);
bool c_run_abi18(std::int32_t k);
double c_abi19(std::uint64_t a0, S3 a1, std::int32_t k);
bool c_run_abi19(std::int32_t k);
std::unique_ptr<CObj> c_abi20(std::uint64_t a0, S6 a1, std::int32_t k);
bool c_run_abi20(std::int32_t k);
rust::Vec<std::uint8_t> c_abi21(std::uint64_t a0, rust::String a1, std::int32_t k);
bool c_run_abi21(std::int32_t k);
std::shared_ptr<CObj> c_abi22(std::uint64_t a0, rust::Str a1, std::int32_t k);
bool c_run_abi22(std::int32_t k);
TrivA c_abi23(std::uint64_t a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi23(std::int32_t k);
Eu8 c_abi24(std::uint64_t a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi24(std::int32_t k);
std::array<std::uint8_t, 4> c_abi25(std::uint64_t a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi25(std::int32_t k);
void c_abi26(std::uint64_t a0, TrivA a1, std::int32_t k);
bool c_run_abi26(std::int32_t k);
rust::String c_abi27(std::uint64_t a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi27(std::int32_t k);
S3 c_abi28(float a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi28(std::int32_t k);
S6 c_abi29(float a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi29(std::int32_t k);
rust::Box<RObj> c_abi30(float a0, float a1, std::int32_t k);
bool c_run_abi30(std::int32_t k);
std::uint8_t c_abi31(float a0, double a1, std::int32_t k);
bool c_run_abi31(std::int32_t k);
double c_abi32(float a0, S2 a1, std::int32_t k);
bool c_run_abi32(std::int32_t k);
std::unique_ptr<CObj> c_abi33(float a0, S3 a1, std::int32_t k);
bool c_run_abi33(std::int32_t k);
rust::Vec<std::uint8_t> c_abi34(float a0, S6 a1, std::int32_t k);
bool c_run_abi34(std::int32_t k);
std::shared_ptr<CObj> c_abi35(float a0, rust::String a1, std::int32_t k);
bool c_run_abi35(std::int32_t k);
TrivA c_abi36(float a0, rust::Str a1, std::int32_t k);
bool c_run_abi36(std::int32_t k);
Eu8 c_abi37(float a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi37(std::int32_t k);
std::array<std::uint8_t, 4> c_abi38(float a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi38(std::int32_t k);
void c_abi39(float a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi39(std::int32_t k);
rust::String c_abi40(float a0, TrivA a1, std::int32_t k);
bool c_run_abi40(std::int32_t k);
S3 c_abi41(float a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi41(std::int32_t k);
S6 c_abi42(double a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi42(std::int32_t k);
rust::Box<RObj> c_abi43(double a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi43(std::int32_t k);
std::uint8_t c_abi44(double a0, float a1, std::int32_t k);
bool c_run_abi44(std::int32_t k);
double c_abi45(double a0, double a1, std::int32_t k);
bool c_run_abi45(std::int32_t k);
std::unique_ptr<CObj> c_abi46(double a0, S2 a1, std::int32_t k);
bool c_run_abi46(std::int32_t k);
rust::Vec<std::uint8_t> c_abi47(double a0, S3 a1, std::int32_t k);
bool c_run_abi47(std::int32_t k);
std::shared_ptr<CObj> c_abi48(double a0, S6 a1, std::int32_t k);
bool c_run_abi48(std::int32_t k);
TrivA c_abi49(double a0, rust::String a1, std::int32_t k);
bool c_run_abi49(std::int32_t k);
Eu8 c_abi50(double a0, rust::Str a1, std::int32_t k);
bool c_run_abi50(std::int32_t k);
std::array<std::uint8_t, 4> c_abi51(double a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi51(std::int32_t k);
void c_abi52(double a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi52(std::int32_t k);
rust::String c_abi53(double a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi53(std::int32_t k);
S3 c_abi54(double a0, TrivA a1, std::int32_t k);
bool c_run_abi54(std::int32_t k);
S6 c_abi55(double a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi55(std::int32_t k);
rust::Box<RObj> c_abi56(S2 a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi56(std::int32_t k);
std::uint8_t c_abi57(S2 a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi57(std::int32_t k);
double c_abi58(S2 a0, float a1, std::int32_t k);
bool c_run_abi58(std::int32_t k);
std::unique_ptr<CObj> c_abi59(S2 a0, double a1, std::int32_t k);
bool c_run_abi59(std::int32_t k);
rust::Vec<std::uint8_t> c_abi60(S2 a0, S2 a1, std::int32_t k);
bool c_run_abi60(std::int32_t k);
std::shared_ptr<CObj> c_abi61(S2 a0, S3 a1, std::int32_t k);
bool c_run_abi61(std::int32_t k);
TrivA c_abi62(S2 a0, S6 a1, std::int32_t k);
bool c_run_abi62(std::int32_t k);
Eu8 c_abi63(S2 a0, rust::String a1, std::int32_t k);
bool c_run_abi63(std::int32_t k);
std::array<std::uint8_t, 4> c_abi64(S2 a0, rust::Str a1, std::int32_t k);
bool c_run_abi64(std::int32_t k);
void c_abi65(S2 a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi65(std::int32_t k);
rust::String c_abi66(S2 a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi66(std::int32_t k);
S3 c_abi67(S2 a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi67(std::int32_t k);
S6 c_abi68(S2 a0, TrivA a1, std::int32_t k);
bool c_run_abi68(std::int32_t k);
rust::Box<RObj> c_abi69(S2 a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi69(std::int32_t k);
std::uint8_t c_abi70(S3 a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi70(std::int32_t k);
double c_abi71(S3 a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi71(std::int32_t k);
std::unique_ptr<CObj> c_abi72(S3 a0, float a1, std::int32_t k);
bool c_run_abi72(std::int32_t k);
rust::Vec<std::uint8_t> c_abi73(S3 a0, double a1, std::int32_t k);
bool c_run_abi73(std::int32_t k);
std::shared_ptr<CObj> c_abi74(S3 a0, S2 a1, std::int32_t k);
bool c_run_abi74(std::int32_t k);
TrivA c_abi75(S3 a0, S3 a1, std::int32_t k);
bool c_run_abi75(std::int32_t k);
Eu8 c_abi76(S3 a0, S6 a1, std::int32_t k);
bool c_run_abi76(std::int32_t k);
std::array<std::uint8_t, 4> c_abi77(S3 a0, rust::String a1, std::int32_t k);
bool c_run_abi77(std::int32_t k);
void c_abi78(S3 a0, rust::Str a1, std::int32_t k);
bool c_run_abi78(std::int32_t k);
rust::String c_abi79(S3 a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi79(std::int32_t k);
S3 c_abi80(S3 a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi80(std::int32_t k);
S6 c_abi81(S3 a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi81(std::int32_t k);
rust::Box<RObj> c_abi82(S3 a0, TrivA a1, std::int32_t k);
bool c_run_abi82(std::int32_t k);
std::uint8_t c_abi83(S3 a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi83(std::int32_t k);
double c_abi84(S6 a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi84(std::int32_t k);
std::unique_ptr<CObj> c_abi85(S6 a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi85(std::int32_t k);
rust::Vec<std::uint8_t> c_abi86(S6 a0, float a1, std::int32_t k);
bool c_run_abi86(std::int32_t k);
std::shared_ptr<CObj> c_abi87(S6 a0, double a1, std::int32_t k);
bool c_run_abi87(std::int32_t k);
TrivA c_abi88(S6 a0, S2 a1, std::int32_t k);
bool c_run_abi88(std::int32_t k);
Eu8 c_abi89(S6 a0, S3 a1, std::int32_t k);
bool c_run_abi89(std::int32_t k);
std::array<std::uint8_t, 4> c_abi90(S6 a0, S6 a1, std::int32_t k);
bool c_run_abi90(std::int32_t k);
void c_abi91(S6 a0, rust::String a1, std::int32_t k);
bool c_run_abi91(std::int32_t k);
rust::String c_abi92(S6 a0, rust::Str a1, std::int32_t k);
bool c_run_abi92(std::int32_t k);
S3 c_abi93(S6 a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi93(std::int32_t k);
S6 c_abi94(S6 a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi94(std::int32_t k);
rust::Box<RObj> c_abi95(S6 a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi95(std::int32_t k);
std::uint8_t c_abi96(S6 a0, TrivA a1, std::int32_t k);
bool c_run_abi96(std::int32_t k);
double c_abi97(S6 a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi97(std::int32_t k);
std::unique_ptr<CObj> c_abi98(rust::String a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi98(std::int32_t k);
rust::Vec<std::uint8_t> c_abi99(rust::String a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi99(std::int32_t k);
std::shared_ptr<CObj> c_abi100(rust::String a0, float a1, std::int32_t k);
bool c_run_abi100(std::int32_t k);
TrivA c_abi101(rust::String a0, double a1, std::int32_t k);
bool c_run_abi101(std::int32_t k);
Eu8 c_abi102(rust::String a0, S2 a1, std::int32_t k);
bool c_run_abi102(std::int32_t k);
std::array<std::uint8_t, 4> c_abi103(rust::String a0, S3 a1, std::int32_t k);
bool c_run_abi103(std::int32_t k);
void c_abi104(rust::String a0, S6 a1, std::int32_t k);
bool c_run_abi104(std::int32_t k);
rust::String c_abi105(rust::String a0, rust::String a1, std::int32_t k);
bool c_run_abi105(std::int32_t k);
S3 c_abi106(rust::String a0, rust::Str a1, std::int32_t k);
bool c_run_abi106(std::int32_t k);
S6 c_abi107(rust::String a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi107(std::int32_t k);
rust::Box<RObj> c_abi108(rust::String a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi108(std::int32_t k);
std::uint8_t c_abi109(rust::String a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi109(std::int32_t k);
double c_abi110(rust::String a0, TrivA a1, std::int32_t k);
bool c_run_abi110(std::int32_t k);
std::unique_ptr<CObj> c_abi111(rust::String a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi111(std::int32_t k);
rust::Vec<std::uint8_t> c_abi112(rust::Str a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi112(std::int32_t k);
std::shared_ptr<CObj> c_abi113(rust::Str a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi113(std::int32_t k);
TrivA c_abi114(rust::Str a0, float a1, std::int32_t k);
bool c_run_abi114(std::int32_t k);
Eu8 c_abi115(rust::Str a0, double a1, std::int32_t k);
bool c_run_abi115(std::int32_t k);
std::array<std::uint8_t, 4> c_abi116(rust::Str a0, S2 a1, std::int32_t k);
bool c_run_abi116(std::int32_t k);
void c_abi117(rust::Str a0, S3 a1, std::int32_t k);
bool c_run_abi117(std::int32_t k);
rust::String c_abi118(rust::Str a0, S6 a1, std::int32_t k);
bool c_run_abi118(std::int32_t k);
S3 c_abi119(rust::Str a0, rust::String a1, std::int32_t k);
bool c_run_abi119(std::int32_t k);
S6 c_abi120(rust::Str a0, rust::Str a1, std::int32_t k);
bool c_run_abi120(std::int32_t k);
rust::Box<RObj> c_abi121(rust::Str a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi121(std::int32_t k);
std::uint8_t c_abi122(rust::Str a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi122(std::int32_t k);
double c_abi123(rust::Str a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi123(std::int32_t k);
std::unique_ptr<CObj> c_abi124(rust::Str a0, TrivA a1, std::int32_t k);
bool c_run_abi124(std::int32_t k);
rust::Vec<std::uint8_t> c_abi125(rust::Str a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi125(std::int32_t k);
std::shared_ptr<CObj> c_abi126(rust::Box<RObj> a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi126(std::int32_t k);
TrivA c_abi127(rust::Box<RObj> a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi127(std::int32_t k);
Eu8 c_abi128(rust::Box<RObj> a0, float a1, std::int32_t k);
bool c_run_abi128(std::int32_t k);
std::array<std::uint8_t, 4> c_abi129(rust::Box<RObj> a0, double a1, std::int32_t k);
bool c_run_abi129(std::int32_t k);
void c_abi130(rust::Box<RObj> a0, S2 a1, std::int32_t k);
bool c_run_abi130(std::int32_t k);
rust::String c_abi131(rust::Box<RObj> a0, S3 a1, std::int32_t k);
bool c_run_abi131(std::int32_t k);
S3 c_abi132(rust::Box<RObj> a0, S6 a1, std::int32_t k);
bool c_run_abi132(std::int32_t k);
S6 c_abi133(rust::Box<RObj> a0, rust::String a1, std::int32_t k);
bool c_run_abi133(std::int32_t k);
rust::Box<RObj> c_abi134(rust::Box<RObj> a0, rust::Str a1, std::int32_t k);
bool c_run_abi134(std::int32_t k);
std::uint8_t c_abi135(rust::Box<RObj> a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi135(std::int32_t k);
double c_abi136(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi136(std::int32_t k);
std::unique_ptr<CObj> c_abi137(rust::Box<RObj> a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi137(std::int32_t k);
rust::Vec<std::uint8_t> c_abi138(rust::Box<RObj> a0, TrivA a1, std::int32_t k);
bool c_run_abi138(std::int32_t k);
std::shared_ptr<CObj> c_abi139(rust::Box<RObj> a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi139(std::int32_t k);
TrivA c_abi140(std::unique_ptr<CObj> a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi140(std::int32_t k);
Eu8 c_abi141(std::unique_ptr<CObj> a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi141(std::int32_t k);
std::array<std::uint8_t, 4> c_abi142(std::unique_ptr<CObj> a0, float a1, std::int32_t k);
bool c_run_abi142(std::int32_t k);
void c_abi143(std::unique_ptr<CObj> a0, double a1, std::int32_t k);
bool c_run_abi143(std::int32_t k);
rust::String c_abi144(std::unique_ptr<CObj> a0, S2 a1, std::int32_t k);
bool c_run_abi144(std::int32_t k);
S3 c_abi145(std::unique_ptr<CObj> a0, S3 a1, std::int32_t k);
bool c_run_abi145(std::int32_t k);
S6 c_abi146(std::unique_ptr<CObj> a0, S6 a1, std::int32_t k);
bool c_run_abi146(std::int32_t k);
rust::Box<RObj> c_abi147(std::unique_ptr<CObj> a0, rust::String a1, std::int32_t k);
bool c_run_abi147(std::int32_t k);
std::uint8_t c_abi148(std::unique_ptr<CObj> a0, rust::Str a1, std::int32_t k);
bool c_run_abi148(std::int32_t k);
double c_abi149(std::unique_ptr<CObj> a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi149(std::int32_t k);
std::unique_ptr<CObj> c_abi150(std::unique_ptr<CObj> a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi150(std::int32_t k);
rust::Vec<std::uint8_t> c_abi151(std::unique_ptr<CObj> a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi151(std::int32_t k);
std::shared_ptr<CObj> c_abi152(std::unique_ptr<CObj> a0, TrivA a1, std::int32_t k);
bool c_run_abi152(std::int32_t k);
TrivA c_abi153(std::unique_ptr<CObj> a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi153(std::int32_t k);
Eu8 c_abi154(rust::Slice<const std::uint16_t> a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi154(std::int32_t k);
std::array<std::uint8_t, 4> c_abi155(rust::Slice<const std::uint16_t> a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi155(std::int32_t k);
void c_abi156(rust::Slice<const std::uint16_t> a0, float a1, std::int32_t k);
bool c_run_abi156(std::int32_t k);
rust::String c_abi157(rust::Slice<const std::uint16_t> a0, double a1, std::int32_t k);
bool c_run_abi157(std::int32_t k);
S3 c_abi158(rust::Slice<const std::uint16_t> a0, S2 a1, std::int32_t k);
bool c_run_abi158(std::int32_t k);
S6 c_abi159(rust::Slice<const std::uint16_t> a0, S3 a1, std::int32_t k);
bool c_run_abi159(std::int32_t k);
rust::Box<RObj> c_abi160(rust::Slice<const std::uint16_t> a0, S6 a1, std::int32_t k);
bool c_run_abi160(std::int32_t k);
std::uint8_t c_abi161(rust::Slice<const std::uint16_t> a0, rust::String a1, std::int32_t k);
bool c_run_abi161(std::int32_t k);
double c_abi162(rust::Slice<const std::uint16_t> a0, rust::Str a1, std::int32_t k);
bool c_run_abi162(std::int32_t k);
std::unique_ptr<CObj> c_abi163(rust::Slice<const std::uint16_t> a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi163(std::int32_t k);
rust::Vec<std::uint8_t> c_abi164(rust::Slice<const std::uint16_t> a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi164(std::int32_t k);
std::shared_ptr<CObj> c_abi165(rust::Slice<const std::uint16_t> a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi165(std::int32_t k);
TrivA c_abi166(rust::Slice<const std::uint16_t> a0, TrivA a1, std::int32_t k);
bool c_run_abi166(std::int32_t k);
Eu8 c_abi167(rust::Slice<const std::uint16_t> a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi167(std::int32_t k);
std::array<std::uint8_t, 4> c_abi168(TrivA a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi168(std::int32_t k);
void c_abi169(TrivA a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi169(std::int32_t k);
rust::String c_abi170(TrivA a0, float a1, std::int32_t k);
bool c_run_abi170(std::int32_t k);
S3 c_abi171(TrivA a0, double a1, std::int32_t k);
bool c_run_abi171(std::int32_t k);
S6 c_abi172(TrivA a0, S2 a1, std::int32_t k);
bool c_run_abi172(std::int32_t k);
rust::Box<RObj> c_abi173(TrivA a0, S3 a1, std::int32_t k);
bool c_run_abi173(std::int32_t k);
std::uint8_t c_abi174(TrivA a0, S6 a1, std::int32_t k);
bool c_run_abi174(std::int32_t k);
double c_abi175(TrivA a0, rust::String a1, std::int32_t k);
bool c_run_abi175(std::int32_t k);
std::unique_ptr<CObj> c_abi176(TrivA a0, rust::Str a1, std::int32_t k);
bool c_run_abi176(std::int32_t k);
rust::Vec<std::uint8_t> c_abi177(TrivA a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi177(std::int32_t k);
std::shared_ptr<CObj> c_abi178(TrivA a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi178(std::int32_t k);
TrivA c_abi179(TrivA a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi179(std::int32_t k);
Eu8 c_abi180(TrivA a0, TrivA a1, std::int32_t k);
bool c_run_abi180(std::int32_t k);
std::array<std::uint8_t, 4> c_abi181(TrivA a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi181(std::int32_t k);
void c_abi182(std::shared_ptr<CObj> a0, std::uint8_t a1, std::int32_t k);
bool c_run_abi182(std::int32_t k);
rust::String c_abi183(std::shared_ptr<CObj> a0, std::uint64_t a1, std::int32_t k);
bool c_run_abi183(std::int32_t k);
S3 c_abi184(std::shared_ptr<CObj> a0, float a1, std::int32_t k);
bool c_run_abi184(std::int32_t k);
S6 c_abi185(std::shared_ptr<CObj> a0, double a1, std::int32_t k);
bool c_run_abi185(std::int32_t k);
rust::Box<RObj> c_abi186(std::shared_ptr<CObj> a0, S2 a1, std::int32_t k);
bool c_run_abi186(std::int32_t k);
std::uint8_t c_abi187(std::shared_ptr<CObj> a0, S3 a1, std::int32_t k);
bool c_run_abi187(std::int32_t k);
double c_abi188(std::shared_ptr<CObj> a0, S6 a1, std::int32_t k);
bool c_run_abi188(std::int32_t k);
std::unique_ptr<CObj> c_abi189(std::shared_ptr<CObj> a0, rust::String a1, std::int32_t k);
bool c_run_abi189(std::int32_t k);
rust::Vec<std::uint8_t> c_abi190(std::shared_ptr<CObj> a0, rust::Str a1, std::int32_t k);
bool c_run_abi190(std::int32_t k);
std::shared_ptr<CObj> c_abi191(std::shared_ptr<CObj> a0, rust::Box<RObj> a1, std::int32_t k);
bool c_run_abi191(std::int32_t k);
TrivA c_abi192(std::shared_ptr<CObj> a0, std::unique_ptr<CObj> a1, std::int32_t k);
bool c_run_abi192(std::int32_t k);
Eu8 c_abi193(std::shared_ptr<CObj> a0, rust::Slice<const std::uint16_t> a1, std::int32_t k);
bool c_run_abi193(std::int32_t k);
std::array<std::uint8_t, 4> c_abi194(std::shared_ptr<CObj> a0, TrivA a1, std::int32_t k);
bool c_run_abi194(std::int32_t k);
void c_abi195(std::shared_ptr<CObj> a0, std::shared_ptr<CObj> a1, std::int32_t k);
bool c_run_abi195(std::int32_t k);
rust::String c_abi196(std::uint8_t a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi196(std::int32_t k);
S3 c_abi197(std::uint8_t a0, std::uint64_t a1, double a2, std::int32_t k);
bool c_run_abi197(std::int32_t k);
S6 c_abi198(std::uint8_t a0, std::uint64_t a1, rust::Str a2, std::int32_t k);
bool c_run_abi198(std::int32_t k);
rust::Box<RObj> c_abi199(std::uint8_t a0, std::uint64_t a1, S3 a2, std::int32_t k);
bool c_run_abi199(std::int32_t k);
std::uint8_t c_abi200(std::uint8_t a0, double a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi200(std::int32_t k);
double c_abi201(std::uint8_t a0, double a1, double a2, std::int32_t k);
bool c_run_abi201(std::int32_t k);
std::unique_ptr<CObj> c_abi202(std::uint8_t a0, double a1, rust::Str a2, std::int32_t k);
bool c_run_abi202(std::int32_t k);
rust::Vec<std::uint8_t> c_abi203(std::uint8_t a0, double a1, S3 a2, std::int32_t k);
bool c_run_abi203(std::int32_t k);
std::shared_ptr<CObj> c_abi204(std::uint8_t a0, S3 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi204(std::int32_t k);
TrivA c_abi205(std::uint8_t a0, S3 a1, double a2, std::int32_t k);
bool c_run_abi205(std::int32_t k);
Eu8 c_abi206(std::uint8_t a0, S3 a1, rust::Str a2, std::int32_t k);
bool c_run_abi206(std::int32_t k);
std::array<std::uint8_t, 4> c_abi207(std::uint8_t a0, S3 a1, S3 a2, std::int32_t k);
bool c_run_abi207(std::int32_t k);
void c_abi208(std::uint8_t a0, rust::String a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi208(std::int32_t k);
rust::String c_abi209(std::uint8_t a0, rust::String a1, double a2, std::int32_t k);
bool c_run_abi209(std::int32_t k);
S3 c_abi210(std::uint8_t a0, rust::String a1, rust::Str a2, std::int32_t k);
bool c_run_abi210(std::int32_t k);
S6 c_abi211(std::uint8_t a0, rust::String a1, S3 a2, std::int32_t k);
bool c_run_abi211(std::int32_t k);
rust::Box<RObj> c_abi212(std::uint8_t a0, S6 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi212(std::int32_t k);
std::uint8_t c_abi213(std::uint8_t a0, S6 a1, double a2, std::int32_t k);
bool c_run_abi213(std::int32_t k);
double c_abi214(std::uint8_t a0, S6 a1, rust::Str a2, std::int32_t k);
bool c_run_abi214(std::int32_t k);
std::unique_ptr<CObj> c_abi215(std::uint8_t a0, S6 a1, S3 a2, std::int32_t k);
bool c_run_abi215(std::int32_t k);
rust::Vec<std::uint8_t> c_abi216(float a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi216(std::int32_t k);
std::shared_ptr<CObj> c_abi217(float a0, std::uint64_t a1, double a2, std::int32_t k);
bool c_run_abi217(std::int32_t k);
TrivA c_abi218(float a0, std::uint64_t a1, rust::Str a2, std::int32_t k);
bool c_run_abi218(std::int32_t k);
Eu8 c_abi219(float a0, std::uint64_t a1, S3 a2, std::int32_t k);
bool c_run_abi219(std::int32_t k);
std::array<std::uint8_t, 4> c_abi220(float a0, double a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi220(std::int32_t k);
void c_abi221(float a0, double a1, double a2, std::int32_t k);
bool c_run_abi221(std::int32_t k);
rust::String c_abi222(float a0, double a1, rust::Str a2, std::int32_t k);
bool c_run_abi222(std::int32_t k);
S3 c_abi223(float a0, double a1, S3 a2, std::int32_t k);
bool c_run_abi223(std::int32_t k);
S6 c_abi224(float a0, S3 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi224(std::int32_t k);
rust::Box<RObj> c_abi225(float a0, S3 a1, double a2, std::int32_t k);
bool c_run_abi225(std::int32_t k);
std::uint8_t c_abi226(float a0, S3 a1, rust::Str a2, std::int32_t k);
bool c_run_abi226(std::int32_t k);
double c_abi227(float a0, S3 a1, S3 a2, std::int32_t k);
bool c_run_abi227(std::int32_t k);
std::unique_ptr<CObj> c_abi228(float a0, rust::String a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi228(std::int32_t k);
rust::Vec<std::uint8_t> c_abi229(float a0, rust::String a1, double a2, std::int32_t k);
bool c_run_abi229(std::int32_t k);
std::shared_ptr<CObj> c_abi230(float a0, rust::String a1, rust::Str a2, std::int32_t k);
bool c_run_abi230(std::int32_t k);
TrivA c_abi231(float a0, rust::String a1, S3 a2, std::int32_t k);
bool c_run_abi231(std::int32_t k);
Eu8 c_abi232(float a0, S6 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi232(std::int32_t k);
std::array<std::uint8_t, 4> c_abi233(float a0, S6 a1, double a2, std::int32_t k);
bool c_run_abi233(std::int32_t k);
void c_abi234(float a0, S6 a1, rust::Str a2, std::int32_t k);
bool c_run_abi234(std::int32_t k);
rust::String c_abi235(float a0, S6 a1, S3 a2, std::int32_t k);
bool c_run_abi235(std::int32_t k);
S3 c_abi236(S2 a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi236(std::int32_t k);
S6 c_abi237(S2 a0, std::uint64_t a1, double a2, std::int32_t k);
bool c_run_abi237(std::int32_t k);
rust::Box<RObj> c_abi238(S2 a0, std::uint64_t a1, rust::Str a2, std::int32_t k);
bool c_run_abi238(std::int32_t k);
std::uint8_t c_abi239(S2 a0, std::uint64_t a1, S3 a2, std::int32_t k);
bool c_run_abi239(std::int32_t k);
double c_abi240(S2 a0, double a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi240(std::int32_t k);
std::unique_ptr<CObj> c_abi241(S2 a0, double a1, double a2, std::int32_t k);
bool c_run_abi241(std::int32_t k);
rust::Vec<std::uint8_t> c_abi242(S2 a0, double a1, rust::Str a2, std::int32_t k);
bool c_run_abi242(std::int32_t k);
std::shared_ptr<CObj> c_abi243(S2 a0, double a1, S3 a2, std::int32_t k);
bool c_run_abi243(std::int32_t k);
TrivA c_abi244(S2 a0, S3 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi244(std::int32_t k);
Eu8 c_abi245(S2 a0, S3 a1, double a2, std::int32_t k);
bool c_run_abi245(std::int32_t k);
std::array<std::uint8_t, 4> c_abi246(S2 a0, S3 a1, rust::Str a2, std::int32_t k);
bool c_run_abi246(std::int32_t k);
void c_abi247(S2 a0, S3 a1, S3 a2, std::int32_t k);
bool c_run_abi247(std::int32_t k);
rust::String c_abi248(S2 a0, rust::String a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi248(std::int32_t k);
S3 c_abi249(S2 a0, rust::String a1, double a2, std::int32_t k);
bool c_run_abi249(std::int32_t k);
S6 c_abi250(S2 a0, rust::String a1, rust::Str a2, std::int32_t k);
bool c_run_abi250(std::int32_t k);
rust::Box<RObj> c_abi251(S2 a0, rust::String a1, S3 a2, std::int32_t k);
bool c_run_abi251(std::int32_t k);
std::uint8_t c_abi252(S2 a0, S6 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi252(std::int32_t k);
double c_abi253(S2 a0, S6 a1, double a2, std::int32_t k);
bool c_run_abi253(std::int32_t k);
std::unique_ptr<CObj> c_abi254(S2 a0, S6 a1, rust::Str a2, std::int32_t k);
bool c_run_abi254(std::int32_t k);
rust::Vec<std::uint8_t> c_abi255(S2 a0, S6 a1, S3 a2, std::int32_t k);
bool c_run_abi255(std::int32_t k);
std::shared_ptr<CObj> c_abi256(S6 a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi256(std::int32_t k);
TrivA c_abi257(S6 a0, std::uint64_t a1, double a2, std::int32_t k);
bool c_run_abi257(std::int32_t k);
Eu8 c_abi258(S6 a0, std::uint64_t a1, rust::Str a2, std::int32_t k);
bool c_run_abi258(std::int32_t k);
std::array<std::uint8_t, 4> c_abi259(S6 a0, std::uint64_t a1, S3 a2, std::int32_t k);
bool c_run_abi259(std::int32_t k);
void c_abi260(S6 a0, double a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi260(std::int32_t k);
rust::String c_abi261(S6 a0, double a1, double a2, std::int32_t k);
bool c_run_abi261(std::int32_t k);
S3 c_abi262(S6 a0, double a1, rust::Str a2, std::int32_t k);
bool c_run_abi262(std::int32_t k);
S6 c_abi263(S6 a0, double a1, S3 a2, std::int32_t k);
bool c_run_abi263(std::int32_t k);
rust::Box<RObj> c_abi264(S6 a0, S3 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi264(std::int32_t k);
std::uint8_t c_abi265(S6 a0, S3 a1, double a2, std::int32_t k);
bool c_run_abi265(std::int32_t k);
double c_abi266(S6 a0, S3 a1, rust::Str a2, std::int32_t k);
bool c_run_abi266(std::int32_t k);
std::unique_ptr<CObj> c_abi267(S6 a0, S3 a1, S3 a2, std::int32_t k);
bool c_run_abi267(std::int32_t k);
rust::Vec<std::uint8_t> c_abi268(S6 a0, rust::String a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi268(std::int32_t k);
std::shared_ptr<CObj> c_abi269(S6 a0, rust::String a1, double a2, std::int32_t k);
bool c_run_abi269(std::int32_t k);
TrivA c_abi270(S6 a0, rust::String a1, rust::Str a2, std::int32_t k);
bool c_run_abi270(std::int32_t k);
Eu8 c_abi271(S6 a0, rust::String a1, S3 a2, std::int32_t k);
bool c_run_abi271(std::int32_t k);
std::array<std::uint8_t, 4> c_abi272(S6 a0, S6 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi272(std::int32_t k);
void c_abi273(S6 a0, S6 a1, double a2, std::int32_t k);
bool c_run_abi273(std::int32_t k);
rust::String c_abi274(S6 a0, S6 a1, rust::Str a2, std::int32_t k);
bool c_run_abi274(std::int32_t k);
S3 c_abi275(S6 a0, S6 a1, S3 a2, std::int32_t k);
bool c_run_abi275(std::int32_t k);
S6 c_abi276(rust::Str a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi276(std::int32_t k);
rust::Box<RObj> c_abi277(rust::Str a0, std::uint64_t a1, double a2, std::int32_t k);
bool c_run_abi277(std::int32_t k);
std::uint8_t c_abi278(rust::Str a0, std::uint64_t a1, rust::Str a2, std::int32_t k);
bool c_run_abi278(std::int32_t k);
double c_abi279(rust::Str a0, std::uint64_t a1, S3 a2, std::int32_t k);
bool c_run_abi279(std::int32_t k);
std::unique_ptr<CObj> c_abi280(rust::Str a0, double a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi280(std::int32_t k);
rust::Vec<std::uint8_t> c_abi281(rust::Str a0, double a1, double a2, std::int32_t k);
bool c_run_abi281(std::int32_t k);
std::shared_ptr<CObj> c_abi282(rust::Str a0, double a1, rust::Str a2, std::int32_t k);
bool c_run_abi282(std::int32_t k);
TrivA c_abi283(rust::Str a0, double a1, S3 a2, std::int32_t k);
bool c_run_abi283(std::int32_t k);
Eu8 c_abi284(rust::Str a0, S3 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi284(std::int32_t k);
std::array<std::uint8_t, 4> c_abi285(rust::Str a0, S3 a1, double a2, std::int32_t k);
bool c_run_abi285(std::int32_t k);
void c_abi286(rust::Str a0, S3 a1, rust::Str a2, std::int32_t k);
bool c_run_abi286(std::int32_t k);
rust::String c_abi287(rust::Str a0, S3 a1, S3 a2, std::int32_t k);
bool c_run_abi287(std::int32_t k);
S3 c_abi288(rust::Str a0, rust::String a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi288(std::int32_t k);
S6 c_abi289(rust::Str a0, rust::String a1, double a2, std::int32_t k);
bool c_run_abi289(std::int32_t k);
rust::Box<RObj> c_abi290(rust::Str a0, rust::String a1, rust::Str a2, std::int32_t k);
bool c_run_abi290(std::int32_t k);
std::uint8_t c_abi291(rust::Str a0, rust::String a1, S3 a2, std::int32_t k);
bool c_run_abi291(std::int32_t k);
double c_abi292(rust::Str a0, S6 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi292(std::int32_t k);
std::unique_ptr<CObj> c_abi293(rust::Str a0, S6 a1, double a2, std::int32_t k);
bool c_run_abi293(std::int32_t k);
rust::Vec<std::uint8_t> c_abi294(rust::Str a0, S6 a1, rust::Str a2, std::int32_t k);
bool c_run_abi294(std::int32_t k);
std::shared_ptr<CObj> c_abi295(rust::Str a0, S6 a1, S3 a2, std::int32_t k);
bool c_run_abi295(std::int32_t k);
TrivA c_abi296(S3 a0, std::uint64_t a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi296(std::int32_t k);
Eu8 c_abi297(S3 a0, std::uint64_t a1, double a2, std::int32_t k);
bool c_run_abi297(std::int32_t k);
std::array<std::uint8_t, 4> c_abi298(S3 a0, std::uint64_t a1, rust::Str a2, std::int32_t k);
bool c_run_abi298(std::int32_t k);
void c_abi299(S3 a0, std::uint64_t a1, S3 a2, std::int32_t k);
bool c_run_abi299(std::int32_t k);
rust::String c_abi300(S3 a0, double a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi300(std::int32_t k);
S3 c_abi301(S3 a0, double a1, double a2, std::int32_t k);
bool c_run_abi301(std::int32_t k);
S6 c_abi302(S3 a0, double a1, rust::Str a2, std::int32_t k);
bool c_run_abi302(std::int32_t k);
rust::Box<RObj> c_abi303(S3 a0, double a1, S3 a2, std::int32_t k);
bool c_run_abi303(std::int32_t k);
std::uint8_t c_abi304(S3 a0, S3 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi304(std::int32_t k);
double c_abi305(S3 a0, S3 a1, double a2, std::int32_t k);
bool c_run_abi305(std::int32_t k);
std::unique_ptr<CObj> c_abi306(S3 a0, S3 a1, rust::Str a2, std::int32_t k);
bool c_run_abi306(std::int32_t k);
rust::Vec<std::uint8_t> c_abi307(S3 a0, S3 a1, S3 a2, std::int32_t k);
bool c_run_abi307(std::int32_t k);
std::shared_ptr<CObj> c_abi308(S3 a0, rust::String a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi308(std::int32_t k);
TrivA c_abi309(S3 a0, rust::String a1, double a2, std::int32_t k);
bool c_run_abi309(std::int32_t k);
Eu8 c_abi310(S3 a0, rust::String a1, rust::Str a2, std::int32_t k);
bool c_run_abi310(std::int32_t k);
std::array<std::uint8_t, 4> c_abi311(S3 a0, rust::String a1, S3 a2, std::int32_t k);
bool c_run_abi311(std::int32_t k);
void c_abi312(S3 a0, S6 a1, std::uint8_t a2, std::int32_t k);
bool c_run_abi312(std::int32_t k);
rust::String c_abi313(S3 a0, S6 a1, double a2, std::int32_t k);
bool c_run_abi313(std::int32_t k);
S3 c_abi314(S3 a0, S6 a1, rust::Str a2, std::int32_t k);
bool c_run_abi314(std::int32_t k);
S6 c_abi315(S3 a0, S6 a1, S3 a2, std::int32_t k);
bool c_run_abi315(std::int32_t k);
rust::Box<RObj> c_abi316(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, S3 a5, S6 a6, rust::String a7, rust::Str a8, rust::Box<RObj> a9, std::unique_ptr<CObj> a10, rust::Slice<const std::uint16_t> a11, bool a12, Eu8 a13, TrivA a14, std::array<std::uint8_t, 4> a15, S2 const & a16, std::shared_ptr<CObj> a17, std::weak_ptr<CObj> a18, rust::Vec<std::uint8_t> a19, RObj const & a20, S7 & a21, std::int8_t a22, char a23, std::int32_t k);
bool c_run_abi316(std::int32_t k);
std::uint8_t c_abi317(float a0, double a1, S2 a2, S3 a3, S6 a4, rust::String a5, rust::Str a6, rust::Box<RObj> a7, std::unique_ptr<CObj> a8, rust::Slice<const std::uint16_t> a9, bool a10, Eu8 a11, TrivA a12, std::array<std::uint8_t, 4> a13, S2 const & a14, std::shared_ptr<CObj> a15, std::weak_ptr<CObj> a16, rust::Vec<std::uint8_t> a17, RObj const & a18, S7 & a19, std::int8_t a20, char a21, std::uint8_t a22, std::uint64_t a23, std::int32_t k);
bool c_run_abi317(std::int32_t k);
double c_abi318(S2 a0, S3 a1, S6 a2, rust::String a3, rust::Str a4, rust::Box<RObj> a5, std::unique_ptr<CObj> a6, rust::Slice<const std::uint16_t> a7, bool a8, Eu8 a9, TrivA a10, std::array<std::uint8_t, 4> a11, S2 const & a12, std::shared_ptr<CObj> a13, std::weak_ptr<CObj> a14, rust::Vec<std::uint8_t> a15, RObj const & a16, S7 & a17, std::int8_t a18, char a19, std::uint8_t a20, std::uint64_t a21, float a22, double a23, std::int32_t k);
bool c_run_abi318(std::int32_t k);
std::unique_ptr<CObj> c_abi319(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, rust::Slice<const std::uint16_t> a5, bool a6, Eu8 a7, TrivA a8, std::array<std::uint8_t, 4> a9, S2 const & a10, std::shared_ptr<CObj> a11, std::weak_ptr<CObj> a12, rust::Vec<std::uint8_t> a13, RObj const & a14, S7 & a15, std::int8_t a16, char a17, std::uint8_t a18, std::uint64_t a19, float a20, double a21, S2 a22, S3 a23, std::int32_t k);
bool c_run_abi319(std::int32_t k);
rust::Vec<std::uint8_t> c_abi320(rust::Str a0, rust::Box<RObj> a1, std::unique_ptr<CObj> a2, rust::Slice<const std::uint16_t> a3, bool a4, Eu8 a5, TrivA a6, std::array<std::uint8_t, 4> a7, S2 const & a8, std::shared_ptr<CObj> a9, std::weak_ptr<CObj> a10, rust::Vec<std::uint8_t> a11, RObj const & a12, S7 & a13, std::int8_t a14, char a15, std::uint8_t a16, std::uint64_t a17, float a18, double a19, S2 a20, S3 a21, S6 a22, rust::String a23, std::int32_t k);
bool c_run_abi320(std::int32_t k);
std::shared_ptr<CObj> c_abi321(std::unique_ptr<CObj> a0, rust::Slice<const std::uint16_t> a1, bool a2, Eu8 a3, TrivA a4, std::array<std::uint8_t, 4> a5, S2 const & a6, std::shared_ptr<CObj> a7, std::weak_ptr<CObj> a8, rust::Vec<std::uint8_t> a9, RObj const & a10, S7 & a11, std::int8_t a12, char a13, std::uint8_t a14, std::uint64_t a15, float a16, double a17, S2 a18, S3 a19, S6 a20, rust::String a21, rust::Str a22, rust::Box<RObj> a23, std::int32_t k);
bool c_run_abi321(std::int32_t k);
TrivA c_abi322(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::shared_ptr<CObj> a5, std::weak_ptr<CObj> a6, rust::Vec<std::uint8_t> a7, RObj const & a8, S7 & a9, std::int8_t a10, char a11, std::uint8_t a12, std::uint64_t a13, float a14, double a15, S2 a16, S3 a17, S6 a18, rust::String a19, rust::Str a20, rust::Box<RObj> a21, std::unique_ptr<CObj> a22, rust::Slice<const std::uint16_t> a23, std::int32_t k);
bool c_run_abi322(std::int32_t k);
Eu8 c_abi323(TrivA a0, std::array<std::uint8_t, 4> a1, S2 const & a2, std::shared_ptr<CObj> a3, std::weak_ptr<CObj> a4, rust::Vec<std::uint8_t> a5, RObj const & a6, S7 & a7, std::int8_t a8, char a9, std::uint8_t a10, std::uint64_t a11, float a12, double a13, S2 a14, S3 a15, S6 a16, rust::String a17, rust::Str a18, rust::Box<RObj> a19, std::unique_ptr<CObj> a20, rust::Slice<const std::uint16_t> a21, bool a22, Eu8 a23, std::int32_t k);
bool c_run_abi323(std::int32_t k);
std::array<std::uint8_t, 4> c_abi324(S2 const & a0, std::shared_ptr<CObj> a1, std::weak_ptr<CObj> a2, rust::Vec<std::uint8_t> a3, RObj const & a4, S7 & a5, std::int8_t a6, char a7, std::uint8_t a8, std::uint64_t a9, float a10, double a11, S2 a12, S3 a13, S6 a14, rust::String a15, rust::Str a16, rust::Box<RObj> a17, std::unique_ptr<CObj> a18, rust::Slice<const std::uint16_t> a19, bool a20, Eu8 a21, TrivA a22, std::array<std::uint8_t, 4> a23, std::int32_t k);
bool c_run_abi324(std::int32_t k);
void c_abi325(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, char a5, std::uint8_t a6, std::uint64_t a7, float a8, double a9, S2 a10, S3 a11, S6 a12, rust::String a13, rust::Str a14, rust::Box<RObj> a15, std::unique_ptr<CObj> a16, rust::Slice<const std::uint16_t> a17, bool a18, Eu8 a19, TrivA a20, std::array<std::uint8_t, 4> a21, S2 const & a22, std::shared_ptr<CObj> a23, std::int32_t k);
bool c_run_abi325(std::int32_t k);
rust::String c_abi326(RObj const & a0, S7 & a1, std::int8_t a2, char a3, std::uint8_t a4, std::uint64_t a5, float a6, double a7, S2 a8, S3 a9, S6 a10, rust::String a11, rust::Str a12, rust::Box<RObj> a13, std::unique_ptr<CObj> a14, rust::Slice<const std::uint16_t> a15, bool a16, Eu8 a17, TrivA a18, std::array<std::uint8_t, 4> a19, S2 const & a20, std::shared_ptr<CObj> a21, std::weak_ptr<CObj> a22, rust::Vec<std::uint8_t> a23, std::int32_t k);
bool c_run_abi326(std::int32_t k);
S3 c_abi327(std::int8_t a0, char a1, std::uint8_t a2, std::uint64_t a3, float a4, double a5, S2 a6, S3 a7, S6 a8, rust::String a9, rust::Str a10, rust::Box<RObj> a11, std::unique_ptr<CObj> a12, rust::Slice<const std::uint16_t> a13, bool a14, Eu8 a15, TrivA a16, std::array<std::uint8_t, 4> a17, S2 const & a18, std::shared_ptr<CObj> a19, std::weak_ptr<CObj> a20, rust::Vec<std::uint8_t> a21, RObj const & a22, S7 & a23, std::int32_t k);
bool c_run_abi327(std::int32_t k);
S6 c_abi328(std::uint8_t a0, std::uint64_t a1, float a2, double a3, std::int32_t k);
bool c_run_abi328(std::int32_t k);
rust::Box<RObj> c_abi329(double a0, S2 a1, S3 a2, S6 a3, std::int32_t k);
bool c_run_abi329(std::int32_t k);
std::uint8_t c_abi330(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::int32_t k);
bool c_run_abi330(std::int32_t k);
double c_abi331(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, std::int32_t k);
bool c_run_abi331(std::int32_t k);
std::unique_ptr<CObj> c_abi332(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, std::int32_t k);
bool c_run_abi332(std::int32_t k);
rust::Vec<std::uint8_t> c_abi333(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, std::int32_t k);
bool c_run_abi333(std::int32_t k);
std::shared_ptr<CObj> c_abi334(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int32_t k);
bool c_run_abi334(std::int32_t k);
TrivA c_abi335(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::int32_t k);
bool c_run_abi335(std::int32_t k);
Eu8 c_abi336(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, std::int32_t k);
bool c_run_abi336(std::int32_t k);
std::array<std::uint8_t, 4> c_abi337(double a0, S2 a1, S3 a2, S6 a3, rust::String a4, std::int32_t k);
bool c_run_abi337(std::int32_t k);
void c_abi338(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, std::int32_t k);
bool c_run_abi338(std::int32_t k);
rust::String c_abi339(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, Eu8 a4, std::int32_t k);
bool c_run_abi339(std::int32_t k);
S3 c_abi340(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::int32_t k);
bool c_run_abi340(std::int32_t k);
S6 c_abi341(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, rust::Vec<std::uint8_t> a4, std::int32_t k);
bool c_run_abi341(std::int32_t k);
rust::Box<RObj> c_abi342(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, std::int32_t k);
bool c_run_abi342(std::int32_t k);
std::uint8_t c_abi343(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::uint64_t a4, std::int32_t k);
bool c_run_abi343(std::int32_t k);
double c_abi344(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, S3 a5, std::int32_t k);
bool c_run_abi344(std::int32_t k);
std::unique_ptr<CObj> c_abi345(double a0, S2 a1, S3 a2, S6 a3, rust::String a4, rust::Str a5, std::int32_t k);
bool c_run_abi345(std::int32_t k);
rust::Vec<std::uint8_t> c_abi346(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, rust::Slice<const std::uint16_t> a5, std::int32_t k);
bool c_run_abi346(std::int32_t k);
std::shared_ptr<CObj> c_abi347(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, Eu8 a4, TrivA a5, std::int32_t k);
bool c_run_abi347(std::int32_t k);
TrivA c_abi348(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::shared_ptr<CObj> a5, std::int32_t k);
bool c_run_abi348(std::int32_t k);
Eu8 c_abi349(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, rust::Vec<std::uint8_t> a4, RObj const & a5, std::int32_t k);
bool c_run_abi349(std::int32_t k);
std::array<std::uint8_t, 4> c_abi350(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, char a5, std::int32_t k);
bool c_run_abi350(std::int32_t k);
void c_abi351(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::uint64_t a4, float a5, std::int32_t k);
bool c_run_abi351(std::int32_t k);
rust::String c_abi352(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, S3 a5, S6 a6, std::int32_t k);
bool c_run_abi352(std::int32_t k);
S3 c_abi353(double a0, S2 a1, S3 a2, S6 a3, rust::String a4, rust::Str a5, rust::Box<RObj> a6, std::int32_t k);
bool c_run_abi353(std::int32_t k);
S6 c_abi354(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, rust::Slice<const std::uint16_t> a5, bool a6, std::int32_t k);
bool c_run_abi354(std::int32_t k);
rust::Box<RObj> c_abi355(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, Eu8 a4, TrivA a5, std::array<std::uint8_t, 4> a6, std::int32_t k);
bool c_run_abi355(std::int32_t k);
std::uint8_t c_abi356(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::shared_ptr<CObj> a5, std::weak_ptr<CObj> a6, std::int32_t k);
bool c_run_abi356(std::int32_t k);
double c_abi357(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, rust::Vec<std::uint8_t> a4, RObj const & a5, S7 & a6, std::int32_t k);
bool c_run_abi357(std::int32_t k);
std::unique_ptr<CObj> c_abi358(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, char a5, std::uint8_t a6, std::int32_t k);
bool c_run_abi358(std::int32_t k);
rust::Vec<std::uint8_t> c_abi359(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::uint64_t a4, float a5, double a6, std::int32_t k);
bool c_run_abi359(std::int32_t k);
std::shared_ptr<CObj> c_abi360(std::uint8_t a0, std::uint64_t a1, float a2, double a3, S2 a4, S3 a5, S6 a6, rust::String a7, std::int32_t k);
bool c_run_abi360(std::int32_t k);
TrivA c_abi361(double a0, S2 a1, S3 a2, S6 a3, rust::String a4, rust::Str a5, rust::Box<RObj> a6, std::unique_ptr<CObj> a7, std::int32_t k);
bool c_run_abi361(std::int32_t k);
Eu8 c_abi362(S6 a0, rust::String a1, rust::Str a2, rust::Box<RObj> a3, std::unique_ptr<CObj> a4, rust::Slice<const std::uint16_t> a5, bool a6, Eu8 a7, std::int32_t k);
bool c_run_abi362(std::int32_t k);
std::array<std::uint8_t, 4> c_abi363(rust::Box<RObj> a0, std::unique_ptr<CObj> a1, rust::Slice<const std::uint16_t> a2, bool a3, Eu8 a4, TrivA a5, std::array<std::uint8_t, 4> a6, S2 const & a7, std::int32_t k);
bool c_run_abi363(std::int32_t k);
void c_abi364(bool a0, Eu8 a1, TrivA a2, std::array<std::uint8_t, 4> a3, S2 const & a4, std::shared_ptr<CObj> a5, std::weak_ptr<CObj> a6, rust::Vec<std::uint8_t> a7, std::int32_t k);
bool c_run_abi364(std::int32_t k);
rust::String c_abi365(std::array<std::uint8_t, 4> a0, S2 const & a1, std::shared_ptr<CObj> a2, std::weak_ptr<CObj> a3, rust::Vec<std::uint8_t> a4, RObj const & a5, S7 & a6, std::int8_t a7, std::int32_t k);
bool c_run_abi365(std::int32_t k);
S3 c_abi366(std::weak_ptr<CObj> a0, rust::Vec<std::uint8_t> a1, RObj const & a2, S7 & a3, std::int8_t a4, char a5, std::uint8_t a6, std::uint64_t a7, std::int32_t k);
bool c_run_abi366(std::int32_t k);
S6 c_abi367(S7 & a0, std::int8_t a1, char a2, std::uint8_t a3, std::uint64_t a4, float a5, double a6, S2 a7, std::int32_t k);
bool c_run_abi367(std::int32_t k);
std::unique_ptr<CObj> c_store_CObj(std::int32_t k);
} // namespace c09d
