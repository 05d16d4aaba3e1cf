// Generated by gen_sig.py.
#include "rt/src/c09a.rs.h"
namespace c09a {
[[maybe_unused]] static float mk_f32(int k);
[[maybe_unused]] static bool ck_f32(float const & v, int k); [[maybe_unused]] static std::uintptr_t ad_f32(float const & v);
[[maybe_unused]] static S3 mk_S3(int k);
[[maybe_unused]] static bool ck_S3(S3 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S3(S3 const & v);
[[maybe_unused]] static bool mk_bool(int k);
[[maybe_unused]] static bool ck_bool(bool const & v, int k); [[maybe_unused]] static std::uintptr_t ad_bool(bool const & v);
[[maybe_unused]] static std::uint8_t mk_u8(int k);
[[maybe_unused]] static bool ck_u8(std::uint8_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u8(std::uint8_t const & v);
[[maybe_unused]] static std::int8_t mk_i8(int k);
[[maybe_unused]] static bool ck_i8(std::int8_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i8(std::int8_t const & v);
[[maybe_unused]] static std::uint16_t mk_u16(int k);
[[maybe_unused]] static bool ck_u16(std::uint16_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u16(std::uint16_t const & v);
[[maybe_unused]] static std::int16_t mk_i16(int k);
[[maybe_unused]] static bool ck_i16(std::int16_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i16(std::int16_t const & v);
[[maybe_unused]] static std::uint32_t mk_u32(int k);
[[maybe_unused]] static bool ck_u32(std::uint32_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u32(std::uint32_t const & v);
[[maybe_unused]] static std::int32_t mk_i32(int k);
[[maybe_unused]] static bool ck_i32(std::int32_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i32(std::int32_t const & v);
[[maybe_unused]] static std::uint64_t mk_u64(int k);
[[maybe_unused]] static bool ck_u64(std::uint64_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u64(std::uint64_t const & v);
[[maybe_unused]] static std::int64_t mk_i64(int k);
[[maybe_unused]] static bool ck_i64(std::int64_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i64(std::int64_t const & v);
[[maybe_unused]] static std::size_t mk_usize(int k);
[[maybe_unused]] static bool ck_usize(std::size_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_usize(std::size_t const & v);
[[maybe_unused]] static rust::isize mk_isize(int k);
[[maybe_unused]] static bool ck_isize(rust::isize const & v, int k); [[maybe_unused]] static std::uintptr_t ad_isize(rust::isize const & v);
[[maybe_unused]] static char mk_c_char(int k);
[[maybe_unused]] static bool ck_c_char(char const & v, int k); [[maybe_unused]] static std::uintptr_t ad_c_char(char const & v);
[[maybe_unused]] static double mk_f64(int k);
[[maybe_unused]] static bool ck_f64(double const & v, int k); [[maybe_unused]] static std::uintptr_t ad_f64(double const & v);
[[maybe_unused]] static Eu8 mk_Eu8(int k);
[[maybe_unused]] static bool ck_Eu8(Eu8 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Eu8(Eu8 const & v);
[[maybe_unused]] static Ei8 mk_Ei8(int k);
[[maybe_unused]] static bool ck_Ei8(Ei8 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Ei8(Ei8 const & v);
[[maybe_unused]] static Eu16 mk_Eu16(int k);
[[maybe_unused]] static bool ck_Eu16(Eu16 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Eu16(Eu16 const & v);
[[maybe_unused]] static Ei32 mk_Ei32(int k);
[[maybe_unused]] static bool ck_Ei32(Ei32 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Ei32(Ei32 const & v);
[[maybe_unused]] static Eu32 mk_Eu32(int k);
[[maybe_unused]] static bool ck_Eu32(Eu32 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Eu32(Eu32 const & v);
[[maybe_unused]] static Ei64 mk_Ei64(int k);
[[maybe_unused]] static bool ck_Ei64(Ei64 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Ei64(Ei64 const & v);
[[maybe_unused]] static Eu64 mk_Eu64(int k);
[[maybe_unused]] static bool ck_Eu64(Eu64 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Eu64(Eu64 const & v);
[[maybe_unused]] static XE mk_XE(int k);
[[maybe_unused]] static bool ck_XE(XE const & v, int k); [[maybe_unused]] static std::uintptr_t ad_XE(XE const & v);
[[maybe_unused]] static rust::Str mk_str(int k);
[[maybe_unused]] static bool ck_str(rust::Str const & v, int k); [[maybe_unused]] static std::uintptr_t ad_str(rust::Str const & v);
[[maybe_unused]] static rust::String mk_String(int k);
[[maybe_unused]] static bool ck_String(rust::String const & v, int k); [[maybe_unused]] static std::uintptr_t ad_String(rust::String const & v);
[[maybe_unused]] static S1 mk_S1(int k);
[[maybe_unused]] static bool ck_S1(S1 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S1(S1 const & v);
[[maybe_unused]] static S2 mk_S2(int k);
[[maybe_unused]] static bool ck_S2(S2 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S2(S2 const & v);
[[maybe_unused]] static S4 mk_S4(int k);
[[maybe_unused]] static bool ck_S4(S4 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S4(S4 const & v);
[[maybe_unused]] static S5 mk_S5(int k);
[[maybe_unused]] static bool ck_S5(S5 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S5(S5 const & v);
[[maybe_unused]] static S6 mk_S6(int k);
[[maybe_unused]] static bool ck_S6(S6 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S6(S6 const & v);
[[maybe_unused]] static S7 mk_S7(int k);
[[maybe_unused]] static bool ck_S7(S7 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S7(S7 const & v);
[[maybe_unused]] static bool ck_RObj(RObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_RObj(RObj const & v);
[[maybe_unused]] static rust::Box<RObj> mk_Box_RObj(int k);
[[maybe_unused]] static bool ck_Box_RObj(rust::Box<RObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Box_RObj(rust::Box<RObj> const & v);
[[maybe_unused]] static S8 mk_S8(int k);
[[maybe_unused]] static bool ck_S8(S8 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S8(S8 const & v);
[[maybe_unused]] static CObj mk_CObj(int k);
[[maybe_unused]] static bool ck_CObj(CObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CObj(CObj const & v);
[[maybe_unused]] static std::unique_ptr<CObj> mk_UniquePtr_CObj(int k);
[[maybe_unused]] static bool ck_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CObj(std::unique_ptr<CObj> const & v);
[[maybe_unused]] static S9 mk_S9(int k);
[[maybe_unused]] static bool ck_S9(S9 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S9(S9 const & v);
[[maybe_unused]] static S10 mk_S10(int k);
[[maybe_unused]] static bool ck_S10(S10 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S10(S10 const & v);
[[maybe_unused]] static std::array<std::uint8_t, 3> mk_arr3_u8(int k);
[[maybe_unused]] static bool ck_arr3_u8(std::array<std::uint8_t, 3> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr3_u8(std::array<std::uint8_t, 3> const & v);
[[maybe_unused]] static S11 mk_S11(int k);
[[maybe_unused]] static bool ck_S11(S11 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S11(S11 const & v);
[[maybe_unused]] static std::array<S2, 3> mk_arr3_S2(int k);
[[maybe_unused]] static bool ck_arr3_S2(std::array<S2, 3> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr3_S2(std::array<S2, 3> const & v);
[[maybe_unused]] static S12 mk_S12(int k);
[[maybe_unused]] static bool ck_S12(S12 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S12(S12 const & v);
[[maybe_unused]] static rust::Vec<rust::String> mk_Vec_String(int k);
[[maybe_unused]] static bool ck_Vec_String(rust::Vec<rust::String> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_String(rust::Vec<rust::String> const & v);
[[maybe_unused]] static rust::Vec<S2> mk_Vec_S2(int k);
[[maybe_unused]] static bool ck_Vec_S2(rust::Vec<S2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_S2(rust::Vec<S2> const & v);
[[maybe_unused]] static S13 mk_S13(int k);
[[maybe_unused]] static bool ck_S13(S13 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S13(S13 const & v);
[[maybe_unused]] static S14 mk_S14(int k);
[[maybe_unused]] static bool ck_S14(S14 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S14(S14 const & v);
[[maybe_unused]] static S15 mk_S15(int k);
[[maybe_unused]] static bool ck_S15(S15 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S15(S15 const & v);
[[maybe_unused]] static S16 mk_S16(int k);
[[maybe_unused]] static bool ck_S16(S16 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S16(S16 const & v);
[[maybe_unused]] static S17 mk_S17(int k);
[[maybe_unused]] static bool ck_S17(S17 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S17(S17 const & v);
[[maybe_unused]] static S18 mk_S18(int k);
[[maybe_unused]] static bool ck_S18(S18 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S18(S18 const & v);
[[maybe_unused]] static std::shared_ptr<CObj> mk_SharedPtr_CObj(int k);
[[maybe_unused]] static bool ck_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_CObj(std::shared_ptr<CObj> const & v);
[[maybe_unused]] static S19 mk_S19(int k);
[[maybe_unused]] static bool ck_S19(S19 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S19(S19 const & v);
[[maybe_unused]] static std::string mk_CxxString(int k);
[[maybe_unused]] static bool ck_CxxString(std::string const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxString(std::string const & v);
[[maybe_unused]] static std::unique_ptr<std::string> mk_UniquePtr_CxxString(int k);
[[maybe_unused]] static bool ck_UniquePtr_CxxString(std::unique_ptr<std::string> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CxxString(std::unique_ptr<std::string> const & v);
[[maybe_unused]] static S20 mk_S20(int k);
[[maybe_unused]] static bool ck_S20(S20 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S20(S20 const & v);
[[maybe_unused]] static S21 mk_S21(int k);
[[maybe_unused]] static bool ck_S21(S21 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S21(S21 const & v);
[[maybe_unused]] static rust::Slice<const std::uint16_t> mk_sl_u16(int k);
[[maybe_unused]] static bool ck_sl_u16(rust::Slice<const std::uint16_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_u16(rust::Slice<const std::uint16_t> const & v);
[[maybe_unused]] static S22 mk_S22(int k);
[[maybe_unused]] static bool ck_S22(S22 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S22(S22 const & v);
[[maybe_unused]] static S2 const & mk_ref_S2(int k);
[[maybe_unused]] static bool ck_ref_S2(S2 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_S2(S2 const & v);
[[maybe_unused]] static S23 mk_S23(int k);
[[maybe_unused]] static bool ck_S23(S23 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S23(S23 const & v);
[[maybe_unused]] static TrivA mk_TrivA(int k);
[[maybe_unused]] static bool ck_TrivA(TrivA const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivA(TrivA const & v);
[[maybe_unused]] static TrivB mk_TrivB(int k);
[[maybe_unused]] static bool ck_TrivB(TrivB const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivB(TrivB const & v);
[[maybe_unused]] static TrivC mk_TrivC(int k);
[[maybe_unused]] static bool ck_TrivC(TrivC const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivC(TrivC const & v);
[[maybe_unused]] static TrivD mk_TrivD(int k);
[[maybe_unused]] static bool ck_TrivD(TrivD const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivD(TrivD const & v);
[[maybe_unused]] static TrivM mk_TrivM(int k);
[[maybe_unused]] static bool ck_TrivM(TrivM const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivM(TrivM const & v);
[[maybe_unused]] static std::array<std::uint8_t, 4> mk_arr4_u8(int k);
[[maybe_unused]] static bool ck_arr4_u8(std::array<std::uint8_t, 4> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr4_u8(std::array<std::uint8_t, 4> const & v);
[[maybe_unused]] static std::array<std::uint32_t, 1> mk_arr1_u32(int k);
[[maybe_unused]] static bool ck_arr1_u32(std::array<std::uint32_t, 1> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr1_u32(std::array<std::uint32_t, 1> const & v);
[[maybe_unused]] static std::array<rust::String, 2> mk_arr2_String(int k);
[[maybe_unused]] static bool ck_arr2_String(std::array<rust::String, 2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr2_String(std::array<rust::String, 2> const & v);
[[maybe_unused]] static std::array<std::int32_t, 2> mk_arr2_i32(int k);
[[maybe_unused]] static bool ck_arr2_i32(std::array<std::int32_t, 2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr2_i32(std::array<std::int32_t, 2> const & v);
[[maybe_unused]] static std::array<std::array<std::int32_t, 2>, 2> mk_arr2_arr2_i32(int k);
[[maybe_unused]] static bool ck_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> const & v);
[[maybe_unused]] static std::array<Eu8, 2> mk_arr2_Eu8(int k);
[[maybe_unused]] static bool ck_arr2_Eu8(std::array<Eu8, 2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr2_Eu8(std::array<Eu8, 2> const & v);
[[maybe_unused]] static std::array<double, 2> mk_arr2_f64(int k);
[[maybe_unused]] static bool ck_arr2_f64(std::array<double, 2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr2_f64(std::array<double, 2> const & v);
[[maybe_unused]] static std::array<bool, 9> mk_arr9_bool(int k);
[[maybe_unused]] static bool ck_arr9_bool(std::array<bool, 9> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr9_bool(std::array<bool, 9> const & v);
[[maybe_unused]] static S2 &cs_S2(int k); [[maybe_unused]] static S2 &cp_S2(int k);
[[maybe_unused]] static std::uint16_t *cs_sl_u16(int k); [[maybe_unused]] static std::uint16_t *cp_sl_u16(int k);
static float mk_f32(int k) { std::uint32_t t[4] = {0x80000000, 0x7f800000, 0x3fc00000, 0x7fc00001}; float r; std::memcpy(&r, &t[k], sizeof r); return r; }
static bool ck_f32(float const & v, int k) { (void)k; return [&]{ auto w = mk_f32(k); return std::memcmp(&v, &w, sizeof w) == 0; }(); }
static std::uintptr_t ad_f32(float const & v) { (void)v; return 0; }
static S3 mk_S3(int k) { return S3{mk_f32((k + 0) & 3), mk_f32((k + 1) & 3)}; }
static bool ck_S3(S3 const & v, int k) { (void)k; return ck_f32(v.f0, (k + 0) & 3) && ck_f32(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S3(S3 const & v) { (void)v; return 0; }
static bool mk_bool(int k) { return k & 1; }
static bool ck_bool(bool const & v, int k) { (void)k; return v == bool(k & 1); }
static std::uintptr_t ad_bool(bool const & v) { (void)v; return 0; }
static std::uint8_t mk_u8(int k) { std::uint8_t t[4] = {0, 1, 128, 255}; return t[k]; }
static bool ck_u8(std::uint8_t const & v, int k) { (void)k; return v == mk_u8(k); }
static std::uintptr_t ad_u8(std::uint8_t const & v) { (void)v; return 0; }
static std::int8_t mk_i8(int k) { std::int8_t t[4] = {0, 1, -128, 127}; return t[k]; }
static bool ck_i8(std::int8_t const & v, int k) { (void)k; return v == mk_i8(k); }
static std::uintptr_t ad_i8(std::int8_t const & v) { (void)v; return 0; }
static std::uint16_t mk_u16(int k) { std::uint16_t t[4] = {0, 1, 32768, 65535}; return t[k]; }
static bool ck_u16(std::uint16_t const & v, int k) { (void)k; return v == mk_u16(k); }
static std::uintptr_t ad_u16(std::uint16_t const & v) { (void)v; return 0; }
static std::int16_t mk_i16(int k) { std::int16_t t[4] = {0, 1, -32768, 32767}; return t[k]; }
static bool ck_i16(std::int16_t const & v, int k) { (void)k; return v == mk_i16(k); }
static std::uintptr_t ad_i16(std::int16_t const & v) { (void)v; return 0; }
static std::uint32_t mk_u32(int k) { std::uint32_t t[4] = {0, 1, 2147483648ll, 4294967295ll}; return t[k]; }
static bool ck_u32(std::uint32_t const & v, int k) { (void)k; return v == mk_u32(k); }
static std::uintptr_t ad_u32(std::uint32_t const & v) { (void)v; return 0; }
static std::int32_t mk_i32(int k) { std::int32_t t[4] = {0, 1, -2147483648ll, 2147483647}; return t[k]; }
static bool ck_i32(std::int32_t const & v, int k) { (void)k; return v == mk_i32(k); }
static std::uintptr_t ad_i32(std::int32_t const & v) { (void)v; return 0; }
static std::uint64_t mk_u64(int k) { std::uint64_t t[4] = {0, 1, 9223372036854775808ull, 18446744073709551615ull}; return t[k]; }
static bool ck_u64(std::uint64_t const & v, int k) { (void)k; return v == mk_u64(k); }
static std::uintptr_t ad_u64(std::uint64_t const & v) { (void)v; return 0; }
static std::int64_t mk_i64(int k) { std::int64_t t[4] = {0, 1, INT64_MIN, 9223372036854775807ll}; return t[k]; }
static bool ck_i64(std::int64_t const & v, int k) { (void)k; return v == mk_i64(k); }
static std::uintptr_t ad_i64(std::int64_t const & v) { (void)v; return 0; }
static std::size_t mk_usize(int k) { std::size_t t[4] = {0, 1, 9223372036854775808ull, 18446744073709551615ull}; return t[k]; }
static bool ck_usize(std::size_t const & v, int k) { (void)k; return v == mk_usize(k); }
static std::uintptr_t ad_usize(std::size_t const & v) { (void)v; return 0; }
static rust::isize mk_isize(int k) { rust::isize t[4] = {0, 1, INT64_MIN, 9223372036854775807ll}; return t[k]; }
static bool ck_isize(rust::isize const & v, int k) { (void)k; return v == mk_isize(k); }
static std::uintptr_t ad_isize(rust::isize const & v) { (void)v; return 0; }
static char mk_c_char(int k) { char t[4] = {'\0', 'a', char(0x80), char(0xff)}; return t[k]; }
static bool ck_c_char(char const & v, int k) { (void)k; return v == mk_c_char(k); }
static std::uintptr_t ad_c_char(char const & v) { (void)v; return 0; }
static double mk_f64(int k) { std::uint64_t t[4] = {0x8000000000000000, 0xfff0000000000000, 0x3ff8000000000000, 0x7ff8000000000123}; double r; std::memcpy(&r, &t[k], sizeof r); return r; }
static bool ck_f64(double const & v, int k) { (void)k; return [&]{ auto w = mk_f64(k); return std::memcmp(&v, &w, sizeof w) == 0; }(); }
static std::uintptr_t ad_f64(double const & v) { (void)v; return 0; }
static Eu8 mk_Eu8(int k) { Eu8 t[4] = {Eu8::V0, Eu8::V1, Eu8::V2, Eu8::V3}; return t[k]; }
static bool ck_Eu8(Eu8 const & v, int k) { (void)k; return v == mk_Eu8(k); }
static std::uintptr_t ad_Eu8(Eu8 const & v) { (void)v; return 0; }
static Ei8 mk_Ei8(int k) { Ei8 t[4] = {Ei8::V0, Ei8::V1, Ei8::V2, Ei8::V3}; return t[k]; }
static bool ck_Ei8(Ei8 const & v, int k) { (void)k; return v == mk_Ei8(k); }
static std::uintptr_t ad_Ei8(Ei8 const & v) { (void)v; return 0; }
static Eu16 mk_Eu16(int k) { Eu16 t[4] = {Eu16::V0, Eu16::V1, Eu16::V2, Eu16::V3}; return t[k]; }
static bool ck_Eu16(Eu16 const & v, int k) { (void)k; return v == mk_Eu16(k); }
static std::uintptr_t ad_Eu16(Eu16 const & v) { (void)v; return 0; }
static Ei32 mk_Ei32(int k) { Ei32 t[4] = {Ei32::V0, Ei32::V1, Ei32::V2, Ei32::V3}; return t[k]; }
static bool ck_Ei32(Ei32 const & v, int k) { (void)k; return v == mk_Ei32(k); }
static std::uintptr_t ad_Ei32(Ei32 const & v) { (void)v; return 0; }
static Eu32 mk_Eu32(int k) { Eu32 t[4] = {Eu32::V0, Eu32::V1, Eu32::V2, Eu32::V3}; return t[k]; }
static bool ck_Eu32(Eu32 const & v, int k) { (void)k; return v == mk_Eu32(k); }
static std::uintptr_t ad_Eu32(Eu32 const & v) { (void)v; return 0; }
static Ei64 mk_Ei64(int k) { Ei64 t[4] = {Ei64::V0, Ei64::V1, Ei64::V2, Ei64::V3}; return t[k]; }
static bool ck_Ei64(Ei64 const & v, int k) { (void)k; return v == mk_Ei64(k); }
static std::uintptr_t ad_Ei64(Ei64 const & v) { (void)v; return 0; }
static Eu64 mk_Eu64(int k) { Eu64 t[4] = {Eu64::V0, Eu64::V1, Eu64::V2, Eu64::V3}; return t[k]; }
static bool ck_Eu64(Eu64 const & v, int k) { (void)k; return v == mk_Eu64(k); }
static std::uintptr_t ad_Eu64(Eu64 const & v) { (void)v; return 0; }
static XE mk_XE(int k) { XE t[4] = {XE::V0, XE::V1, XE::V2, XE::V3}; return t[k]; }
static bool ck_XE(XE const & v, int k) { (void)k; return v == mk_XE(k); }
static std::uintptr_t ad_XE(XE const & v) { (void)v; return 0; }
static rust::Str mk_str(int k) { return rust::Str(TXT[k].data(), TXT[k].size()); }
static bool ck_str(rust::Str const & v, int k) { (void)k; return std::string(v.data(), v.size()) == TXT[k]; }
static std::uintptr_t ad_str(rust::Str const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::String mk_String(int k) { return rust::String(TXT[k]); }
static bool ck_String(rust::String const & v, int k) { (void)k; return std::string(v) == TXT[k]; }
static std::uintptr_t ad_String(rust::String const & v) { (void)v; return 0; }
static S1 mk_S1(int k) { return S1{mk_u8((k + 0) & 3)}; }
static bool ck_S1(S1 const & v, int k) { (void)k; return ck_u8(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S1(S1 const & v) { (void)v; return 0; }
static S2 mk_S2(int k) { return S2{mk_u8((k + 0) & 3), mk_u8((k + 1) & 3)}; }
static bool ck_S2(S2 const & v, int k) { (void)k; return ck_u8(v.f0, (k + 0) & 3) && ck_u8(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S2(S2 const & v) { (void)v; return 0; }
static S4 mk_S4(int k) { return S4{mk_f64((k + 0) & 3), mk_u8((k + 1) & 3)}; }
static bool ck_S4(S4 const & v, int k) { (void)k; return ck_f64(v.f0, (k + 0) & 3) && ck_u8(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S4(S4 const & v) { (void)v; return 0; }
static S5 mk_S5(int k) { return S5{mk_u64((k + 0) & 3), mk_u64((k + 1) & 3)}; }
static bool ck_S5(S5 const & v, int k) { (void)k; return ck_u64(v.f0, (k + 0) & 3) && ck_u64(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S5(S5 const & v) { (void)v; return 0; }
static S6 mk_S6(int k) { return S6{mk_u64((k + 0) & 3), mk_u32((k + 1) & 3), mk_u64((k + 2) & 3)}; }
static bool ck_S6(S6 const & v, int k) { (void)k; return ck_u64(v.f0, (k + 0) & 3) && ck_u32(v.f1, (k + 1) & 3) && ck_u64(v.f2, (k + 2) & 3); }
static std::uintptr_t ad_S6(S6 const & v) { (void)v; return 0; }
static S7 mk_S7(int k) { return S7{mk_String((k + 0) & 3)}; }
static bool ck_S7(S7 const & v, int k) { (void)k; return ck_String(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S7(S7 const & v) { (void)v; return 0; }
static bool ck_RObj(RObj const & v, int k) { (void)k; return v.r_tag() == k; }
static std::uintptr_t ad_RObj(RObj const & v) { (void)v; return 0; }
static rust::Box<RObj> mk_Box_RObj(int k) { return r_new(k); }
static bool ck_Box_RObj(rust::Box<RObj> const & v, int k) { (void)k; return ck_RObj(*v, k); }
static std::uintptr_t ad_Box_RObj(rust::Box<RObj> const & v) { (void)v; return 0; }
static S8 mk_S8(int k) { return S8{mk_Box_RObj((k + 0) & 3), mk_u8((k + 1) & 3)}; }
static bool ck_S8(S8 const & v, int k) { (void)k; return ck_Box_RObj(v.f0, (k + 0) & 3) && ck_u8(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S8(S8 const & v) { (void)v; return 0; }
static CObj mk_CObj(int k) { return CObj(k); }
static bool ck_CObj(CObj const & v, int k) { (void)k; return v.c_tag() == k; }
static std::uintptr_t ad_CObj(CObj const & v) { (void)v; return 0; }
static std::unique_ptr<CObj> mk_UniquePtr_CObj(int k) { return k == 3 ? nullptr : std::unique_ptr<CObj>(new CObj(k)); }
static bool ck_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CObj(*v, k); }
static std::uintptr_t ad_UniquePtr_CObj(std::unique_ptr<CObj> const & v) { (void)v; return 0; }
static S9 mk_S9(int k) { return S9{mk_UniquePtr_CObj((k + 0) & 3)}; }
static bool ck_S9(S9 const & v, int k) { (void)k; return ck_UniquePtr_CObj(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S9(S9 const & v) { (void)v; return 0; }
static S10 mk_S10(int k) { return S10{mk_S3((k + 0) & 3), mk_S2((k + 1) & 3), mk_S7((k + 2) & 3)}; }
static bool ck_S10(S10 const & v, int k) { (void)k; return ck_S3(v.f0, (k + 0) & 3) && ck_S2(v.f1, (k + 1) & 3) && ck_S7(v.f2, (k + 2) & 3); }
static std::uintptr_t ad_S10(S10 const & v) { (void)v; return 0; }
static std::array<std::uint8_t, 3> mk_arr3_u8(int k) { return std::array<std::uint8_t, 3>{{mk_u8((k + 0) & 3), mk_u8((k + 1) & 3), mk_u8((k + 2) & 3)}}; }
static bool ck_arr3_u8(std::array<std::uint8_t, 3> const & v, int k) { (void)k; return ck_u8(v[0], (k + 0) & 3) && ck_u8(v[1], (k + 1) & 3) && ck_u8(v[2], (k + 2) & 3); }
static std::uintptr_t ad_arr3_u8(std::array<std::uint8_t, 3> const & v) { (void)v; return 0; }
static S11 mk_S11(int k) { return S11{mk_arr3_u8((k + 0) & 3)}; }
static bool ck_S11(S11 const & v, int k) { (void)k; return ck_arr3_u8(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S11(S11 const & v) { (void)v; return 0; }
static std::array<S2, 3> mk_arr3_S2(int k) { return std::array<S2, 3>{{mk_S2((k + 0) & 3), mk_S2((k + 1) & 3), mk_S2((k + 2) & 3)}}; }
static bool ck_arr3_S2(std::array<S2, 3> const & v, int k) { (void)k; return ck_S2(v[0], (k + 0) & 3) && ck_S2(v[1], (k + 1) & 3) && ck_S2(v[2], (k + 2) & 3); }
static std::uintptr_t ad_arr3_S2(std::array<S2, 3> const & v) { (void)v; return 0; }
static S12 mk_S12(int k) { return S12{mk_arr3_S2((k + 0) & 3), mk_bool((k + 1) & 3)}; }
static bool ck_S12(S12 const & v, int k) { (void)k; return ck_arr3_S2(v.f0, (k + 0) & 3) && ck_bool(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S12(S12 const & v) { (void)v; return 0; }
static rust::Vec<rust::String> mk_Vec_String(int k) { rust::Vec<rust::String> v; for (int i = 0; i < k; i++) v.push_back(mk_String((k + i) & 3)); return v; }
static bool ck_Vec_String(rust::Vec<rust::String> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_String(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_String(rust::Vec<rust::String> const & v) { (void)v; return 0; }
static rust::Vec<S2> mk_Vec_S2(int k) { rust::Vec<S2> v; for (int i = 0; i < k; i++) v.push_back(mk_S2((k + i) & 3)); return v; }
static bool ck_Vec_S2(rust::Vec<S2> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_S2(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_S2(rust::Vec<S2> const & v) { (void)v; return 0; }
static S13 mk_S13(int k) { return S13{mk_Vec_String((k + 0) & 3), mk_Vec_S2((k + 1) & 3)}; }
static bool ck_S13(S13 const & v, int k) { (void)k; return ck_Vec_String(v.f0, (k + 0) & 3) && ck_Vec_S2(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S13(S13 const & v) { (void)v; return 0; }
static S14 mk_S14(int k) { return S14{mk_Eu16((k + 0) & 3), mk_bool((k + 1) & 3), mk_Ei64((k + 2) & 3)}; }
static bool ck_S14(S14 const & v, int k) { (void)k; return ck_Eu16(v.f0, (k + 0) & 3) && ck_bool(v.f1, (k + 1) & 3) && ck_Ei64(v.f2, (k + 2) & 3); }
static std::uintptr_t ad_S14(S14 const & v) { (void)v; return 0; }
static S15 mk_S15(int k) { return S15{mk_bool((k + 0) & 3)}; }
static bool ck_S15(S15 const & v, int k) { (void)k; return ck_bool(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S15(S15 const & v) { (void)v; return 0; }
static S16 mk_S16(int k) { return S16{mk_str((k + 0) & 3), mk_u16((k + 1) & 3)}; }
static bool ck_S16(S16 const & v, int k) { (void)k; return ck_str(v.f0, (k + 0) & 3) && ck_u16(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S16(S16 const & v) { (void)v; return 0; }
static S17 mk_S17(int k) { return S17{mk_f32((k + 0) & 3), mk_f64((k + 1) & 3)}; }
static bool ck_S17(S17 const & v, int k) { (void)k; return ck_f32(v.f0, (k + 0) & 3) && ck_f64(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S17(S17 const & v) { (void)v; return 0; }
static S18 mk_S18(int k) { return S18{mk_c_char((k + 0) & 3), mk_isize((k + 1) & 3)}; }
static bool ck_S18(S18 const & v, int k) { (void)k; return ck_c_char(v.f0, (k + 0) & 3) && ck_isize(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S18(S18 const & v) { (void)v; return 0; }
static std::shared_ptr<CObj> mk_SharedPtr_CObj(int k) { return k == 3 ? nullptr : std::shared_ptr<CObj>(new CObj(k)); }
static bool ck_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_CObj(*v, k); }
static std::uintptr_t ad_SharedPtr_CObj(std::shared_ptr<CObj> const & v) { (void)v; return 0; }
static S19 mk_S19(int k) { return S19{mk_SharedPtr_CObj((k + 0) & 3), mk_i16((k + 1) & 3)}; }
static bool ck_S19(S19 const & v, int k) { (void)k; return ck_SharedPtr_CObj(v.f0, (k + 0) & 3) && ck_i16(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S19(S19 const & v) { (void)v; return 0; }
static std::string mk_CxxString(int k) { return TXT[k]; }
static bool ck_CxxString(std::string const & v, int k) { (void)k; return v == TXT[k]; }
static std::uintptr_t ad_CxxString(std::string const & v) { (void)v; return 0; }
static std::unique_ptr<std::string> mk_UniquePtr_CxxString(int k) { return k == 3 ? nullptr : std::unique_ptr<std::string>(new std::string(mk_CxxString(k))); }
static bool ck_UniquePtr_CxxString(std::unique_ptr<std::string> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CxxString(*v, k); }
static std::uintptr_t ad_UniquePtr_CxxString(std::unique_ptr<std::string> const & v) { (void)v; return 0; }
static S20 mk_S20(int k) { return S20{mk_UniquePtr_CxxString((k + 0) & 3)}; }
static bool ck_S20(S20 const & v, int k) { (void)k; return ck_UniquePtr_CxxString(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S20(S20 const & v) { (void)v; return 0; }
static S21 mk_S21(int k) { return S21{mk_f32((k + 0) & 3), mk_f32((k + 1) & 3), mk_f32((k + 2) & 3)}; }
static bool ck_S21(S21 const & v, int k) { (void)k; return ck_f32(v.f0, (k + 0) & 3) && ck_f32(v.f1, (k + 1) & 3) && ck_f32(v.f2, (k + 2) & 3); }
static std::uintptr_t ad_S21(S21 const & v) { (void)v; return 0; }
static rust::Slice<const std::uint16_t> mk_sl_u16(int k) { return rust::Slice<const std::uint16_t>(cs_sl_u16(k), k); }
static bool ck_sl_u16(rust::Slice<const std::uint16_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u16(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_u16(rust::Slice<const std::uint16_t> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static S22 mk_S22(int k) { return S22{mk_sl_u16((k + 0) & 3), mk_bool((k + 1) & 3)}; }
static bool ck_S22(S22 const & v, int k) { (void)k; return ck_sl_u16(v.f0, (k + 0) & 3) && ck_bool(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S22(S22 const & v) { (void)v; return 0; }
static S2 const & mk_ref_S2(int k) { return cs_S2(k); }
static bool ck_ref_S2(S2 const & v, int k) { (void)k; return ck_S2(v, k); }
static std::uintptr_t ad_ref_S2(S2 const & v) { (void)v; return std::uintptr_t(&v); }
static S23 mk_S23(int k) { return S23{mk_ref_S2((k + 0) & 3)}; }
static bool ck_S23(S23 const & v, int k) { (void)k; return ck_ref_S2(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S23(S23 const & v) { (void)v; return 0; }
static TrivA mk_TrivA(int k) { return TrivA{mk_i32((k + 0) & 3)}; }
static bool ck_TrivA(TrivA const & v, int k) { (void)k; return ck_i32(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_TrivA(TrivA const & v) { (void)v; return 0; }
static TrivB mk_TrivB(int k) { return TrivB{mk_f64((k + 0) & 3), mk_f64((k + 1) & 3)}; }
static bool ck_TrivB(TrivB const & v, int k) { (void)k; return ck_f64(v.f0, (k + 0) & 3) && ck_f64(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_TrivB(TrivB const & v) { (void)v; return 0; }
static TrivC mk_TrivC(int k) { return TrivC{mk_u64((k + 0) & 3), mk_u8((k + 1) & 3), mk_u64((k + 2) & 3), mk_u16((k + 3) & 3)}; }
static bool ck_TrivC(TrivC const & v, int k) { (void)k; return ck_u64(v.f0, (k + 0) & 3) && ck_u8(v.f1, (k + 1) & 3) && ck_u64(v.f2, (k + 2) & 3) && ck_u16(v.f3, (k + 3) & 3); }
static std::uintptr_t ad_TrivC(TrivC const & v) { (void)v; return 0; }
static TrivD mk_TrivD(int k) { return TrivD{mk_f32((k + 0) & 3), mk_i32((k + 1) & 3)}; }
static bool ck_TrivD(TrivD const & v, int k) { (void)k; return ck_f32(v.f0, (k + 0) & 3) && ck_i32(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_TrivD(TrivD const & v) { (void)v; return 0; }
static TrivM mk_TrivM(int k) { return TrivM(mk_i32((k + 0) & 3), mk_u8((k + 1) & 3)); }
static bool ck_TrivM(TrivM const & v, int k) { (void)k; return ck_i32(v.f0, (k + 0) & 3) && ck_u8(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_TrivM(TrivM const & v) { (void)v; return 0; }
static std::array<std::uint8_t, 4> mk_arr4_u8(int k) { return std::array<std::uint8_t, 4>{{mk_u8((k + 0) & 3), mk_u8((k + 1) & 3), mk_u8((k + 2) & 3), mk_u8((k + 3) & 3)}}; }
static bool ck_arr4_u8(std::array<std::uint8_t, 4> const & v, int k) { (void)k; return ck_u8(v[0], (k + 0) & 3) && ck_u8(v[1], (k + 1) & 3) && ck_u8(v[2], (k + 2) & 3) && ck_u8(v[3], (k + 3) & 3); }
static std::uintptr_t ad_arr4_u8(std::array<std::uint8_t, 4> const & v) { (void)v; return 0; }
static std::array<std::uint32_t, 1> mk_arr1_u32(int k) { return std::array<std::uint32_t, 1>{{mk_u32((k + 0) & 3)}}; }
static bool ck_arr1_u32(std::array<std::uint32_t, 1> const & v, int k) { (void)k; return ck_u32(v[0], (k + 0) & 3); }
static std::uintptr_t ad_arr1_u32(std::array<std::uint32_t, 1> const & v) { (void)v; return 0; }
static std::array<rust::String, 2> mk_arr2_String(int k) { return std::array<rust::String, 2>{{mk_String((k + 0) & 3), mk_String((k + 1) & 3)}}; }
static bool ck_arr2_String(std::array<rust::String, 2> const & v, int k) { (void)k; return ck_String(v[0], (k + 0) & 3) && ck_String(v[1], (k + 1) & 3); }
static std::uintptr_t ad_arr2_String(std::array<rust::String, 2> const & v) { (void)v; return 0; }
static std::array<std::int32_t, 2> mk_arr2_i32(int k) { return std::array<std::int32_t, 2>{{mk_i32((k + 0) & 3), mk_i32((k + 1) & 3)}}; }
static bool ck_arr2_i32(std::array<std::int32_t, 2> const & v, int k) { (void)k; return ck_i32(v[0], (k + 0) & 3) && ck_i32(v[1], (k + 1) & 3); }
static std::uintptr_t ad_arr2_i32(std::array<std::int32_t, 2> const & v) { (void)v; return 0; }
static std::array<std::array<std::int32_t, 2>, 2> mk_arr2_arr2_i32(int k) { return std::array<std::array<std::int32_t, 2>, 2>{{mk_arr2_i32((k + 0) & 3), mk_arr2_i32((k + 1) & 3)}}; }
static bool ck_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> const & v, int k) { (void)k; return ck_arr2_i32(v[0], (k + 0) & 3) && ck_arr2_i32(v[1], (k + 1) & 3); }
static std::uintptr_t ad_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> const & v) { (void)v; return 0; }
static std::array<Eu8, 2> mk_arr2_Eu8(int k) { return std::array<Eu8, 2>{{mk_Eu8((k + 0) & 3), mk_Eu8((k + 1) & 3)}}; }
static bool ck_arr2_Eu8(std::array<Eu8, 2> const & v, int k) { (void)k; return ck_Eu8(v[0], (k + 0) & 3) && ck_Eu8(v[1], (k + 1) & 3); }
static std::uintptr_t ad_arr2_Eu8(std::array<Eu8, 2> const & v) { (void)v; return 0; }
static std::array<double, 2> mk_arr2_f64(int k) { return std::array<double, 2>{{mk_f64((k + 0) & 3), mk_f64((k + 1) & 3)}}; }
static bool ck_arr2_f64(std::array<double, 2> const & v, int k) { (void)k; return ck_f64(v[0], (k + 0) & 3) && ck_f64(v[1], (k + 1) & 3); }
static std::uintptr_t ad_arr2_f64(std::array<double, 2> const & v) { (void)v; return 0; }
static std::array<bool, 9> mk_arr9_bool(int k) { return std::array<bool, 9>{{mk_bool((k + 0) & 3), mk_bool((k + 1) & 3), mk_bool((k + 2) & 3), mk_bool((k + 3) & 3), mk_bool((k + 4) & 3), mk_bool((k + 5) & 3), mk_bool((k + 6) & 3), mk_bool((k + 7) & 3), mk_bool((k + 8) & 3)}}; }
static bool ck_arr9_bool(std::array<bool, 9> const & v, int k) { (void)k; return ck_bool(v[0], (k + 0) & 3) && ck_bool(v[1], (k + 1) & 3) && ck_bool(v[2], (k + 2) & 3) && ck_bool(v[3], (k + 3) & 3) && ck_bool(v[4], (k + 4) & 3) && ck_bool(v[5], (k + 5) & 3) && ck_bool(v[6], (k + 6) & 3) && ck_bool(v[7], (k + 7) & 3) && ck_bool(v[8], (k + 8) & 3); }
static std::uintptr_t ad_arr9_bool(std::array<bool, 9> const & v) { (void)v; return 0; }
static std::unique_ptr<S2> ST_S2[4];
static S2 &cs_S2(int k) { ST_S2[k].reset(new S2(mk_S2(k))); return *ST_S2[k]; }
static S2 &cp_S2(int k) { return *ST_S2[k]; }
static std::unique_ptr<std::array<std::uint16_t, 4>> SL_u16[4];
static std::uint16_t *cs_sl_u16(int k) { SL_u16[k].reset(new std::array<std::uint16_t, 4>{{mk_u16((k + 0) & 3), mk_u16((k + 1) & 3), mk_u16((k + 2) & 3), mk_u16((k + 3) & 3)}}); return SL_u16[k]->data(); }
static std::uint16_t *cp_sl_u16(int k) { return SL_u16[k]->data(); }
std::unique_ptr<CObj> c_store_CObj(std::int32_t k) { return std::unique_ptr<CObj>(new CObj(k)); }
bool c_take_bool(bool x, std::int32_t k) { note(ad_bool(x)); if (!ck_bool(x, k)) return false; return true; }
bool c_make_bool(std::int32_t k) { bool x = mk_bool(k); note(ad_bool(x)); return x; }
bool c_try_bool(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); bool x = mk_bool(k); note(ad_bool(x)); return x; }
bool c_echo_bool(bool x, std::int32_t k) { note(ck_bool(x, k) ? ad_bool(x) : 1); return std::move(x); }
bool c_mix_bool(std::uint8_t a, bool x, double b, std::int32_t k, bool y, std::uint16_t c) { return a == 200 && ck_bool(x, k) && b == -1.5 && ck_bool(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_bool(bool x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_bool(x, k) ? 0 : 1); return x; }
bool c_cb_bool(rust::Fn<bool(bool, std::int32_t)> f, std::int32_t k) { bool y = f(mk_bool(k), k); return ck_bool(y, k); }
std::int32_t c_run_bool(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { bool x = mk_bool(k); auto a = ad_bool(x); if (!r_take_bool(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { bool x = r_make_bool(k); return ck_bool(x, k) && (vk_addr_c09a == ad_bool(x)) ? 0 : 13; }
 case 2: { bool x = r_try_bool(k, false); return ck_bool(x, k) && (vk_addr_c09a == ad_bool(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_bool(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { bool x = mk_bool(k); auto a = ad_bool(x); bool y = r_echo_bool(std::move(x), k); return vk_addr_c09a == a && ad_bool(y) == a && ck_bool(y, k) ? 0 : 17; }
 case 5: { return r_mix_bool(200, mk_bool(k), -1.5, k, mk_bool((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; bool x = mk_bool(k); bool y = o.r_m_bool(std::move(x), k); return vk_addr_c09a == 0 && ck_bool(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_u8(std::uint8_t x, std::int32_t k) { note(ad_u8(x)); if (!ck_u8(x, k)) return false; return true; }
std::uint8_t c_make_u8(std::int32_t k) { std::uint8_t x = mk_u8(k); note(ad_u8(x)); return x; }
std::uint8_t c_try_u8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::uint8_t x = mk_u8(k); note(ad_u8(x)); return x; }
std::uint8_t c_echo_u8(std::uint8_t x, std::int32_t k) { note(ck_u8(x, k) ? ad_u8(x) : 1); return std::move(x); }
bool c_mix_u8(std::uint8_t a, std::uint8_t x, double b, std::int32_t k, std::uint8_t y, std::uint16_t c) { return a == 200 && ck_u8(x, k) && b == -1.5 && ck_u8(y, (k + 1) & 3) && c == 60000; }
std::uint8_t CObj::c_m_u8(std::uint8_t x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_u8(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_u8(rust::Fn<std::uint8_t(std::uint8_t, std::int32_t)> f, std::int32_t k) { std::uint8_t y = f(mk_u8(k), k); return ck_u8(y, k); }
std::int32_t c_run_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::uint8_t x = mk_u8(k); auto a = ad_u8(x); if (!r_take_u8(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::uint8_t x = r_make_u8(k); return ck_u8(x, k) && (vk_addr_c09a == ad_u8(x)) ? 0 : 13; }
 case 2: { std::uint8_t x = r_try_u8(k, false); return ck_u8(x, k) && (vk_addr_c09a == ad_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_u8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::uint8_t x = mk_u8(k); auto a = ad_u8(x); std::uint8_t y = r_echo_u8(std::move(x), k); return vk_addr_c09a == a && ad_u8(y) == a && ck_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_u8(200, mk_u8(k), -1.5, k, mk_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::uint8_t x = mk_u8(k); std::uint8_t y = o.r_m_u8(std::move(x), k); return vk_addr_c09a == 0 && ck_u8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_i8(std::int8_t x, std::int32_t k) { note(ad_i8(x)); if (!ck_i8(x, k)) return false; return true; }
std::int8_t c_make_i8(std::int32_t k) { std::int8_t x = mk_i8(k); note(ad_i8(x)); return x; }
std::int8_t c_try_i8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::int8_t x = mk_i8(k); note(ad_i8(x)); return x; }
std::int8_t c_echo_i8(std::int8_t x, std::int32_t k) { note(ck_i8(x, k) ? ad_i8(x) : 1); return std::move(x); }
bool c_mix_i8(std::uint8_t a, std::int8_t x, double b, std::int32_t k, std::int8_t y, std::uint16_t c) { return a == 200 && ck_i8(x, k) && b == -1.5 && ck_i8(y, (k + 1) & 3) && c == 60000; }
std::int8_t S3::c_m_i8(std::int8_t x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_i8(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_i8(rust::Fn<std::int8_t(std::int8_t, std::int32_t)> f, std::int32_t k) { std::int8_t y = f(mk_i8(k), k); return ck_i8(y, k); }
std::int32_t c_run_i8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::int8_t x = mk_i8(k); auto a = ad_i8(x); if (!r_take_i8(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::int8_t x = r_make_i8(k); return ck_i8(x, k) && (vk_addr_c09a == ad_i8(x)) ? 0 : 13; }
 case 2: { std::int8_t x = r_try_i8(k, false); return ck_i8(x, k) && (vk_addr_c09a == ad_i8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_i8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::int8_t x = mk_i8(k); auto a = ad_i8(x); std::int8_t y = r_echo_i8(std::move(x), k); return vk_addr_c09a == a && ad_i8(y) == a && ck_i8(y, k) ? 0 : 17; }
 case 5: { return r_mix_i8(200, mk_i8(k), -1.5, k, mk_i8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::int8_t x = mk_i8(k); std::int8_t y = o.r_m_i8(std::move(x), k); return vk_addr_c09a == 0 && ck_i8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_u16(std::uint16_t x, std::int32_t k) { note(ad_u16(x)); if (!ck_u16(x, k)) return false; return true; }
std::uint16_t c_make_u16(std::int32_t k) { std::uint16_t x = mk_u16(k); note(ad_u16(x)); return x; }
std::uint16_t c_try_u16(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::uint16_t x = mk_u16(k); note(ad_u16(x)); return x; }
std::uint16_t c_echo_u16(std::uint16_t x, std::int32_t k) { note(ck_u16(x, k) ? ad_u16(x) : 1); return std::move(x); }
bool c_mix_u16(std::uint8_t a, std::uint16_t x, double b, std::int32_t k, std::uint16_t y, std::uint16_t c) { return a == 200 && ck_u16(x, k) && b == -1.5 && ck_u16(y, (k + 1) & 3) && c == 60000; }
std::uint16_t S3::c_m_u16(std::uint16_t x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_u16(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_u16(rust::Fn<std::uint16_t(std::uint16_t, std::int32_t)> f, std::int32_t k) { std::uint16_t y = f(mk_u16(k), k); return ck_u16(y, k); }
std::int32_t c_run_u16(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::uint16_t x = mk_u16(k); auto a = ad_u16(x); if (!r_take_u16(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::uint16_t x = r_make_u16(k); return ck_u16(x, k) && (vk_addr_c09a == ad_u16(x)) ? 0 : 13; }
 case 2: { std::uint16_t x = r_try_u16(k, false); return ck_u16(x, k) && (vk_addr_c09a == ad_u16(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_u16(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::uint16_t x = mk_u16(k); auto a = ad_u16(x); std::uint16_t y = r_echo_u16(std::move(x), k); return vk_addr_c09a == a && ad_u16(y) == a && ck_u16(y, k) ? 0 : 17; }
 case 5: { return r_mix_u16(200, mk_u16(k), -1.5, k, mk_u16((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::uint16_t x = mk_u16(k); std::uint16_t y = o.r_m_u16(std::move(x), k); return vk_addr_c09a == 0 && ck_u16(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_i16(std::int16_t x, std::int32_t k) { note(ad_i16(x)); if (!ck_i16(x, k)) return false; return true; }
std::int16_t c_make_i16(std::int32_t k) { std::int16_t x = mk_i16(k); note(ad_i16(x)); return x; }
std::int16_t c_try_i16(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::int16_t x = mk_i16(k); note(ad_i16(x)); return x; }
std::int16_t c_echo_i16(std::int16_t x, std::int32_t k) { note(ck_i16(x, k) ? ad_i16(x) : 1); return std::move(x); }
bool c_mix_i16(std::uint8_t a, std::int16_t x, double b, std::int32_t k, std::int16_t y, std::uint16_t c) { return a == 200 && ck_i16(x, k) && b == -1.5 && ck_i16(y, (k + 1) & 3) && c == 60000; }
std::int16_t CObj::c_m_i16(std::int16_t x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_i16(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_i16(rust::Fn<std::int16_t(std::int16_t, std::int32_t)> f, std::int32_t k) { std::int16_t y = f(mk_i16(k), k); return ck_i16(y, k); }
std::int32_t c_run_i16(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::int16_t x = mk_i16(k); auto a = ad_i16(x); if (!r_take_i16(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::int16_t x = r_make_i16(k); return ck_i16(x, k) && (vk_addr_c09a == ad_i16(x)) ? 0 : 13; }
 case 2: { std::int16_t x = r_try_i16(k, false); return ck_i16(x, k) && (vk_addr_c09a == ad_i16(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_i16(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::int16_t x = mk_i16(k); auto a = ad_i16(x); std::int16_t y = r_echo_i16(std::move(x), k); return vk_addr_c09a == a && ad_i16(y) == a && ck_i16(y, k) ? 0 : 17; }
 case 5: { return r_mix_i16(200, mk_i16(k), -1.5, k, mk_i16((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::int16_t x = mk_i16(k); std::int16_t y = o.r_m_i16(std::move(x), k); return vk_addr_c09a == 0 && ck_i16(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_u32(std::uint32_t x, std::int32_t k) { note(ad_u32(x)); if (!ck_u32(x, k)) return false; return true; }
std::uint32_t c_make_u32(std::int32_t k) { std::uint32_t x = mk_u32(k); note(ad_u32(x)); return x; }
std::uint32_t c_try_u32(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::uint32_t x = mk_u32(k); note(ad_u32(x)); return x; }
std::uint32_t c_echo_u32(std::uint32_t x, std::int32_t k) { note(ck_u32(x, k) ? ad_u32(x) : 1); return std::move(x); }
bool c_mix_u32(std::uint8_t a, std::uint32_t x, double b, std::int32_t k, std::uint32_t y, std::uint16_t c) { return a == 200 && ck_u32(x, k) && b == -1.5 && ck_u32(y, (k + 1) & 3) && c == 60000; }
std::uint32_t CObj::c_m_u32(std::uint32_t x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_u32(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_u32(rust::Fn<std::uint32_t(std::uint32_t, std::int32_t)> f, std::int32_t k) { std::uint32_t y = f(mk_u32(k), k); return ck_u32(y, k); }
std::int32_t c_run_u32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::uint32_t x = mk_u32(k); auto a = ad_u32(x); if (!r_take_u32(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::uint32_t x = r_make_u32(k); return ck_u32(x, k) && (vk_addr_c09a == ad_u32(x)) ? 0 : 13; }
 case 2: { std::uint32_t x = r_try_u32(k, false); return ck_u32(x, k) && (vk_addr_c09a == ad_u32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_u32(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::uint32_t x = mk_u32(k); auto a = ad_u32(x); std::uint32_t y = r_echo_u32(std::move(x), k); return vk_addr_c09a == a && ad_u32(y) == a && ck_u32(y, k) ? 0 : 17; }
 case 5: { return r_mix_u32(200, mk_u32(k), -1.5, k, mk_u32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::uint32_t x = mk_u32(k); std::uint32_t y = o.r_m_u32(std::move(x), k); return vk_addr_c09a == 0 && ck_u32(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_i32(std::int32_t x, std::int32_t k) { note(ad_i32(x)); if (!ck_i32(x, k)) return false; return true; }
std::int32_t c_make_i32(std::int32_t k) { std::int32_t x = mk_i32(k); note(ad_i32(x)); return x; }
std::int32_t c_try_i32(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::int32_t x = mk_i32(k); note(ad_i32(x)); return x; }
std::int32_t c_echo_i32(std::int32_t x, std::int32_t k) { note(ck_i32(x, k) ? ad_i32(x) : 1); return std::move(x); }
bool c_mix_i32(std::uint8_t a, std::int32_t x, double b, std::int32_t k, std::int32_t y, std::uint16_t c) { return a == 200 && ck_i32(x, k) && b == -1.5 && ck_i32(y, (k + 1) & 3) && c == 60000; }
std::int32_t S3::c_m_i32(std::int32_t x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_i32(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_i32(rust::Fn<std::int32_t(std::int32_t, std::int32_t)> f, std::int32_t k) { std::int32_t y = f(mk_i32(k), k); return ck_i32(y, k); }
std::int32_t c_run_i32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::int32_t x = mk_i32(k); auto a = ad_i32(x); if (!r_take_i32(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::int32_t x = r_make_i32(k); return ck_i32(x, k) && (vk_addr_c09a == ad_i32(x)) ? 0 : 13; }
 case 2: { std::int32_t x = r_try_i32(k, false); return ck_i32(x, k) && (vk_addr_c09a == ad_i32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_i32(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::int32_t x = mk_i32(k); auto a = ad_i32(x); std::int32_t y = r_echo_i32(std::move(x), k); return vk_addr_c09a == a && ad_i32(y) == a && ck_i32(y, k) ? 0 : 17; }
 case 5: { return r_mix_i32(200, mk_i32(k), -1.5, k, mk_i32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::int32_t x = mk_i32(k); std::int32_t y = o.r_m_i32(std::move(x), k); return vk_addr_c09a == 0 && ck_i32(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_u64(std::uint64_t x, std::int32_t k) { note(ad_u64(x)); if (!ck_u64(x, k)) return false; return true; }
std::uint64_t c_make_u64(std::int32_t k) { std::uint64_t x = mk_u64(k); note(ad_u64(x)); return x; }
std::uint64_t c_try_u64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::uint64_t x = mk_u64(k); note(ad_u64(x)); return x; }
std::uint64_t c_echo_u64(std::uint64_t x, std::int32_t k) { note(ck_u64(x, k) ? ad_u64(x) : 1); return std::move(x); }
bool c_mix_u64(std::uint8_t a, std::uint64_t x, double b, std::int32_t k, std::uint64_t y, std::uint16_t c) { return a == 200 && ck_u64(x, k) && b == -1.5 && ck_u64(y, (k + 1) & 3) && c == 60000; }
std::uint64_t S3::c_m_u64(std::uint64_t x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_u64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_u64(rust::Fn<std::uint64_t(std::uint64_t, std::int32_t)> f, std::int32_t k) { std::uint64_t y = f(mk_u64(k), k); return ck_u64(y, k); }
std::int32_t c_run_u64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::uint64_t x = mk_u64(k); auto a = ad_u64(x); if (!r_take_u64(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::uint64_t x = r_make_u64(k); return ck_u64(x, k) && (vk_addr_c09a == ad_u64(x)) ? 0 : 13; }
 case 2: { std::uint64_t x = r_try_u64(k, false); return ck_u64(x, k) && (vk_addr_c09a == ad_u64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_u64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::uint64_t x = mk_u64(k); auto a = ad_u64(x); std::uint64_t y = r_echo_u64(std::move(x), k); return vk_addr_c09a == a && ad_u64(y) == a && ck_u64(y, k) ? 0 : 17; }
 case 5: { return r_mix_u64(200, mk_u64(k), -1.5, k, mk_u64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::uint64_t x = mk_u64(k); std::uint64_t y = o.r_m_u64(std::move(x), k); return vk_addr_c09a == 0 && ck_u64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_i64(std::int64_t x, std::int32_t k) { note(ad_i64(x)); if (!ck_i64(x, k)) return false; return true; }
std::int64_t c_make_i64(std::int32_t k) { std::int64_t x = mk_i64(k); note(ad_i64(x)); return x; }
std::int64_t c_try_i64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::int64_t x = mk_i64(k); note(ad_i64(x)); return x; }
std::int64_t c_echo_i64(std::int64_t x, std::int32_t k) { note(ck_i64(x, k) ? ad_i64(x) : 1); return std::move(x); }
bool c_mix_i64(std::uint8_t a, std::int64_t x, double b, std::int32_t k, std::int64_t y, std::uint16_t c) { return a == 200 && ck_i64(x, k) && b == -1.5 && ck_i64(y, (k + 1) & 3) && c == 60000; }
std::int64_t CObj::c_m_i64(std::int64_t x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_i64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_i64(rust::Fn<std::int64_t(std::int64_t, std::int32_t)> f, std::int32_t k) { std::int64_t y = f(mk_i64(k), k); return ck_i64(y, k); }
std::int32_t c_run_i64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::int64_t x = mk_i64(k); auto a = ad_i64(x); if (!r_take_i64(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::int64_t x = r_make_i64(k); return ck_i64(x, k) && (vk_addr_c09a == ad_i64(x)) ? 0 : 13; }
 case 2: { std::int64_t x = r_try_i64(k, false); return ck_i64(x, k) && (vk_addr_c09a == ad_i64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_i64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::int64_t x = mk_i64(k); auto a = ad_i64(x); std::int64_t y = r_echo_i64(std::move(x), k); return vk_addr_c09a == a && ad_i64(y) == a && ck_i64(y, k) ? 0 : 17; }
 case 5: { return r_mix_i64(200, mk_i64(k), -1.5, k, mk_i64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::int64_t x = mk_i64(k); std::int64_t y = o.r_m_i64(std::move(x), k); return vk_addr_c09a == 0 && ck_i64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_usize(std::size_t x, std::int32_t k) { note(ad_usize(x)); if (!ck_usize(x, k)) return false; return true; }
std::size_t c_make_usize(std::int32_t k) { std::size_t x = mk_usize(k); note(ad_usize(x)); return x; }
std::size_t c_try_usize(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::size_t x = mk_usize(k); note(ad_usize(x)); return x; }
std::size_t c_echo_usize(std::size_t x, std::int32_t k) { note(ck_usize(x, k) ? ad_usize(x) : 1); return std::move(x); }
bool c_mix_usize(std::uint8_t a, std::size_t x, double b, std::int32_t k, std::size_t y, std::uint16_t c) { return a == 200 && ck_usize(x, k) && b == -1.5 && ck_usize(y, (k + 1) & 3) && c == 60000; }
std::size_t CObj::c_m_usize(std::size_t x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_usize(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_usize(rust::Fn<std::size_t(std::size_t, std::int32_t)> f, std::int32_t k) { std::size_t y = f(mk_usize(k), k); return ck_usize(y, k); }
std::int32_t c_run_usize(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::size_t x = mk_usize(k); auto a = ad_usize(x); if (!r_take_usize(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::size_t x = r_make_usize(k); return ck_usize(x, k) && (vk_addr_c09a == ad_usize(x)) ? 0 : 13; }
 case 2: { std::size_t x = r_try_usize(k, false); return ck_usize(x, k) && (vk_addr_c09a == ad_usize(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_usize(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::size_t x = mk_usize(k); auto a = ad_usize(x); std::size_t y = r_echo_usize(std::move(x), k); return vk_addr_c09a == a && ad_usize(y) == a && ck_usize(y, k) ? 0 : 17; }
 case 5: { return r_mix_usize(200, mk_usize(k), -1.5, k, mk_usize((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::size_t x = mk_usize(k); std::size_t y = o.r_m_usize(std::move(x), k); return vk_addr_c09a == 0 && ck_usize(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_isize(rust::isize x, std::int32_t k) { note(ad_isize(x)); if (!ck_isize(x, k)) return false; return true; }
rust::isize c_make_isize(std::int32_t k) { rust::isize x = mk_isize(k); note(ad_isize(x)); return x; }
rust::isize c_try_isize(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::isize x = mk_isize(k); note(ad_isize(x)); return x; }
rust::isize c_echo_isize(rust::isize x, std::int32_t k) { note(ck_isize(x, k) ? ad_isize(x) : 1); return std::move(x); }
bool c_mix_isize(std::uint8_t a, rust::isize x, double b, std::int32_t k, rust::isize y, std::uint16_t c) { return a == 200 && ck_isize(x, k) && b == -1.5 && ck_isize(y, (k + 1) & 3) && c == 60000; }
rust::isize S3::c_m_isize(rust::isize x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_isize(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_isize(rust::Fn<rust::isize(rust::isize, std::int32_t)> f, std::int32_t k) { rust::isize y = f(mk_isize(k), k); return ck_isize(y, k); }
std::int32_t c_run_isize(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::isize x = mk_isize(k); auto a = ad_isize(x); if (!r_take_isize(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { rust::isize x = r_make_isize(k); return ck_isize(x, k) && (vk_addr_c09a == ad_isize(x)) ? 0 : 13; }
 case 2: { rust::isize x = r_try_isize(k, false); return ck_isize(x, k) && (vk_addr_c09a == ad_isize(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_isize(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::isize x = mk_isize(k); auto a = ad_isize(x); rust::isize y = r_echo_isize(std::move(x), k); return vk_addr_c09a == a && ad_isize(y) == a && ck_isize(y, k) ? 0 : 17; }
 case 5: { return r_mix_isize(200, mk_isize(k), -1.5, k, mk_isize((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::isize x = mk_isize(k); rust::isize y = o.r_m_isize(std::move(x), k); return vk_addr_c09a == 0 && ck_isize(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_c_char(char x, std::int32_t k) { note(ad_c_char(x)); if (!ck_c_char(x, k)) return false; return true; }
char c_make_c_char(std::int32_t k) { char x = mk_c_char(k); note(ad_c_char(x)); return x; }
char c_try_c_char(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); char x = mk_c_char(k); note(ad_c_char(x)); return x; }
char c_echo_c_char(char x, std::int32_t k) { note(ck_c_char(x, k) ? ad_c_char(x) : 1); return std::move(x); }
bool c_mix_c_char(std::uint8_t a, char x, double b, std::int32_t k, char y, std::uint16_t c) { return a == 200 && ck_c_char(x, k) && b == -1.5 && ck_c_char(y, (k + 1) & 3) && c == 60000; }
char S3::c_m_c_char(char x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_c_char(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_c_char(rust::Fn<char(char, std::int32_t)> f, std::int32_t k) { char y = f(mk_c_char(k), k); return ck_c_char(y, k); }
std::int32_t c_run_c_char(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { char x = mk_c_char(k); auto a = ad_c_char(x); if (!r_take_c_char(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { char x = r_make_c_char(k); return ck_c_char(x, k) && (vk_addr_c09a == ad_c_char(x)) ? 0 : 13; }
 case 2: { char x = r_try_c_char(k, false); return ck_c_char(x, k) && (vk_addr_c09a == ad_c_char(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_c_char(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { char x = mk_c_char(k); auto a = ad_c_char(x); char y = r_echo_c_char(std::move(x), k); return vk_addr_c09a == a && ad_c_char(y) == a && ck_c_char(y, k) ? 0 : 17; }
 case 5: { return r_mix_c_char(200, mk_c_char(k), -1.5, k, mk_c_char((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; char x = mk_c_char(k); char y = o.r_m_c_char(std::move(x), k); return vk_addr_c09a == 0 && ck_c_char(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_f32(float x, std::int32_t k) { note(ad_f32(x)); if (!ck_f32(x, k)) return false; return true; }
float c_make_f32(std::int32_t k) { float x = mk_f32(k); note(ad_f32(x)); return x; }
float c_try_f32(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); float x = mk_f32(k); note(ad_f32(x)); return x; }
float c_echo_f32(float x, std::int32_t k) { note(ck_f32(x, k) ? ad_f32(x) : 1); return std::move(x); }
bool c_mix_f32(std::uint8_t a, float x, double b, std::int32_t k, float y, std::uint16_t c) { return a == 200 && ck_f32(x, k) && b == -1.5 && ck_f32(y, (k + 1) & 3) && c == 60000; }
float CObj::c_m_f32(float x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_f32(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_f32(rust::Fn<float(float, std::int32_t)> f, std::int32_t k) { float y = f(mk_f32(k), k); return ck_f32(y, k); }
std::int32_t c_run_f32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { float x = mk_f32(k); auto a = ad_f32(x); if (!r_take_f32(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { float x = r_make_f32(k); return ck_f32(x, k) && (vk_addr_c09a == ad_f32(x)) ? 0 : 13; }
 case 2: { float x = r_try_f32(k, false); return ck_f32(x, k) && (vk_addr_c09a == ad_f32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_f32(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { float x = mk_f32(k); auto a = ad_f32(x); float y = r_echo_f32(std::move(x), k); return vk_addr_c09a == a && ad_f32(y) == a && ck_f32(y, k) ? 0 : 17; }
 case 5: { return r_mix_f32(200, mk_f32(k), -1.5, k, mk_f32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; float x = mk_f32(k); float y = o.r_m_f32(std::move(x), k); return vk_addr_c09a == 0 && ck_f32(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_f64(double x, std::int32_t k) { note(ad_f64(x)); if (!ck_f64(x, k)) return false; return true; }
double c_make_f64(std::int32_t k) { double x = mk_f64(k); note(ad_f64(x)); return x; }
double c_try_f64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); double x = mk_f64(k); note(ad_f64(x)); return x; }
double c_echo_f64(double x, std::int32_t k) { note(ck_f64(x, k) ? ad_f64(x) : 1); return std::move(x); }
bool c_mix_f64(std::uint8_t a, double x, double b, std::int32_t k, double y, std::uint16_t c) { return a == 200 && ck_f64(x, k) && b == -1.5 && ck_f64(y, (k + 1) & 3) && c == 60000; }
double CObj::c_m_f64(double x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_f64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_f64(rust::Fn<double(double, std::int32_t)> f, std::int32_t k) { double y = f(mk_f64(k), k); return ck_f64(y, k); }
std::int32_t c_run_f64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { double x = mk_f64(k); auto a = ad_f64(x); if (!r_take_f64(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { double x = r_make_f64(k); return ck_f64(x, k) && (vk_addr_c09a == ad_f64(x)) ? 0 : 13; }
 case 2: { double x = r_try_f64(k, false); return ck_f64(x, k) && (vk_addr_c09a == ad_f64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_f64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { double x = mk_f64(k); auto a = ad_f64(x); double y = r_echo_f64(std::move(x), k); return vk_addr_c09a == a && ad_f64(y) == a && ck_f64(y, k) ? 0 : 17; }
 case 5: { return r_mix_f64(200, mk_f64(k), -1.5, k, mk_f64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; double x = mk_f64(k); double y = o.r_m_f64(std::move(x), k); return vk_addr_c09a == 0 && ck_f64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Eu8(Eu8 x, std::int32_t k) { note(ad_Eu8(x)); if (!ck_Eu8(x, k)) return false; return true; }
Eu8 c_make_Eu8(std::int32_t k) { Eu8 x = mk_Eu8(k); note(ad_Eu8(x)); return x; }
Eu8 c_try_Eu8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); Eu8 x = mk_Eu8(k); note(ad_Eu8(x)); return x; }
Eu8 c_echo_Eu8(Eu8 x, std::int32_t k) { note(ck_Eu8(x, k) ? ad_Eu8(x) : 1); return std::move(x); }
bool c_mix_Eu8(std::uint8_t a, Eu8 x, double b, std::int32_t k, Eu8 y, std::uint16_t c) { return a == 200 && ck_Eu8(x, k) && b == -1.5 && ck_Eu8(y, (k + 1) & 3) && c == 60000; }
Eu8 S3::c_m_Eu8(Eu8 x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_Eu8(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Eu8(rust::Fn<Eu8(Eu8, std::int32_t)> f, std::int32_t k) { Eu8 y = f(mk_Eu8(k), k); return ck_Eu8(y, k); }
std::int32_t c_run_Eu8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { Eu8 x = mk_Eu8(k); auto a = ad_Eu8(x); if (!r_take_Eu8(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { Eu8 x = r_make_Eu8(k); return ck_Eu8(x, k) && (vk_addr_c09a == ad_Eu8(x)) ? 0 : 13; }
 case 2: { Eu8 x = r_try_Eu8(k, false); return ck_Eu8(x, k) && (vk_addr_c09a == ad_Eu8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Eu8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { Eu8 x = mk_Eu8(k); auto a = ad_Eu8(x); Eu8 y = r_echo_Eu8(std::move(x), k); return vk_addr_c09a == a && ad_Eu8(y) == a && ck_Eu8(y, k) ? 0 : 17; }
 case 5: { return r_mix_Eu8(200, mk_Eu8(k), -1.5, k, mk_Eu8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; Eu8 x = mk_Eu8(k); Eu8 y = o.r_m_Eu8(std::move(x), k); return vk_addr_c09a == 0 && ck_Eu8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Ei8(Ei8 x, std::int32_t k) { note(ad_Ei8(x)); if (!ck_Ei8(x, k)) return false; return true; }
Ei8 c_make_Ei8(std::int32_t k) { Ei8 x = mk_Ei8(k); note(ad_Ei8(x)); return x; }
Ei8 c_try_Ei8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); Ei8 x = mk_Ei8(k); note(ad_Ei8(x)); return x; }
Ei8 c_echo_Ei8(Ei8 x, std::int32_t k) { note(ck_Ei8(x, k) ? ad_Ei8(x) : 1); return std::move(x); }
bool c_mix_Ei8(std::uint8_t a, Ei8 x, double b, std::int32_t k, Ei8 y, std::uint16_t c) { return a == 200 && ck_Ei8(x, k) && b == -1.5 && ck_Ei8(y, (k + 1) & 3) && c == 60000; }
Ei8 S3::c_m_Ei8(Ei8 x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_Ei8(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Ei8(rust::Fn<Ei8(Ei8, std::int32_t)> f, std::int32_t k) { Ei8 y = f(mk_Ei8(k), k); return ck_Ei8(y, k); }
std::int32_t c_run_Ei8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { Ei8 x = mk_Ei8(k); auto a = ad_Ei8(x); if (!r_take_Ei8(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { Ei8 x = r_make_Ei8(k); return ck_Ei8(x, k) && (vk_addr_c09a == ad_Ei8(x)) ? 0 : 13; }
 case 2: { Ei8 x = r_try_Ei8(k, false); return ck_Ei8(x, k) && (vk_addr_c09a == ad_Ei8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Ei8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { Ei8 x = mk_Ei8(k); auto a = ad_Ei8(x); Ei8 y = r_echo_Ei8(std::move(x), k); return vk_addr_c09a == a && ad_Ei8(y) == a && ck_Ei8(y, k) ? 0 : 17; }
 case 5: { return r_mix_Ei8(200, mk_Ei8(k), -1.5, k, mk_Ei8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; Ei8 x = mk_Ei8(k); Ei8 y = o.r_m_Ei8(std::move(x), k); return vk_addr_c09a == 0 && ck_Ei8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Eu16(Eu16 x, std::int32_t k) { note(ad_Eu16(x)); if (!ck_Eu16(x, k)) return false; return true; }
Eu16 c_make_Eu16(std::int32_t k) { Eu16 x = mk_Eu16(k); note(ad_Eu16(x)); return x; }
Eu16 c_try_Eu16(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); Eu16 x = mk_Eu16(k); note(ad_Eu16(x)); return x; }
Eu16 c_echo_Eu16(Eu16 x, std::int32_t k) { note(ck_Eu16(x, k) ? ad_Eu16(x) : 1); return std::move(x); }
bool c_mix_Eu16(std::uint8_t a, Eu16 x, double b, std::int32_t k, Eu16 y, std::uint16_t c) { return a == 200 && ck_Eu16(x, k) && b == -1.5 && ck_Eu16(y, (k + 1) & 3) && c == 60000; }
Eu16 CObj::c_m_Eu16(Eu16 x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_Eu16(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Eu16(rust::Fn<Eu16(Eu16, std::int32_t)> f, std::int32_t k) { Eu16 y = f(mk_Eu16(k), k); return ck_Eu16(y, k); }
std::int32_t c_run_Eu16(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { Eu16 x = mk_Eu16(k); auto a = ad_Eu16(x); if (!r_take_Eu16(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { Eu16 x = r_make_Eu16(k); return ck_Eu16(x, k) && (vk_addr_c09a == ad_Eu16(x)) ? 0 : 13; }
 case 2: { Eu16 x = r_try_Eu16(k, false); return ck_Eu16(x, k) && (vk_addr_c09a == ad_Eu16(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Eu16(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { Eu16 x = mk_Eu16(k); auto a = ad_Eu16(x); Eu16 y = r_echo_Eu16(std::move(x), k); return vk_addr_c09a == a && ad_Eu16(y) == a && ck_Eu16(y, k) ? 0 : 17; }
 case 5: { return r_mix_Eu16(200, mk_Eu16(k), -1.5, k, mk_Eu16((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; Eu16 x = mk_Eu16(k); Eu16 y = o.r_m_Eu16(std::move(x), k); return vk_addr_c09a == 0 && ck_Eu16(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Ei32(Ei32 x, std::int32_t k) { note(ad_Ei32(x)); if (!ck_Ei32(x, k)) return false; return true; }
Ei32 c_make_Ei32(std::int32_t k) { Ei32 x = mk_Ei32(k); note(ad_Ei32(x)); return x; }
Ei32 c_try_Ei32(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); Ei32 x = mk_Ei32(k); note(ad_Ei32(x)); return x; }
Ei32 c_echo_Ei32(Ei32 x, std::int32_t k) { note(ck_Ei32(x, k) ? ad_Ei32(x) : 1); return std::move(x); }
bool c_mix_Ei32(std::uint8_t a, Ei32 x, double b, std::int32_t k, Ei32 y, std::uint16_t c) { return a == 200 && ck_Ei32(x, k) && b == -1.5 && ck_Ei32(y, (k + 1) & 3) && c == 60000; }
Ei32 CObj::c_m_Ei32(Ei32 x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_Ei32(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Ei32(rust::Fn<Ei32(Ei32, std::int32_t)> f, std::int32_t k) { Ei32 y = f(mk_Ei32(k), k); return ck_Ei32(y, k); }
std::int32_t c_run_Ei32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { Ei32 x = mk_Ei32(k); auto a = ad_Ei32(x); if (!r_take_Ei32(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { Ei32 x = r_make_Ei32(k); return ck_Ei32(x, k) && (vk_addr_c09a == ad_Ei32(x)) ? 0 : 13; }
 case 2: { Ei32 x = r_try_Ei32(k, false); return ck_Ei32(x, k) && (vk_addr_c09a == ad_Ei32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Ei32(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { Ei32 x = mk_Ei32(k); auto a = ad_Ei32(x); Ei32 y = r_echo_Ei32(std::move(x), k); return vk_addr_c09a == a && ad_Ei32(y) == a && ck_Ei32(y, k) ? 0 : 17; }
 case 5: { return r_mix_Ei32(200, mk_Ei32(k), -1.5, k, mk_Ei32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; Ei32 x = mk_Ei32(k); Ei32 y = o.r_m_Ei32(std::move(x), k); return vk_addr_c09a == 0 && ck_Ei32(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Eu32(Eu32 x, std::int32_t k) { note(ad_Eu32(x)); if (!ck_Eu32(x, k)) return false; return true; }
Eu32 c_make_Eu32(std::int32_t k) { Eu32 x = mk_Eu32(k); note(ad_Eu32(x)); return x; }
Eu32 c_try_Eu32(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); Eu32 x = mk_Eu32(k); note(ad_Eu32(x)); return x; }
Eu32 c_echo_Eu32(Eu32 x, std::int32_t k) { note(ck_Eu32(x, k) ? ad_Eu32(x) : 1); return std::move(x); }
bool c_mix_Eu32(std::uint8_t a, Eu32 x, double b, std::int32_t k, Eu32 y, std::uint16_t c) { return a == 200 && ck_Eu32(x, k) && b == -1.5 && ck_Eu32(y, (k + 1) & 3) && c == 60000; }
Eu32 S3::c_m_Eu32(Eu32 x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_Eu32(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Eu32(rust::Fn<Eu32(Eu32, std::int32_t)> f, std::int32_t k) { Eu32 y = f(mk_Eu32(k), k); return ck_Eu32(y, k); }
std::int32_t c_run_Eu32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { Eu32 x = mk_Eu32(k); auto a = ad_Eu32(x); if (!r_take_Eu32(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { Eu32 x = r_make_Eu32(k); return ck_Eu32(x, k) && (vk_addr_c09a == ad_Eu32(x)) ? 0 : 13; }
 case 2: { Eu32 x = r_try_Eu32(k, false); return ck_Eu32(x, k) && (vk_addr_c09a == ad_Eu32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Eu32(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { Eu32 x = mk_Eu32(k); auto a = ad_Eu32(x); Eu32 y = r_echo_Eu32(std::move(x), k); return vk_addr_c09a == a && ad_Eu32(y) == a && ck_Eu32(y, k) ? 0 : 17; }
 case 5: { return r_mix_Eu32(200, mk_Eu32(k), -1.5, k, mk_Eu32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; Eu32 x = mk_Eu32(k); Eu32 y = o.r_m_Eu32(std::move(x), k); return vk_addr_c09a == 0 && ck_Eu32(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Ei64(Ei64 x, std::int32_t k) { note(ad_Ei64(x)); if (!ck_Ei64(x, k)) return false; return true; }
Ei64 c_make_Ei64(std::int32_t k) { Ei64 x = mk_Ei64(k); note(ad_Ei64(x)); return x; }
Ei64 c_try_Ei64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); Ei64 x = mk_Ei64(k); note(ad_Ei64(x)); return x; }
Ei64 c_echo_Ei64(Ei64 x, std::int32_t k) { note(ck_Ei64(x, k) ? ad_Ei64(x) : 1); return std::move(x); }
bool c_mix_Ei64(std::uint8_t a, Ei64 x, double b, std::int32_t k, Ei64 y, std::uint16_t c) { return a == 200 && ck_Ei64(x, k) && b == -1.5 && ck_Ei64(y, (k + 1) & 3) && c == 60000; }
Ei64 S3::c_m_Ei64(Ei64 x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_Ei64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Ei64(rust::Fn<Ei64(Ei64, std::int32_t)> f, std::int32_t k) { Ei64 y = f(mk_Ei64(k), k); return ck_Ei64(y, k); }
std::int32_t c_run_Ei64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { Ei64 x = mk_Ei64(k); auto a = ad_Ei64(x); if (!r_take_Ei64(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { Ei64 x = r_make_Ei64(k); return ck_Ei64(x, k) && (vk_addr_c09a == ad_Ei64(x)) ? 0 : 13; }
 case 2: { Ei64 x = r_try_Ei64(k, false); return ck_Ei64(x, k) && (vk_addr_c09a == ad_Ei64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Ei64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { Ei64 x = mk_Ei64(k); auto a = ad_Ei64(x); Ei64 y = r_echo_Ei64(std::move(x), k); return vk_addr_c09a == a && ad_Ei64(y) == a && ck_Ei64(y, k) ? 0 : 17; }
 case 5: { return r_mix_Ei64(200, mk_Ei64(k), -1.5, k, mk_Ei64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; Ei64 x = mk_Ei64(k); Ei64 y = o.r_m_Ei64(std::move(x), k); return vk_addr_c09a == 0 && ck_Ei64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_Eu64(Eu64 x, std::int32_t k) { note(ad_Eu64(x)); if (!ck_Eu64(x, k)) return false; return true; }
Eu64 c_make_Eu64(std::int32_t k) { Eu64 x = mk_Eu64(k); note(ad_Eu64(x)); return x; }
Eu64 c_try_Eu64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); Eu64 x = mk_Eu64(k); note(ad_Eu64(x)); return x; }
Eu64 c_echo_Eu64(Eu64 x, std::int32_t k) { note(ck_Eu64(x, k) ? ad_Eu64(x) : 1); return std::move(x); }
bool c_mix_Eu64(std::uint8_t a, Eu64 x, double b, std::int32_t k, Eu64 y, std::uint16_t c) { return a == 200 && ck_Eu64(x, k) && b == -1.5 && ck_Eu64(y, (k + 1) & 3) && c == 60000; }
Eu64 CObj::c_m_Eu64(Eu64 x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_Eu64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_Eu64(rust::Fn<Eu64(Eu64, std::int32_t)> f, std::int32_t k) { Eu64 y = f(mk_Eu64(k), k); return ck_Eu64(y, k); }
std::int32_t c_run_Eu64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { Eu64 x = mk_Eu64(k); auto a = ad_Eu64(x); if (!r_take_Eu64(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { Eu64 x = r_make_Eu64(k); return ck_Eu64(x, k) && (vk_addr_c09a == ad_Eu64(x)) ? 0 : 13; }
 case 2: { Eu64 x = r_try_Eu64(k, false); return ck_Eu64(x, k) && (vk_addr_c09a == ad_Eu64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_Eu64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { Eu64 x = mk_Eu64(k); auto a = ad_Eu64(x); Eu64 y = r_echo_Eu64(std::move(x), k); return vk_addr_c09a == a && ad_Eu64(y) == a && ck_Eu64(y, k) ? 0 : 17; }
 case 5: { return r_mix_Eu64(200, mk_Eu64(k), -1.5, k, mk_Eu64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; Eu64 x = mk_Eu64(k); Eu64 y = o.r_m_Eu64(std::move(x), k); return vk_addr_c09a == 0 && ck_Eu64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_XE(XE x, std::int32_t k) { note(ad_XE(x)); if (!ck_XE(x, k)) return false; return true; }
XE c_make_XE(std::int32_t k) { XE x = mk_XE(k); note(ad_XE(x)); return x; }
XE c_try_XE(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); XE x = mk_XE(k); note(ad_XE(x)); return x; }
XE c_echo_XE(XE x, std::int32_t k) { note(ck_XE(x, k) ? ad_XE(x) : 1); return std::move(x); }
bool c_mix_XE(std::uint8_t a, XE x, double b, std::int32_t k, XE y, std::uint16_t c) { return a == 200 && ck_XE(x, k) && b == -1.5 && ck_XE(y, (k + 1) & 3) && c == 60000; }
XE CObj::c_m_XE(XE x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_XE(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_XE(rust::Fn<XE(XE, std::int32_t)> f, std::int32_t k) { XE y = f(mk_XE(k), k); return ck_XE(y, k); }
std::int32_t c_run_XE(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { XE x = mk_XE(k); auto a = ad_XE(x); if (!r_take_XE(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { XE x = r_make_XE(k); return ck_XE(x, k) && (vk_addr_c09a == ad_XE(x)) ? 0 : 13; }
 case 2: { XE x = r_try_XE(k, false); return ck_XE(x, k) && (vk_addr_c09a == ad_XE(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_XE(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { XE x = mk_XE(k); auto a = ad_XE(x); XE y = r_echo_XE(std::move(x), k); return vk_addr_c09a == a && ad_XE(y) == a && ck_XE(y, k) ? 0 : 17; }
 case 5: { return r_mix_XE(200, mk_XE(k), -1.5, k, mk_XE((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; XE x = mk_XE(k); XE y = o.r_m_XE(std::move(x), k); return vk_addr_c09a == 0 && ck_XE(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_str(rust::Str x, std::int32_t k) { note(ad_str(x)); if (!ck_str(x, k)) return false; return true; }
rust::Str c_make_str(std::uint8_t const &, std::int32_t k) { rust::Str x = mk_str(k); note(ad_str(x)); return x; }
rust::Str c_try_str(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Str x = mk_str(k); note(ad_str(x)); return x; }
rust::Str c_echo_str(rust::Str x, std::int32_t k) { note(ck_str(x, k) ? ad_str(x) : 1); return std::move(x); }
bool c_mix_str(std::uint8_t a, rust::Str x, double b, std::int32_t k, rust::Str y, std::uint16_t c) { return a == 200 && ck_str(x, k) && b == -1.5 && ck_str(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_str(rust::Str x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_str(x, k); }
bool c_cb_str(rust::Fn<rust::Str(rust::Str, std::int32_t)> f, std::int32_t k) { rust::Str y = f(mk_str(k), k); return ck_str(y, k); }
std::int32_t c_run_str(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Str x = mk_str(k); auto a = ad_str(x); if (!r_take_str(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { rust::Str x = r_make_str(Z, k); return ck_str(x, k) && (vk_addr_c09a == ad_str(x)) ? 0 : 13; }
 case 2: { rust::Str x = r_try_str(Z, k, false); return ck_str(x, k) && (vk_addr_c09a == ad_str(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_str(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Str x = mk_str(k); auto a = ad_str(x); rust::Str y = r_echo_str(std::move(x), k); return vk_addr_c09a == a && ad_str(y) == a && ck_str(y, k) ? 0 : 17; }
 case 5: { return r_mix_str(200, mk_str(k), -1.5, k, mk_str((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Str x = mk_str(k); return o.r_m_str(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_String(rust::String x, std::int32_t k) { note(ad_String(x)); if (!ck_String(x, k)) return false; return true; }
rust::String c_make_String(std::int32_t k) { rust::String x = mk_String(k); note(ad_String(x)); return x; }
rust::String c_try_String(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::String x = mk_String(k); note(ad_String(x)); return x; }
rust::String c_echo_String(rust::String x, std::int32_t k) { note(ck_String(x, k) ? ad_String(x) : 1); return std::move(x); }
bool c_mix_String(std::uint8_t a, rust::String x, double b, std::int32_t k, rust::String y, std::uint16_t c) { return a == 200 && ck_String(x, k) && b == -1.5 && ck_String(y, (k + 1) & 3) && c == 60000; }
rust::String S3::c_m_String(rust::String x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_String(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_String(rust::Fn<rust::String(rust::String, std::int32_t)> f, std::int32_t k) { rust::String y = f(mk_String(k), k); return ck_String(y, k); }
std::int32_t c_run_String(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::String x = mk_String(k); auto a = ad_String(x); if (!r_take_String(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { rust::String x = r_make_String(k); return ck_String(x, k) && (vk_addr_c09a == ad_String(x)) ? 0 : 13; }
 case 2: { rust::String x = r_try_String(k, false); return ck_String(x, k) && (vk_addr_c09a == ad_String(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_String(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::String x = mk_String(k); auto a = ad_String(x); rust::String y = r_echo_String(std::move(x), k); return vk_addr_c09a == a && ad_String(y) == a && ck_String(y, k) ? 0 : 17; }
 case 5: { return r_mix_String(200, mk_String(k), -1.5, k, mk_String((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::String x = mk_String(k); rust::String y = o.r_m_String(std::move(x), k); return vk_addr_c09a == 0 && ck_String(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S1(S1 x, std::int32_t k) { note(ad_S1(x)); if (!ck_S1(x, k)) return false; return true; }
S1 c_make_S1(std::int32_t k) { S1 x = mk_S1(k); note(ad_S1(x)); return x; }
S1 c_try_S1(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S1 x = mk_S1(k); note(ad_S1(x)); return x; }
S1 c_echo_S1(S1 x, std::int32_t k) { note(ck_S1(x, k) ? ad_S1(x) : 1); return std::move(x); }
bool c_mix_S1(std::uint8_t a, S1 x, double b, std::int32_t k, S1 y, std::uint16_t c) { return a == 200 && ck_S1(x, k) && b == -1.5 && ck_S1(y, (k + 1) & 3) && c == 60000; }
S1 CObj::c_m_S1(S1 x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_S1(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S1(rust::Fn<S1(S1, std::int32_t)> f, std::int32_t k) { S1 y = f(mk_S1(k), k); return ck_S1(y, k); }
std::int32_t c_run_S1(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S1 x = mk_S1(k); auto a = ad_S1(x); if (!r_take_S1(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S1 x = r_make_S1(k); return ck_S1(x, k) && (vk_addr_c09a == ad_S1(x)) ? 0 : 13; }
 case 2: { S1 x = r_try_S1(k, false); return ck_S1(x, k) && (vk_addr_c09a == ad_S1(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S1(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S1 x = mk_S1(k); auto a = ad_S1(x); S1 y = r_echo_S1(std::move(x), k); return vk_addr_c09a == a && ad_S1(y) == a && ck_S1(y, k) ? 0 : 17; }
 case 5: { return r_mix_S1(200, mk_S1(k), -1.5, k, mk_S1((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S1 x = mk_S1(k); S1 y = o.r_m_S1(std::move(x), k); return vk_addr_c09a == 0 && ck_S1(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S2(S2 x, std::int32_t k) { note(ad_S2(x)); if (!ck_S2(x, k)) return false; return true; }
S2 c_make_S2(std::int32_t k) { S2 x = mk_S2(k); note(ad_S2(x)); return x; }
S2 c_try_S2(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S2 x = mk_S2(k); note(ad_S2(x)); return x; }
S2 c_echo_S2(S2 x, std::int32_t k) { note(ck_S2(x, k) ? ad_S2(x) : 1); return std::move(x); }
bool c_mix_S2(std::uint8_t a, S2 x, double b, std::int32_t k, S2 y, std::uint16_t c) { return a == 200 && ck_S2(x, k) && b == -1.5 && ck_S2(y, (k + 1) & 3) && c == 60000; }
S2 CObj::c_m_S2(S2 x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_S2(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S2(rust::Fn<S2(S2, std::int32_t)> f, std::int32_t k) { S2 y = f(mk_S2(k), k); return ck_S2(y, k); }
std::int32_t c_run_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S2 x = mk_S2(k); auto a = ad_S2(x); if (!r_take_S2(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S2 x = r_make_S2(k); return ck_S2(x, k) && (vk_addr_c09a == ad_S2(x)) ? 0 : 13; }
 case 2: { S2 x = r_try_S2(k, false); return ck_S2(x, k) && (vk_addr_c09a == ad_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S2(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S2 x = mk_S2(k); auto a = ad_S2(x); S2 y = r_echo_S2(std::move(x), k); return vk_addr_c09a == a && ad_S2(y) == a && ck_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_S2(200, mk_S2(k), -1.5, k, mk_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S2 x = mk_S2(k); S2 y = o.r_m_S2(std::move(x), k); return vk_addr_c09a == 0 && ck_S2(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S3(S3 x, std::int32_t k) { note(ad_S3(x)); if (!ck_S3(x, k)) return false; return true; }
S3 c_make_S3(std::int32_t k) { S3 x = mk_S3(k); note(ad_S3(x)); return x; }
S3 c_try_S3(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S3 x = mk_S3(k); note(ad_S3(x)); return x; }
S3 c_echo_S3(S3 x, std::int32_t k) { note(ck_S3(x, k) ? ad_S3(x) : 1); return std::move(x); }
bool c_mix_S3(std::uint8_t a, S3 x, double b, std::int32_t k, S3 y, std::uint16_t c) { return a == 200 && ck_S3(x, k) && b == -1.5 && ck_S3(y, (k + 1) & 3) && c == 60000; }
S3 S3::c_m_S3(S3 x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_S3(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S3(rust::Fn<S3(S3, std::int32_t)> f, std::int32_t k) { S3 y = f(mk_S3(k), k); return ck_S3(y, k); }
std::int32_t c_run_S3(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S3 x = mk_S3(k); auto a = ad_S3(x); if (!r_take_S3(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S3 x = r_make_S3(k); return ck_S3(x, k) && (vk_addr_c09a == ad_S3(x)) ? 0 : 13; }
 case 2: { S3 x = r_try_S3(k, false); return ck_S3(x, k) && (vk_addr_c09a == ad_S3(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S3(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S3 x = mk_S3(k); auto a = ad_S3(x); S3 y = r_echo_S3(std::move(x), k); return vk_addr_c09a == a && ad_S3(y) == a && ck_S3(y, k) ? 0 : 17; }
 case 5: { return r_mix_S3(200, mk_S3(k), -1.5, k, mk_S3((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S3 x = mk_S3(k); S3 y = o.r_m_S3(std::move(x), k); return vk_addr_c09a == 0 && ck_S3(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S4(S4 x, std::int32_t k) { note(ad_S4(x)); if (!ck_S4(x, k)) return false; return true; }
S4 c_make_S4(std::int32_t k) { S4 x = mk_S4(k); note(ad_S4(x)); return x; }
S4 c_try_S4(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S4 x = mk_S4(k); note(ad_S4(x)); return x; }
S4 c_echo_S4(S4 x, std::int32_t k) { note(ck_S4(x, k) ? ad_S4(x) : 1); return std::move(x); }
bool c_mix_S4(std::uint8_t a, S4 x, double b, std::int32_t k, S4 y, std::uint16_t c) { return a == 200 && ck_S4(x, k) && b == -1.5 && ck_S4(y, (k + 1) & 3) && c == 60000; }
S4 S3::c_m_S4(S4 x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_S4(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S4(rust::Fn<S4(S4, std::int32_t)> f, std::int32_t k) { S4 y = f(mk_S4(k), k); return ck_S4(y, k); }
std::int32_t c_run_S4(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S4 x = mk_S4(k); auto a = ad_S4(x); if (!r_take_S4(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S4 x = r_make_S4(k); return ck_S4(x, k) && (vk_addr_c09a == ad_S4(x)) ? 0 : 13; }
 case 2: { S4 x = r_try_S4(k, false); return ck_S4(x, k) && (vk_addr_c09a == ad_S4(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S4(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S4 x = mk_S4(k); auto a = ad_S4(x); S4 y = r_echo_S4(std::move(x), k); return vk_addr_c09a == a && ad_S4(y) == a && ck_S4(y, k) ? 0 : 17; }
 case 5: { return r_mix_S4(200, mk_S4(k), -1.5, k, mk_S4((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S4 x = mk_S4(k); S4 y = o.r_m_S4(std::move(x), k); return vk_addr_c09a == 0 && ck_S4(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S5(S5 x, std::int32_t k) { note(ad_S5(x)); if (!ck_S5(x, k)) return false; return true; }
S5 c_make_S5(std::int32_t k) { S5 x = mk_S5(k); note(ad_S5(x)); return x; }
S5 c_try_S5(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S5 x = mk_S5(k); note(ad_S5(x)); return x; }
S5 c_echo_S5(S5 x, std::int32_t k) { note(ck_S5(x, k) ? ad_S5(x) : 1); return std::move(x); }
bool c_mix_S5(std::uint8_t a, S5 x, double b, std::int32_t k, S5 y, std::uint16_t c) { return a == 200 && ck_S5(x, k) && b == -1.5 && ck_S5(y, (k + 1) & 3) && c == 60000; }
S5 CObj::c_m_S5(S5 x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_S5(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S5(rust::Fn<S5(S5, std::int32_t)> f, std::int32_t k) { S5 y = f(mk_S5(k), k); return ck_S5(y, k); }
std::int32_t c_run_S5(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S5 x = mk_S5(k); auto a = ad_S5(x); if (!r_take_S5(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S5 x = r_make_S5(k); return ck_S5(x, k) && (vk_addr_c09a == ad_S5(x)) ? 0 : 13; }
 case 2: { S5 x = r_try_S5(k, false); return ck_S5(x, k) && (vk_addr_c09a == ad_S5(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S5(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S5 x = mk_S5(k); auto a = ad_S5(x); S5 y = r_echo_S5(std::move(x), k); return vk_addr_c09a == a && ad_S5(y) == a && ck_S5(y, k) ? 0 : 17; }
 case 5: { return r_mix_S5(200, mk_S5(k), -1.5, k, mk_S5((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S5 x = mk_S5(k); S5 y = o.r_m_S5(std::move(x), k); return vk_addr_c09a == 0 && ck_S5(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S6(S6 x, std::int32_t k) { note(ad_S6(x)); if (!ck_S6(x, k)) return false; return true; }
S6 c_make_S6(std::int32_t k) { S6 x = mk_S6(k); note(ad_S6(x)); return x; }
S6 c_try_S6(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S6 x = mk_S6(k); note(ad_S6(x)); return x; }
S6 c_echo_S6(S6 x, std::int32_t k) { note(ck_S6(x, k) ? ad_S6(x) : 1); return std::move(x); }
bool c_mix_S6(std::uint8_t a, S6 x, double b, std::int32_t k, S6 y, std::uint16_t c) { return a == 200 && ck_S6(x, k) && b == -1.5 && ck_S6(y, (k + 1) & 3) && c == 60000; }
S6 CObj::c_m_S6(S6 x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_S6(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S6(rust::Fn<S6(S6, std::int32_t)> f, std::int32_t k) { S6 y = f(mk_S6(k), k); return ck_S6(y, k); }
std::int32_t c_run_S6(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S6 x = mk_S6(k); auto a = ad_S6(x); if (!r_take_S6(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S6 x = r_make_S6(k); return ck_S6(x, k) && (vk_addr_c09a == ad_S6(x)) ? 0 : 13; }
 case 2: { S6 x = r_try_S6(k, false); return ck_S6(x, k) && (vk_addr_c09a == ad_S6(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S6(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S6 x = mk_S6(k); auto a = ad_S6(x); S6 y = r_echo_S6(std::move(x), k); return vk_addr_c09a == a && ad_S6(y) == a && ck_S6(y, k) ? 0 : 17; }
 case 5: { return r_mix_S6(200, mk_S6(k), -1.5, k, mk_S6((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S6 x = mk_S6(k); S6 y = o.r_m_S6(std::move(x), k); return vk_addr_c09a == 0 && ck_S6(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S7(S7 x, std::int32_t k) { note(ad_S7(x)); if (!ck_S7(x, k)) return false; return true; }
S7 c_make_S7(std::int32_t k) { S7 x = mk_S7(k); note(ad_S7(x)); return x; }
S7 c_try_S7(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S7 x = mk_S7(k); note(ad_S7(x)); return x; }
S7 c_echo_S7(S7 x, std::int32_t k) { note(ck_S7(x, k) ? ad_S7(x) : 1); return std::move(x); }
bool c_mix_S7(std::uint8_t a, S7 x, double b, std::int32_t k, S7 y, std::uint16_t c) { return a == 200 && ck_S7(x, k) && b == -1.5 && ck_S7(y, (k + 1) & 3) && c == 60000; }
S7 S3::c_m_S7(S7 x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_S7(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S7(rust::Fn<S7(S7, std::int32_t)> f, std::int32_t k) { S7 y = f(mk_S7(k), k); return ck_S7(y, k); }
std::int32_t c_run_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S7 x = mk_S7(k); auto a = ad_S7(x); if (!r_take_S7(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S7 x = r_make_S7(k); return ck_S7(x, k) && (vk_addr_c09a == ad_S7(x)) ? 0 : 13; }
 case 2: { S7 x = r_try_S7(k, false); return ck_S7(x, k) && (vk_addr_c09a == ad_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S7(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S7 x = mk_S7(k); auto a = ad_S7(x); S7 y = r_echo_S7(std::move(x), k); return vk_addr_c09a == a && ad_S7(y) == a && ck_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_S7(200, mk_S7(k), -1.5, k, mk_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S7 x = mk_S7(k); S7 y = o.r_m_S7(std::move(x), k); return vk_addr_c09a == 0 && ck_S7(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S8(S8 x, std::int32_t k) { note(ad_S8(x)); if (!ck_S8(x, k)) return false; return true; }
S8 c_make_S8(std::int32_t k) { S8 x = mk_S8(k); note(ad_S8(x)); return x; }
S8 c_try_S8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S8 x = mk_S8(k); note(ad_S8(x)); return x; }
S8 c_echo_S8(S8 x, std::int32_t k) { note(ck_S8(x, k) ? ad_S8(x) : 1); return std::move(x); }
bool c_mix_S8(std::uint8_t a, S8 x, double b, std::int32_t k, S8 y, std::uint16_t c) { return a == 200 && ck_S8(x, k) && b == -1.5 && ck_S8(y, (k + 1) & 3) && c == 60000; }
S8 S3::c_m_S8(S8 x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_S8(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S8(rust::Fn<S8(S8, std::int32_t)> f, std::int32_t k) { S8 y = f(mk_S8(k), k); return ck_S8(y, k); }
std::int32_t c_run_S8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S8 x = mk_S8(k); auto a = ad_S8(x); if (!r_take_S8(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S8 x = r_make_S8(k); return ck_S8(x, k) && (vk_addr_c09a == ad_S8(x)) ? 0 : 13; }
 case 2: { S8 x = r_try_S8(k, false); return ck_S8(x, k) && (vk_addr_c09a == ad_S8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S8 x = mk_S8(k); auto a = ad_S8(x); S8 y = r_echo_S8(std::move(x), k); return vk_addr_c09a == a && ad_S8(y) == a && ck_S8(y, k) ? 0 : 17; }
 case 5: { return r_mix_S8(200, mk_S8(k), -1.5, k, mk_S8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S8 x = mk_S8(k); S8 y = o.r_m_S8(std::move(x), k); return vk_addr_c09a == 0 && ck_S8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S9(S9 x, std::int32_t k) { note(ad_S9(x)); if (!ck_S9(x, k)) return false; return true; }
S9 c_make_S9(std::int32_t k) { S9 x = mk_S9(k); note(ad_S9(x)); return x; }
S9 c_try_S9(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S9 x = mk_S9(k); note(ad_S9(x)); return x; }
S9 c_echo_S9(S9 x, std::int32_t k) { note(ck_S9(x, k) ? ad_S9(x) : 1); return std::move(x); }
bool c_mix_S9(std::uint8_t a, S9 x, double b, std::int32_t k, S9 y, std::uint16_t c) { return a == 200 && ck_S9(x, k) && b == -1.5 && ck_S9(y, (k + 1) & 3) && c == 60000; }
S9 CObj::c_m_S9(S9 x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_S9(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S9(rust::Fn<S9(S9, std::int32_t)> f, std::int32_t k) { S9 y = f(mk_S9(k), k); return ck_S9(y, k); }
std::int32_t c_run_S9(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S9 x = mk_S9(k); auto a = ad_S9(x); if (!r_take_S9(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S9 x = r_make_S9(k); return ck_S9(x, k) && (vk_addr_c09a == ad_S9(x)) ? 0 : 13; }
 case 2: { S9 x = r_try_S9(k, false); return ck_S9(x, k) && (vk_addr_c09a == ad_S9(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S9(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S9 x = mk_S9(k); auto a = ad_S9(x); S9 y = r_echo_S9(std::move(x), k); return vk_addr_c09a == a && ad_S9(y) == a && ck_S9(y, k) ? 0 : 17; }
 case 5: { return r_mix_S9(200, mk_S9(k), -1.5, k, mk_S9((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S9 x = mk_S9(k); S9 y = o.r_m_S9(std::move(x), k); return vk_addr_c09a == 0 && ck_S9(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S10(S10 x, std::int32_t k) { note(ad_S10(x)); if (!ck_S10(x, k)) return false; return true; }
S10 c_make_S10(std::int32_t k) { S10 x = mk_S10(k); note(ad_S10(x)); return x; }
S10 c_try_S10(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S10 x = mk_S10(k); note(ad_S10(x)); return x; }
S10 c_echo_S10(S10 x, std::int32_t k) { note(ck_S10(x, k) ? ad_S10(x) : 1); return std::move(x); }
bool c_mix_S10(std::uint8_t a, S10 x, double b, std::int32_t k, S10 y, std::uint16_t c) { return a == 200 && ck_S10(x, k) && b == -1.5 && ck_S10(y, (k + 1) & 3) && c == 60000; }
S10 CObj::c_m_S10(S10 x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_S10(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S10(rust::Fn<S10(S10, std::int32_t)> f, std::int32_t k) { S10 y = f(mk_S10(k), k); return ck_S10(y, k); }
std::int32_t c_run_S10(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S10 x = mk_S10(k); auto a = ad_S10(x); if (!r_take_S10(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S10 x = r_make_S10(k); return ck_S10(x, k) && (vk_addr_c09a == ad_S10(x)) ? 0 : 13; }
 case 2: { S10 x = r_try_S10(k, false); return ck_S10(x, k) && (vk_addr_c09a == ad_S10(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S10(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S10 x = mk_S10(k); auto a = ad_S10(x); S10 y = r_echo_S10(std::move(x), k); return vk_addr_c09a == a && ad_S10(y) == a && ck_S10(y, k) ? 0 : 17; }
 case 5: { return r_mix_S10(200, mk_S10(k), -1.5, k, mk_S10((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S10 x = mk_S10(k); S10 y = o.r_m_S10(std::move(x), k); return vk_addr_c09a == 0 && ck_S10(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S11(S11 x, std::int32_t k) { note(ad_S11(x)); if (!ck_S11(x, k)) return false; return true; }
S11 c_make_S11(std::int32_t k) { S11 x = mk_S11(k); note(ad_S11(x)); return x; }
S11 c_try_S11(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S11 x = mk_S11(k); note(ad_S11(x)); return x; }
S11 c_echo_S11(S11 x, std::int32_t k) { note(ck_S11(x, k) ? ad_S11(x) : 1); return std::move(x); }
bool c_mix_S11(std::uint8_t a, S11 x, double b, std::int32_t k, S11 y, std::uint16_t c) { return a == 200 && ck_S11(x, k) && b == -1.5 && ck_S11(y, (k + 1) & 3) && c == 60000; }
S11 S3::c_m_S11(S11 x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_S11(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S11(rust::Fn<S11(S11, std::int32_t)> f, std::int32_t k) { S11 y = f(mk_S11(k), k); return ck_S11(y, k); }
std::int32_t c_run_S11(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S11 x = mk_S11(k); auto a = ad_S11(x); if (!r_take_S11(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S11 x = r_make_S11(k); return ck_S11(x, k) && (vk_addr_c09a == ad_S11(x)) ? 0 : 13; }
 case 2: { S11 x = r_try_S11(k, false); return ck_S11(x, k) && (vk_addr_c09a == ad_S11(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S11(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S11 x = mk_S11(k); auto a = ad_S11(x); S11 y = r_echo_S11(std::move(x), k); return vk_addr_c09a == a && ad_S11(y) == a && ck_S11(y, k) ? 0 : 17; }
 case 5: { return r_mix_S11(200, mk_S11(k), -1.5, k, mk_S11((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S11 x = mk_S11(k); S11 y = o.r_m_S11(std::move(x), k); return vk_addr_c09a == 0 && ck_S11(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S12(S12 x, std::int32_t k) { note(ad_S12(x)); if (!ck_S12(x, k)) return false; return true; }
S12 c_make_S12(std::int32_t k) { S12 x = mk_S12(k); note(ad_S12(x)); return x; }
S12 c_try_S12(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S12 x = mk_S12(k); note(ad_S12(x)); return x; }
S12 c_echo_S12(S12 x, std::int32_t k) { note(ck_S12(x, k) ? ad_S12(x) : 1); return std::move(x); }
bool c_mix_S12(std::uint8_t a, S12 x, double b, std::int32_t k, S12 y, std::uint16_t c) { return a == 200 && ck_S12(x, k) && b == -1.5 && ck_S12(y, (k + 1) & 3) && c == 60000; }
S12 S3::c_m_S12(S12 x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_S12(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S12(rust::Fn<S12(S12, std::int32_t)> f, std::int32_t k) { S12 y = f(mk_S12(k), k); return ck_S12(y, k); }
std::int32_t c_run_S12(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S12 x = mk_S12(k); auto a = ad_S12(x); if (!r_take_S12(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S12 x = r_make_S12(k); return ck_S12(x, k) && (vk_addr_c09a == ad_S12(x)) ? 0 : 13; }
 case 2: { S12 x = r_try_S12(k, false); return ck_S12(x, k) && (vk_addr_c09a == ad_S12(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S12(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S12 x = mk_S12(k); auto a = ad_S12(x); S12 y = r_echo_S12(std::move(x), k); return vk_addr_c09a == a && ad_S12(y) == a && ck_S12(y, k) ? 0 : 17; }
 case 5: { return r_mix_S12(200, mk_S12(k), -1.5, k, mk_S12((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S12 x = mk_S12(k); S12 y = o.r_m_S12(std::move(x), k); return vk_addr_c09a == 0 && ck_S12(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S13(S13 x, std::int32_t k) { note(ad_S13(x)); if (!ck_S13(x, k)) return false; return true; }
S13 c_make_S13(std::int32_t k) { S13 x = mk_S13(k); note(ad_S13(x)); return x; }
S13 c_try_S13(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S13 x = mk_S13(k); note(ad_S13(x)); return x; }
S13 c_echo_S13(S13 x, std::int32_t k) { note(ck_S13(x, k) ? ad_S13(x) : 1); return std::move(x); }
bool c_mix_S13(std::uint8_t a, S13 x, double b, std::int32_t k, S13 y, std::uint16_t c) { return a == 200 && ck_S13(x, k) && b == -1.5 && ck_S13(y, (k + 1) & 3) && c == 60000; }
S13 CObj::c_m_S13(S13 x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_S13(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S13(rust::Fn<S13(S13, std::int32_t)> f, std::int32_t k) { S13 y = f(mk_S13(k), k); return ck_S13(y, k); }
std::int32_t c_run_S13(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S13 x = mk_S13(k); auto a = ad_S13(x); if (!r_take_S13(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S13 x = r_make_S13(k); return ck_S13(x, k) && (vk_addr_c09a == ad_S13(x)) ? 0 : 13; }
 case 2: { S13 x = r_try_S13(k, false); return ck_S13(x, k) && (vk_addr_c09a == ad_S13(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S13(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S13 x = mk_S13(k); auto a = ad_S13(x); S13 y = r_echo_S13(std::move(x), k); return vk_addr_c09a == a && ad_S13(y) == a && ck_S13(y, k) ? 0 : 17; }
 case 5: { return r_mix_S13(200, mk_S13(k), -1.5, k, mk_S13((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S13 x = mk_S13(k); S13 y = o.r_m_S13(std::move(x), k); return vk_addr_c09a == 0 && ck_S13(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S14(S14 x, std::int32_t k) { note(ad_S14(x)); if (!ck_S14(x, k)) return false; return true; }
S14 c_make_S14(std::int32_t k) { S14 x = mk_S14(k); note(ad_S14(x)); return x; }
S14 c_try_S14(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S14 x = mk_S14(k); note(ad_S14(x)); return x; }
S14 c_echo_S14(S14 x, std::int32_t k) { note(ck_S14(x, k) ? ad_S14(x) : 1); return std::move(x); }
bool c_mix_S14(std::uint8_t a, S14 x, double b, std::int32_t k, S14 y, std::uint16_t c) { return a == 200 && ck_S14(x, k) && b == -1.5 && ck_S14(y, (k + 1) & 3) && c == 60000; }
S14 CObj::c_m_S14(S14 x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_S14(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S14(rust::Fn<S14(S14, std::int32_t)> f, std::int32_t k) { S14 y = f(mk_S14(k), k); return ck_S14(y, k); }
std::int32_t c_run_S14(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S14 x = mk_S14(k); auto a = ad_S14(x); if (!r_take_S14(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S14 x = r_make_S14(k); return ck_S14(x, k) && (vk_addr_c09a == ad_S14(x)) ? 0 : 13; }
 case 2: { S14 x = r_try_S14(k, false); return ck_S14(x, k) && (vk_addr_c09a == ad_S14(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S14(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S14 x = mk_S14(k); auto a = ad_S14(x); S14 y = r_echo_S14(std::move(x), k); return vk_addr_c09a == a && ad_S14(y) == a && ck_S14(y, k) ? 0 : 17; }
 case 5: { return r_mix_S14(200, mk_S14(k), -1.5, k, mk_S14((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S14 x = mk_S14(k); S14 y = o.r_m_S14(std::move(x), k); return vk_addr_c09a == 0 && ck_S14(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S15(S15 x, std::int32_t k) { note(ad_S15(x)); if (!ck_S15(x, k)) return false; return true; }
S15 c_make_S15(std::int32_t k) { S15 x = mk_S15(k); note(ad_S15(x)); return x; }
S15 c_try_S15(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S15 x = mk_S15(k); note(ad_S15(x)); return x; }
S15 c_echo_S15(S15 x, std::int32_t k) { note(ck_S15(x, k) ? ad_S15(x) : 1); return std::move(x); }
bool c_mix_S15(std::uint8_t a, S15 x, double b, std::int32_t k, S15 y, std::uint16_t c) { return a == 200 && ck_S15(x, k) && b == -1.5 && ck_S15(y, (k + 1) & 3) && c == 60000; }
S15 S3::c_m_S15(S15 x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_S15(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S15(rust::Fn<S15(S15, std::int32_t)> f, std::int32_t k) { S15 y = f(mk_S15(k), k); return ck_S15(y, k); }
std::int32_t c_run_S15(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S15 x = mk_S15(k); auto a = ad_S15(x); if (!r_take_S15(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S15 x = r_make_S15(k); return ck_S15(x, k) && (vk_addr_c09a == ad_S15(x)) ? 0 : 13; }
 case 2: { S15 x = r_try_S15(k, false); return ck_S15(x, k) && (vk_addr_c09a == ad_S15(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S15(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S15 x = mk_S15(k); auto a = ad_S15(x); S15 y = r_echo_S15(std::move(x), k); return vk_addr_c09a == a && ad_S15(y) == a && ck_S15(y, k) ? 0 : 17; }
 case 5: { return r_mix_S15(200, mk_S15(k), -1.5, k, mk_S15((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S15 x = mk_S15(k); S15 y = o.r_m_S15(std::move(x), k); return vk_addr_c09a == 0 && ck_S15(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S16(S16 x, std::int32_t k) { note(ad_S16(x)); if (!ck_S16(x, k)) return false; return true; }
S16 c_make_S16(std::uint8_t const &, std::int32_t k) { S16 x = mk_S16(k); note(ad_S16(x)); return x; }
S16 c_try_S16(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S16 x = mk_S16(k); note(ad_S16(x)); return x; }
S16 c_echo_S16(S16 x, std::int32_t k) { note(ck_S16(x, k) ? ad_S16(x) : 1); return std::move(x); }
bool c_mix_S16(std::uint8_t a, S16 x, double b, std::int32_t k, S16 y, std::uint16_t c) { return a == 200 && ck_S16(x, k) && b == -1.5 && ck_S16(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_S16(S16 x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_S16(x, k); }
std::int32_t c_run_S16(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S16 x = mk_S16(k); auto a = ad_S16(x); if (!r_take_S16(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S16 x = r_make_S16(Z, k); return ck_S16(x, k) && (vk_addr_c09a == ad_S16(x)) ? 0 : 13; }
 case 2: { S16 x = r_try_S16(Z, k, false); return ck_S16(x, k) && (vk_addr_c09a == ad_S16(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S16(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S16 x = mk_S16(k); auto a = ad_S16(x); S16 y = r_echo_S16(std::move(x), k); return vk_addr_c09a == a && ad_S16(y) == a && ck_S16(y, k) ? 0 : 17; }
 case 5: { return r_mix_S16(200, mk_S16(k), -1.5, k, mk_S16((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S16 x = mk_S16(k); return o.r_m_S16(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S17(S17 x, std::int32_t k) { note(ad_S17(x)); if (!ck_S17(x, k)) return false; return true; }
S17 c_make_S17(std::int32_t k) { S17 x = mk_S17(k); note(ad_S17(x)); return x; }
S17 c_try_S17(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S17 x = mk_S17(k); note(ad_S17(x)); return x; }
S17 c_echo_S17(S17 x, std::int32_t k) { note(ck_S17(x, k) ? ad_S17(x) : 1); return std::move(x); }
bool c_mix_S17(std::uint8_t a, S17 x, double b, std::int32_t k, S17 y, std::uint16_t c) { return a == 200 && ck_S17(x, k) && b == -1.5 && ck_S17(y, (k + 1) & 3) && c == 60000; }
S17 CObj::c_m_S17(S17 x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_S17(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S17(rust::Fn<S17(S17, std::int32_t)> f, std::int32_t k) { S17 y = f(mk_S17(k), k); return ck_S17(y, k); }
std::int32_t c_run_S17(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S17 x = mk_S17(k); auto a = ad_S17(x); if (!r_take_S17(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S17 x = r_make_S17(k); return ck_S17(x, k) && (vk_addr_c09a == ad_S17(x)) ? 0 : 13; }
 case 2: { S17 x = r_try_S17(k, false); return ck_S17(x, k) && (vk_addr_c09a == ad_S17(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S17(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S17 x = mk_S17(k); auto a = ad_S17(x); S17 y = r_echo_S17(std::move(x), k); return vk_addr_c09a == a && ad_S17(y) == a && ck_S17(y, k) ? 0 : 17; }
 case 5: { return r_mix_S17(200, mk_S17(k), -1.5, k, mk_S17((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S17 x = mk_S17(k); S17 y = o.r_m_S17(std::move(x), k); return vk_addr_c09a == 0 && ck_S17(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S18(S18 x, std::int32_t k) { note(ad_S18(x)); if (!ck_S18(x, k)) return false; return true; }
S18 c_make_S18(std::int32_t k) { S18 x = mk_S18(k); note(ad_S18(x)); return x; }
S18 c_try_S18(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S18 x = mk_S18(k); note(ad_S18(x)); return x; }
S18 c_echo_S18(S18 x, std::int32_t k) { note(ck_S18(x, k) ? ad_S18(x) : 1); return std::move(x); }
bool c_mix_S18(std::uint8_t a, S18 x, double b, std::int32_t k, S18 y, std::uint16_t c) { return a == 200 && ck_S18(x, k) && b == -1.5 && ck_S18(y, (k + 1) & 3) && c == 60000; }
S18 CObj::c_m_S18(S18 x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_S18(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S18(rust::Fn<S18(S18, std::int32_t)> f, std::int32_t k) { S18 y = f(mk_S18(k), k); return ck_S18(y, k); }
std::int32_t c_run_S18(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S18 x = mk_S18(k); auto a = ad_S18(x); if (!r_take_S18(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S18 x = r_make_S18(k); return ck_S18(x, k) && (vk_addr_c09a == ad_S18(x)) ? 0 : 13; }
 case 2: { S18 x = r_try_S18(k, false); return ck_S18(x, k) && (vk_addr_c09a == ad_S18(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S18(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S18 x = mk_S18(k); auto a = ad_S18(x); S18 y = r_echo_S18(std::move(x), k); return vk_addr_c09a == a && ad_S18(y) == a && ck_S18(y, k) ? 0 : 17; }
 case 5: { return r_mix_S18(200, mk_S18(k), -1.5, k, mk_S18((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S18 x = mk_S18(k); S18 y = o.r_m_S18(std::move(x), k); return vk_addr_c09a == 0 && ck_S18(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S19(S19 x, std::int32_t k) { note(ad_S19(x)); if (!ck_S19(x, k)) return false; return true; }
S19 c_make_S19(std::int32_t k) { S19 x = mk_S19(k); note(ad_S19(x)); return x; }
S19 c_try_S19(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S19 x = mk_S19(k); note(ad_S19(x)); return x; }
S19 c_echo_S19(S19 x, std::int32_t k) { note(ck_S19(x, k) ? ad_S19(x) : 1); return std::move(x); }
bool c_mix_S19(std::uint8_t a, S19 x, double b, std::int32_t k, S19 y, std::uint16_t c) { return a == 200 && ck_S19(x, k) && b == -1.5 && ck_S19(y, (k + 1) & 3) && c == 60000; }
S19 S3::c_m_S19(S19 x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_S19(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S19(rust::Fn<S19(S19, std::int32_t)> f, std::int32_t k) { S19 y = f(mk_S19(k), k); return ck_S19(y, k); }
std::int32_t c_run_S19(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S19 x = mk_S19(k); auto a = ad_S19(x); if (!r_take_S19(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S19 x = r_make_S19(k); return ck_S19(x, k) && (vk_addr_c09a == ad_S19(x)) ? 0 : 13; }
 case 2: { S19 x = r_try_S19(k, false); return ck_S19(x, k) && (vk_addr_c09a == ad_S19(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S19(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S19 x = mk_S19(k); auto a = ad_S19(x); S19 y = r_echo_S19(std::move(x), k); return vk_addr_c09a == a && ad_S19(y) == a && ck_S19(y, k) ? 0 : 17; }
 case 5: { return r_mix_S19(200, mk_S19(k), -1.5, k, mk_S19((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S19 x = mk_S19(k); S19 y = o.r_m_S19(std::move(x), k); return vk_addr_c09a == 0 && ck_S19(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S20(S20 x, std::int32_t k) { note(ad_S20(x)); if (!ck_S20(x, k)) return false; return true; }
S20 c_make_S20(std::int32_t k) { S20 x = mk_S20(k); note(ad_S20(x)); return x; }
S20 c_try_S20(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S20 x = mk_S20(k); note(ad_S20(x)); return x; }
S20 c_echo_S20(S20 x, std::int32_t k) { note(ck_S20(x, k) ? ad_S20(x) : 1); return std::move(x); }
bool c_mix_S20(std::uint8_t a, S20 x, double b, std::int32_t k, S20 y, std::uint16_t c) { return a == 200 && ck_S20(x, k) && b == -1.5 && ck_S20(y, (k + 1) & 3) && c == 60000; }
S20 S3::c_m_S20(S20 x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_S20(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S20(rust::Fn<S20(S20, std::int32_t)> f, std::int32_t k) { S20 y = f(mk_S20(k), k); return ck_S20(y, k); }
std::int32_t c_run_S20(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S20 x = mk_S20(k); auto a = ad_S20(x); if (!r_take_S20(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S20 x = r_make_S20(k); return ck_S20(x, k) && (vk_addr_c09a == ad_S20(x)) ? 0 : 13; }
 case 2: { S20 x = r_try_S20(k, false); return ck_S20(x, k) && (vk_addr_c09a == ad_S20(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S20(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S20 x = mk_S20(k); auto a = ad_S20(x); S20 y = r_echo_S20(std::move(x), k); return vk_addr_c09a == a && ad_S20(y) == a && ck_S20(y, k) ? 0 : 17; }
 case 5: { return r_mix_S20(200, mk_S20(k), -1.5, k, mk_S20((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S20 x = mk_S20(k); S20 y = o.r_m_S20(std::move(x), k); return vk_addr_c09a == 0 && ck_S20(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S21(S21 x, std::int32_t k) { note(ad_S21(x)); if (!ck_S21(x, k)) return false; return true; }
S21 c_make_S21(std::int32_t k) { S21 x = mk_S21(k); note(ad_S21(x)); return x; }
S21 c_try_S21(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S21 x = mk_S21(k); note(ad_S21(x)); return x; }
S21 c_echo_S21(S21 x, std::int32_t k) { note(ck_S21(x, k) ? ad_S21(x) : 1); return std::move(x); }
bool c_mix_S21(std::uint8_t a, S21 x, double b, std::int32_t k, S21 y, std::uint16_t c) { return a == 200 && ck_S21(x, k) && b == -1.5 && ck_S21(y, (k + 1) & 3) && c == 60000; }
S21 CObj::c_m_S21(S21 x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_S21(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_S21(rust::Fn<S21(S21, std::int32_t)> f, std::int32_t k) { S21 y = f(mk_S21(k), k); return ck_S21(y, k); }
std::int32_t c_run_S21(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S21 x = mk_S21(k); auto a = ad_S21(x); if (!r_take_S21(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S21 x = r_make_S21(k); return ck_S21(x, k) && (vk_addr_c09a == ad_S21(x)) ? 0 : 13; }
 case 2: { S21 x = r_try_S21(k, false); return ck_S21(x, k) && (vk_addr_c09a == ad_S21(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S21(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S21 x = mk_S21(k); auto a = ad_S21(x); S21 y = r_echo_S21(std::move(x), k); return vk_addr_c09a == a && ad_S21(y) == a && ck_S21(y, k) ? 0 : 17; }
 case 5: { return r_mix_S21(200, mk_S21(k), -1.5, k, mk_S21((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S21 x = mk_S21(k); S21 y = o.r_m_S21(std::move(x), k); return vk_addr_c09a == 0 && ck_S21(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S22(S22 x, std::int32_t k) { note(ad_S22(x)); if (!ck_S22(x, k)) return false; return true; }
S22 c_make_S22(std::uint8_t const &, std::int32_t k) { S22 x = mk_S22(k); note(ad_S22(x)); return x; }
S22 c_try_S22(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S22 x = mk_S22(k); note(ad_S22(x)); return x; }
S22 c_echo_S22(S22 x, std::int32_t k) { note(ck_S22(x, k) ? ad_S22(x) : 1); return std::move(x); }
bool c_mix_S22(std::uint8_t a, S22 x, double b, std::int32_t k, S22 y, std::uint16_t c) { return a == 200 && ck_S22(x, k) && b == -1.5 && ck_S22(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_S22(S22 x, std::int32_t k) { return ck_CObj(*this, 2) && ck_S22(x, k); }
std::int32_t c_run_S22(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S22 x = mk_S22(k); auto a = ad_S22(x); if (!r_take_S22(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S22 x = r_make_S22(Z, k); return ck_S22(x, k) && (vk_addr_c09a == ad_S22(x)) ? 0 : 13; }
 case 2: { S22 x = r_try_S22(Z, k, false); return ck_S22(x, k) && (vk_addr_c09a == ad_S22(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S22(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S22 x = mk_S22(k); auto a = ad_S22(x); S22 y = r_echo_S22(std::move(x), k); return vk_addr_c09a == a && ad_S22(y) == a && ck_S22(y, k) ? 0 : 17; }
 case 5: { return r_mix_S22(200, mk_S22(k), -1.5, k, mk_S22((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S22 x = mk_S22(k); return o.r_m_S22(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_S23(S23 x, std::int32_t k) { note(ad_S23(x)); if (!ck_S23(x, k)) return false; return true; }
S23 c_make_S23(std::uint8_t const &, std::int32_t k) { S23 x = mk_S23(k); note(ad_S23(x)); return x; }
S23 c_try_S23(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S23 x = mk_S23(k); note(ad_S23(x)); return x; }
S23 c_echo_S23(S23 x, std::int32_t k) { note(ck_S23(x, k) ? ad_S23(x) : 1); return std::move(x); }
bool c_mix_S23(std::uint8_t a, S23 x, double b, std::int32_t k, S23 y, std::uint16_t c) { return a == 200 && ck_S23(x, k) && b == -1.5 && ck_S23(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_S23(S23 x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_S23(x, k); }
std::int32_t c_run_S23(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S23 x = mk_S23(k); auto a = ad_S23(x); if (!r_take_S23(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { S23 x = r_make_S23(Z, k); return ck_S23(x, k) && (vk_addr_c09a == ad_S23(x)) ? 0 : 13; }
 case 2: { S23 x = r_try_S23(Z, k, false); return ck_S23(x, k) && (vk_addr_c09a == ad_S23(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_S23(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S23 x = mk_S23(k); auto a = ad_S23(x); S23 y = r_echo_S23(std::move(x), k); return vk_addr_c09a == a && ad_S23(y) == a && ck_S23(y, k) ? 0 : 17; }
 case 5: { return r_mix_S23(200, mk_S23(k), -1.5, k, mk_S23((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S23 x = mk_S23(k); return o.r_m_S23(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_TrivA(TrivA x, std::int32_t k) { note(ad_TrivA(x)); if (!ck_TrivA(x, k)) return false; return true; }
TrivA c_make_TrivA(std::int32_t k) { TrivA x = mk_TrivA(k); note(ad_TrivA(x)); return x; }
TrivA c_try_TrivA(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); TrivA x = mk_TrivA(k); note(ad_TrivA(x)); return x; }
TrivA c_echo_TrivA(TrivA x, std::int32_t k) { note(ck_TrivA(x, k) ? ad_TrivA(x) : 1); return std::move(x); }
bool c_mix_TrivA(std::uint8_t a, TrivA x, double b, std::int32_t k, TrivA y, std::uint16_t c) { return a == 200 && ck_TrivA(x, k) && b == -1.5 && ck_TrivA(y, (k + 1) & 3) && c == 60000; }
TrivA S3::c_m_TrivA(TrivA x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_TrivA(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_TrivA(rust::Fn<TrivA(TrivA, std::int32_t)> f, std::int32_t k) { TrivA y = f(mk_TrivA(k), k); return ck_TrivA(y, k); }
std::int32_t c_run_TrivA(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { TrivA x = mk_TrivA(k); auto a = ad_TrivA(x); if (!r_take_TrivA(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { TrivA x = r_make_TrivA(k); return ck_TrivA(x, k) && (vk_addr_c09a == ad_TrivA(x)) ? 0 : 13; }
 case 2: { TrivA x = r_try_TrivA(k, false); return ck_TrivA(x, k) && (vk_addr_c09a == ad_TrivA(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_TrivA(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { TrivA x = mk_TrivA(k); auto a = ad_TrivA(x); TrivA y = r_echo_TrivA(std::move(x), k); return vk_addr_c09a == a && ad_TrivA(y) == a && ck_TrivA(y, k) ? 0 : 17; }
 case 5: { return r_mix_TrivA(200, mk_TrivA(k), -1.5, k, mk_TrivA((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; TrivA x = mk_TrivA(k); TrivA y = o.r_m_TrivA(std::move(x), k); return vk_addr_c09a == 0 && ck_TrivA(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_TrivB(TrivB x, std::int32_t k) { note(ad_TrivB(x)); if (!ck_TrivB(x, k)) return false; return true; }
TrivB c_make_TrivB(std::int32_t k) { TrivB x = mk_TrivB(k); note(ad_TrivB(x)); return x; }
TrivB c_try_TrivB(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); TrivB x = mk_TrivB(k); note(ad_TrivB(x)); return x; }
TrivB c_echo_TrivB(TrivB x, std::int32_t k) { note(ck_TrivB(x, k) ? ad_TrivB(x) : 1); return std::move(x); }
bool c_mix_TrivB(std::uint8_t a, TrivB x, double b, std::int32_t k, TrivB y, std::uint16_t c) { return a == 200 && ck_TrivB(x, k) && b == -1.5 && ck_TrivB(y, (k + 1) & 3) && c == 60000; }
TrivB CObj::c_m_TrivB(TrivB x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_TrivB(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_TrivB(rust::Fn<TrivB(TrivB, std::int32_t)> f, std::int32_t k) { TrivB y = f(mk_TrivB(k), k); return ck_TrivB(y, k); }
std::int32_t c_run_TrivB(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { TrivB x = mk_TrivB(k); auto a = ad_TrivB(x); if (!r_take_TrivB(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { TrivB x = r_make_TrivB(k); return ck_TrivB(x, k) && (vk_addr_c09a == ad_TrivB(x)) ? 0 : 13; }
 case 2: { TrivB x = r_try_TrivB(k, false); return ck_TrivB(x, k) && (vk_addr_c09a == ad_TrivB(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_TrivB(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { TrivB x = mk_TrivB(k); auto a = ad_TrivB(x); TrivB y = r_echo_TrivB(std::move(x), k); return vk_addr_c09a == a && ad_TrivB(y) == a && ck_TrivB(y, k) ? 0 : 17; }
 case 5: { return r_mix_TrivB(200, mk_TrivB(k), -1.5, k, mk_TrivB((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; TrivB x = mk_TrivB(k); TrivB y = o.r_m_TrivB(std::move(x), k); return vk_addr_c09a == 0 && ck_TrivB(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_TrivC(TrivC x, std::int32_t k) { note(ad_TrivC(x)); if (!ck_TrivC(x, k)) return false; return true; }
TrivC c_make_TrivC(std::int32_t k) { TrivC x = mk_TrivC(k); note(ad_TrivC(x)); return x; }
TrivC c_try_TrivC(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); TrivC x = mk_TrivC(k); note(ad_TrivC(x)); return x; }
TrivC c_echo_TrivC(TrivC x, std::int32_t k) { note(ck_TrivC(x, k) ? ad_TrivC(x) : 1); return std::move(x); }
bool c_mix_TrivC(std::uint8_t a, TrivC x, double b, std::int32_t k, TrivC y, std::uint16_t c) { return a == 200 && ck_TrivC(x, k) && b == -1.5 && ck_TrivC(y, (k + 1) & 3) && c == 60000; }
TrivC CObj::c_m_TrivC(TrivC x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_TrivC(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_TrivC(rust::Fn<TrivC(TrivC, std::int32_t)> f, std::int32_t k) { TrivC y = f(mk_TrivC(k), k); return ck_TrivC(y, k); }
std::int32_t c_run_TrivC(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { TrivC x = mk_TrivC(k); auto a = ad_TrivC(x); if (!r_take_TrivC(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { TrivC x = r_make_TrivC(k); return ck_TrivC(x, k) && (vk_addr_c09a == ad_TrivC(x)) ? 0 : 13; }
 case 2: { TrivC x = r_try_TrivC(k, false); return ck_TrivC(x, k) && (vk_addr_c09a == ad_TrivC(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_TrivC(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { TrivC x = mk_TrivC(k); auto a = ad_TrivC(x); TrivC y = r_echo_TrivC(std::move(x), k); return vk_addr_c09a == a && ad_TrivC(y) == a && ck_TrivC(y, k) ? 0 : 17; }
 case 5: { return r_mix_TrivC(200, mk_TrivC(k), -1.5, k, mk_TrivC((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; TrivC x = mk_TrivC(k); TrivC y = o.r_m_TrivC(std::move(x), k); return vk_addr_c09a == 0 && ck_TrivC(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_TrivD(TrivD x, std::int32_t k) { note(ad_TrivD(x)); if (!ck_TrivD(x, k)) return false; return true; }
TrivD c_make_TrivD(std::int32_t k) { TrivD x = mk_TrivD(k); note(ad_TrivD(x)); return x; }
TrivD c_try_TrivD(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); TrivD x = mk_TrivD(k); note(ad_TrivD(x)); return x; }
TrivD c_echo_TrivD(TrivD x, std::int32_t k) { note(ck_TrivD(x, k) ? ad_TrivD(x) : 1); return std::move(x); }
bool c_mix_TrivD(std::uint8_t a, TrivD x, double b, std::int32_t k, TrivD y, std::uint16_t c) { return a == 200 && ck_TrivD(x, k) && b == -1.5 && ck_TrivD(y, (k + 1) & 3) && c == 60000; }
TrivD S3::c_m_TrivD(TrivD x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_TrivD(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_TrivD(rust::Fn<TrivD(TrivD, std::int32_t)> f, std::int32_t k) { TrivD y = f(mk_TrivD(k), k); return ck_TrivD(y, k); }
std::int32_t c_run_TrivD(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { TrivD x = mk_TrivD(k); auto a = ad_TrivD(x); if (!r_take_TrivD(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { TrivD x = r_make_TrivD(k); return ck_TrivD(x, k) && (vk_addr_c09a == ad_TrivD(x)) ? 0 : 13; }
 case 2: { TrivD x = r_try_TrivD(k, false); return ck_TrivD(x, k) && (vk_addr_c09a == ad_TrivD(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_TrivD(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { TrivD x = mk_TrivD(k); auto a = ad_TrivD(x); TrivD y = r_echo_TrivD(std::move(x), k); return vk_addr_c09a == a && ad_TrivD(y) == a && ck_TrivD(y, k) ? 0 : 17; }
 case 5: { return r_mix_TrivD(200, mk_TrivD(k), -1.5, k, mk_TrivD((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; TrivD x = mk_TrivD(k); TrivD y = o.r_m_TrivD(std::move(x), k); return vk_addr_c09a == 0 && ck_TrivD(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_TrivM(TrivM x, std::int32_t k) { note(ad_TrivM(x)); if (!ck_TrivM(x, k)) return false; return true; }
TrivM c_make_TrivM(std::int32_t k) { TrivM x = mk_TrivM(k); note(ad_TrivM(x)); return x; }
TrivM c_try_TrivM(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); TrivM x = mk_TrivM(k); note(ad_TrivM(x)); return x; }
TrivM c_echo_TrivM(TrivM x, std::int32_t k) { note(ck_TrivM(x, k) ? ad_TrivM(x) : 1); return std::move(x); }
bool c_mix_TrivM(std::uint8_t a, TrivM x, double b, std::int32_t k, TrivM y, std::uint16_t c) { return a == 200 && ck_TrivM(x, k) && b == -1.5 && ck_TrivM(y, (k + 1) & 3) && c == 60000; }
TrivM S3::c_m_TrivM(TrivM x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_TrivM(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_TrivM(rust::Fn<TrivM(TrivM, std::int32_t)> f, std::int32_t k) { TrivM y = f(mk_TrivM(k), k); return ck_TrivM(y, k); }
std::int32_t c_run_TrivM(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { TrivM x = mk_TrivM(k); auto a = ad_TrivM(x); if (!r_take_TrivM(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { TrivM x = r_make_TrivM(k); return ck_TrivM(x, k) && (vk_addr_c09a == ad_TrivM(x)) ? 0 : 13; }
 case 2: { TrivM x = r_try_TrivM(k, false); return ck_TrivM(x, k) && (vk_addr_c09a == ad_TrivM(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_TrivM(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { TrivM x = mk_TrivM(k); auto a = ad_TrivM(x); TrivM y = r_echo_TrivM(std::move(x), k); return vk_addr_c09a == a && ad_TrivM(y) == a && ck_TrivM(y, k) ? 0 : 17; }
 case 5: { return r_mix_TrivM(200, mk_TrivM(k), -1.5, k, mk_TrivM((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; TrivM x = mk_TrivM(k); TrivM y = o.r_m_TrivM(std::move(x), k); return vk_addr_c09a == 0 && ck_TrivM(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_arr4_u8(std::array<std::uint8_t, 4> x, std::int32_t k) { note(ad_arr4_u8(x)); if (!ck_arr4_u8(x, k)) return false; return true; }
std::array<std::uint8_t, 4> c_make_arr4_u8(std::int32_t k) { std::array<std::uint8_t, 4> x = mk_arr4_u8(k); note(ad_arr4_u8(x)); return x; }
std::array<std::uint8_t, 4> c_try_arr4_u8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<std::uint8_t, 4> x = mk_arr4_u8(k); note(ad_arr4_u8(x)); return x; }
std::array<std::uint8_t, 4> c_echo_arr4_u8(std::array<std::uint8_t, 4> x, std::int32_t k) { note(ck_arr4_u8(x, k) ? ad_arr4_u8(x) : 1); return std::move(x); }
bool c_mix_arr4_u8(std::uint8_t a, std::array<std::uint8_t, 4> x, double b, std::int32_t k, std::array<std::uint8_t, 4> y, std::uint16_t c) { return a == 200 && ck_arr4_u8(x, k) && b == -1.5 && ck_arr4_u8(y, (k + 1) & 3) && c == 60000; }
std::array<std::uint8_t, 4> CObj::c_m_arr4_u8(std::array<std::uint8_t, 4> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_arr4_u8(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_arr4_u8(rust::Fn<std::array<std::uint8_t, 4>(std::array<std::uint8_t, 4>, std::int32_t)> f, std::int32_t k) { std::array<std::uint8_t, 4> y = f(mk_arr4_u8(k), k); return ck_arr4_u8(y, k); }
std::int32_t c_run_arr4_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<std::uint8_t, 4> x = mk_arr4_u8(k); auto a = ad_arr4_u8(x); if (!r_take_arr4_u8(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::array<std::uint8_t, 4> x = r_make_arr4_u8(k); return ck_arr4_u8(x, k) && (vk_addr_c09a == ad_arr4_u8(x)) ? 0 : 13; }
 case 2: { std::array<std::uint8_t, 4> x = r_try_arr4_u8(k, false); return ck_arr4_u8(x, k) && (vk_addr_c09a == ad_arr4_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_arr4_u8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<std::uint8_t, 4> x = mk_arr4_u8(k); auto a = ad_arr4_u8(x); std::array<std::uint8_t, 4> y = r_echo_arr4_u8(std::move(x), k); return vk_addr_c09a == a && ad_arr4_u8(y) == a && ck_arr4_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_arr4_u8(200, mk_arr4_u8(k), -1.5, k, mk_arr4_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::array<std::uint8_t, 4> x = mk_arr4_u8(k); std::array<std::uint8_t, 4> y = o.r_m_arr4_u8(std::move(x), k); return vk_addr_c09a == 0 && ck_arr4_u8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_arr1_u32(std::array<std::uint32_t, 1> x, std::int32_t k) { note(ad_arr1_u32(x)); if (!ck_arr1_u32(x, k)) return false; return true; }
std::array<std::uint32_t, 1> c_make_arr1_u32(std::int32_t k) { std::array<std::uint32_t, 1> x = mk_arr1_u32(k); note(ad_arr1_u32(x)); return x; }
std::array<std::uint32_t, 1> c_try_arr1_u32(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<std::uint32_t, 1> x = mk_arr1_u32(k); note(ad_arr1_u32(x)); return x; }
std::array<std::uint32_t, 1> c_echo_arr1_u32(std::array<std::uint32_t, 1> x, std::int32_t k) { note(ck_arr1_u32(x, k) ? ad_arr1_u32(x) : 1); return std::move(x); }
bool c_mix_arr1_u32(std::uint8_t a, std::array<std::uint32_t, 1> x, double b, std::int32_t k, std::array<std::uint32_t, 1> y, std::uint16_t c) { return a == 200 && ck_arr1_u32(x, k) && b == -1.5 && ck_arr1_u32(y, (k + 1) & 3) && c == 60000; }
std::array<std::uint32_t, 1> CObj::c_m_arr1_u32(std::array<std::uint32_t, 1> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_arr1_u32(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_arr1_u32(rust::Fn<std::array<std::uint32_t, 1>(std::array<std::uint32_t, 1>, std::int32_t)> f, std::int32_t k) { std::array<std::uint32_t, 1> y = f(mk_arr1_u32(k), k); return ck_arr1_u32(y, k); }
std::int32_t c_run_arr1_u32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<std::uint32_t, 1> x = mk_arr1_u32(k); auto a = ad_arr1_u32(x); if (!r_take_arr1_u32(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::array<std::uint32_t, 1> x = r_make_arr1_u32(k); return ck_arr1_u32(x, k) && (vk_addr_c09a == ad_arr1_u32(x)) ? 0 : 13; }
 case 2: { std::array<std::uint32_t, 1> x = r_try_arr1_u32(k, false); return ck_arr1_u32(x, k) && (vk_addr_c09a == ad_arr1_u32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_arr1_u32(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<std::uint32_t, 1> x = mk_arr1_u32(k); auto a = ad_arr1_u32(x); std::array<std::uint32_t, 1> y = r_echo_arr1_u32(std::move(x), k); return vk_addr_c09a == a && ad_arr1_u32(y) == a && ck_arr1_u32(y, k) ? 0 : 17; }
 case 5: { return r_mix_arr1_u32(200, mk_arr1_u32(k), -1.5, k, mk_arr1_u32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::array<std::uint32_t, 1> x = mk_arr1_u32(k); std::array<std::uint32_t, 1> y = o.r_m_arr1_u32(std::move(x), k); return vk_addr_c09a == 0 && ck_arr1_u32(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_arr2_String(std::array<rust::String, 2> x, std::int32_t k) { note(ad_arr2_String(x)); if (!ck_arr2_String(x, k)) return false; return true; }
std::array<rust::String, 2> c_make_arr2_String(std::int32_t k) { std::array<rust::String, 2> x = mk_arr2_String(k); note(ad_arr2_String(x)); return x; }
std::array<rust::String, 2> c_try_arr2_String(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<rust::String, 2> x = mk_arr2_String(k); note(ad_arr2_String(x)); return x; }
std::array<rust::String, 2> c_echo_arr2_String(std::array<rust::String, 2> x, std::int32_t k) { note(ck_arr2_String(x, k) ? ad_arr2_String(x) : 1); return std::move(x); }
bool c_mix_arr2_String(std::uint8_t a, std::array<rust::String, 2> x, double b, std::int32_t k, std::array<rust::String, 2> y, std::uint16_t c) { return a == 200 && ck_arr2_String(x, k) && b == -1.5 && ck_arr2_String(y, (k + 1) & 3) && c == 60000; }
std::array<rust::String, 2> S3::c_m_arr2_String(std::array<rust::String, 2> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_arr2_String(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_arr2_String(rust::Fn<std::array<rust::String, 2>(std::array<rust::String, 2>, std::int32_t)> f, std::int32_t k) { std::array<rust::String, 2> y = f(mk_arr2_String(k), k); return ck_arr2_String(y, k); }
std::int32_t c_run_arr2_String(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<rust::String, 2> x = mk_arr2_String(k); auto a = ad_arr2_String(x); if (!r_take_arr2_String(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::array<rust::String, 2> x = r_make_arr2_String(k); return ck_arr2_String(x, k) && (vk_addr_c09a == ad_arr2_String(x)) ? 0 : 13; }
 case 2: { std::array<rust::String, 2> x = r_try_arr2_String(k, false); return ck_arr2_String(x, k) && (vk_addr_c09a == ad_arr2_String(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_arr2_String(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<rust::String, 2> x = mk_arr2_String(k); auto a = ad_arr2_String(x); std::array<rust::String, 2> y = r_echo_arr2_String(std::move(x), k); return vk_addr_c09a == a && ad_arr2_String(y) == a && ck_arr2_String(y, k) ? 0 : 17; }
 case 5: { return r_mix_arr2_String(200, mk_arr2_String(k), -1.5, k, mk_arr2_String((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::array<rust::String, 2> x = mk_arr2_String(k); std::array<rust::String, 2> y = o.r_m_arr2_String(std::move(x), k); return vk_addr_c09a == 0 && ck_arr2_String(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_arr3_S2(std::array<S2, 3> x, std::int32_t k) { note(ad_arr3_S2(x)); if (!ck_arr3_S2(x, k)) return false; return true; }
std::array<S2, 3> c_make_arr3_S2(std::int32_t k) { std::array<S2, 3> x = mk_arr3_S2(k); note(ad_arr3_S2(x)); return x; }
std::array<S2, 3> c_try_arr3_S2(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<S2, 3> x = mk_arr3_S2(k); note(ad_arr3_S2(x)); return x; }
std::array<S2, 3> c_echo_arr3_S2(std::array<S2, 3> x, std::int32_t k) { note(ck_arr3_S2(x, k) ? ad_arr3_S2(x) : 1); return std::move(x); }
bool c_mix_arr3_S2(std::uint8_t a, std::array<S2, 3> x, double b, std::int32_t k, std::array<S2, 3> y, std::uint16_t c) { return a == 200 && ck_arr3_S2(x, k) && b == -1.5 && ck_arr3_S2(y, (k + 1) & 3) && c == 60000; }
std::array<S2, 3> S3::c_m_arr3_S2(std::array<S2, 3> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_arr3_S2(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_arr3_S2(rust::Fn<std::array<S2, 3>(std::array<S2, 3>, std::int32_t)> f, std::int32_t k) { std::array<S2, 3> y = f(mk_arr3_S2(k), k); return ck_arr3_S2(y, k); }
std::int32_t c_run_arr3_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<S2, 3> x = mk_arr3_S2(k); auto a = ad_arr3_S2(x); if (!r_take_arr3_S2(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::array<S2, 3> x = r_make_arr3_S2(k); return ck_arr3_S2(x, k) && (vk_addr_c09a == ad_arr3_S2(x)) ? 0 : 13; }
 case 2: { std::array<S2, 3> x = r_try_arr3_S2(k, false); return ck_arr3_S2(x, k) && (vk_addr_c09a == ad_arr3_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_arr3_S2(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<S2, 3> x = mk_arr3_S2(k); auto a = ad_arr3_S2(x); std::array<S2, 3> y = r_echo_arr3_S2(std::move(x), k); return vk_addr_c09a == a && ad_arr3_S2(y) == a && ck_arr3_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_arr3_S2(200, mk_arr3_S2(k), -1.5, k, mk_arr3_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::array<S2, 3> x = mk_arr3_S2(k); std::array<S2, 3> y = o.r_m_arr3_S2(std::move(x), k); return vk_addr_c09a == 0 && ck_arr3_S2(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> x, std::int32_t k) { note(ad_arr2_arr2_i32(x)); if (!ck_arr2_arr2_i32(x, k)) return false; return true; }
std::array<std::array<std::int32_t, 2>, 2> c_make_arr2_arr2_i32(std::int32_t k) { std::array<std::array<std::int32_t, 2>, 2> x = mk_arr2_arr2_i32(k); note(ad_arr2_arr2_i32(x)); return x; }
std::array<std::array<std::int32_t, 2>, 2> c_try_arr2_arr2_i32(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<std::array<std::int32_t, 2>, 2> x = mk_arr2_arr2_i32(k); note(ad_arr2_arr2_i32(x)); return x; }
std::array<std::array<std::int32_t, 2>, 2> c_echo_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> x, std::int32_t k) { note(ck_arr2_arr2_i32(x, k) ? ad_arr2_arr2_i32(x) : 1); return std::move(x); }
bool c_mix_arr2_arr2_i32(std::uint8_t a, std::array<std::array<std::int32_t, 2>, 2> x, double b, std::int32_t k, std::array<std::array<std::int32_t, 2>, 2> y, std::uint16_t c) { return a == 200 && ck_arr2_arr2_i32(x, k) && b == -1.5 && ck_arr2_arr2_i32(y, (k + 1) & 3) && c == 60000; }
std::array<std::array<std::int32_t, 2>, 2> CObj::c_m_arr2_arr2_i32(std::array<std::array<std::int32_t, 2>, 2> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_arr2_arr2_i32(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_arr2_arr2_i32(rust::Fn<std::array<std::array<std::int32_t, 2>, 2>(std::array<std::array<std::int32_t, 2>, 2>, std::int32_t)> f, std::int32_t k) { std::array<std::array<std::int32_t, 2>, 2> y = f(mk_arr2_arr2_i32(k), k); return ck_arr2_arr2_i32(y, k); }
std::int32_t c_run_arr2_arr2_i32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<std::array<std::int32_t, 2>, 2> x = mk_arr2_arr2_i32(k); auto a = ad_arr2_arr2_i32(x); if (!r_take_arr2_arr2_i32(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::array<std::array<std::int32_t, 2>, 2> x = r_make_arr2_arr2_i32(k); return ck_arr2_arr2_i32(x, k) && (vk_addr_c09a == ad_arr2_arr2_i32(x)) ? 0 : 13; }
 case 2: { std::array<std::array<std::int32_t, 2>, 2> x = r_try_arr2_arr2_i32(k, false); return ck_arr2_arr2_i32(x, k) && (vk_addr_c09a == ad_arr2_arr2_i32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_arr2_arr2_i32(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<std::array<std::int32_t, 2>, 2> x = mk_arr2_arr2_i32(k); auto a = ad_arr2_arr2_i32(x); std::array<std::array<std::int32_t, 2>, 2> y = r_echo_arr2_arr2_i32(std::move(x), k); return vk_addr_c09a == a && ad_arr2_arr2_i32(y) == a && ck_arr2_arr2_i32(y, k) ? 0 : 17; }
 case 5: { return r_mix_arr2_arr2_i32(200, mk_arr2_arr2_i32(k), -1.5, k, mk_arr2_arr2_i32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::array<std::array<std::int32_t, 2>, 2> x = mk_arr2_arr2_i32(k); std::array<std::array<std::int32_t, 2>, 2> y = o.r_m_arr2_arr2_i32(std::move(x), k); return vk_addr_c09a == 0 && ck_arr2_arr2_i32(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_arr2_Eu8(std::array<Eu8, 2> x, std::int32_t k) { note(ad_arr2_Eu8(x)); if (!ck_arr2_Eu8(x, k)) return false; return true; }
std::array<Eu8, 2> c_make_arr2_Eu8(std::int32_t k) { std::array<Eu8, 2> x = mk_arr2_Eu8(k); note(ad_arr2_Eu8(x)); return x; }
std::array<Eu8, 2> c_try_arr2_Eu8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<Eu8, 2> x = mk_arr2_Eu8(k); note(ad_arr2_Eu8(x)); return x; }
std::array<Eu8, 2> c_echo_arr2_Eu8(std::array<Eu8, 2> x, std::int32_t k) { note(ck_arr2_Eu8(x, k) ? ad_arr2_Eu8(x) : 1); return std::move(x); }
bool c_mix_arr2_Eu8(std::uint8_t a, std::array<Eu8, 2> x, double b, std::int32_t k, std::array<Eu8, 2> y, std::uint16_t c) { return a == 200 && ck_arr2_Eu8(x, k) && b == -1.5 && ck_arr2_Eu8(y, (k + 1) & 3) && c == 60000; }
std::array<Eu8, 2> CObj::c_m_arr2_Eu8(std::array<Eu8, 2> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_arr2_Eu8(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_arr2_Eu8(rust::Fn<std::array<Eu8, 2>(std::array<Eu8, 2>, std::int32_t)> f, std::int32_t k) { std::array<Eu8, 2> y = f(mk_arr2_Eu8(k), k); return ck_arr2_Eu8(y, k); }
std::int32_t c_run_arr2_Eu8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<Eu8, 2> x = mk_arr2_Eu8(k); auto a = ad_arr2_Eu8(x); if (!r_take_arr2_Eu8(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::array<Eu8, 2> x = r_make_arr2_Eu8(k); return ck_arr2_Eu8(x, k) && (vk_addr_c09a == ad_arr2_Eu8(x)) ? 0 : 13; }
 case 2: { std::array<Eu8, 2> x = r_try_arr2_Eu8(k, false); return ck_arr2_Eu8(x, k) && (vk_addr_c09a == ad_arr2_Eu8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_arr2_Eu8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<Eu8, 2> x = mk_arr2_Eu8(k); auto a = ad_arr2_Eu8(x); std::array<Eu8, 2> y = r_echo_arr2_Eu8(std::move(x), k); return vk_addr_c09a == a && ad_arr2_Eu8(y) == a && ck_arr2_Eu8(y, k) ? 0 : 17; }
 case 5: { return r_mix_arr2_Eu8(200, mk_arr2_Eu8(k), -1.5, k, mk_arr2_Eu8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::array<Eu8, 2> x = mk_arr2_Eu8(k); std::array<Eu8, 2> y = o.r_m_arr2_Eu8(std::move(x), k); return vk_addr_c09a == 0 && ck_arr2_Eu8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_arr2_f64(std::array<double, 2> x, std::int32_t k) { note(ad_arr2_f64(x)); if (!ck_arr2_f64(x, k)) return false; return true; }
std::array<double, 2> c_make_arr2_f64(std::int32_t k) { std::array<double, 2> x = mk_arr2_f64(k); note(ad_arr2_f64(x)); return x; }
std::array<double, 2> c_try_arr2_f64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<double, 2> x = mk_arr2_f64(k); note(ad_arr2_f64(x)); return x; }
std::array<double, 2> c_echo_arr2_f64(std::array<double, 2> x, std::int32_t k) { note(ck_arr2_f64(x, k) ? ad_arr2_f64(x) : 1); return std::move(x); }
bool c_mix_arr2_f64(std::uint8_t a, std::array<double, 2> x, double b, std::int32_t k, std::array<double, 2> y, std::uint16_t c) { return a == 200 && ck_arr2_f64(x, k) && b == -1.5 && ck_arr2_f64(y, (k + 1) & 3) && c == 60000; }
std::array<double, 2> S3::c_m_arr2_f64(std::array<double, 2> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_arr2_f64(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_arr2_f64(rust::Fn<std::array<double, 2>(std::array<double, 2>, std::int32_t)> f, std::int32_t k) { std::array<double, 2> y = f(mk_arr2_f64(k), k); return ck_arr2_f64(y, k); }
std::int32_t c_run_arr2_f64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<double, 2> x = mk_arr2_f64(k); auto a = ad_arr2_f64(x); if (!r_take_arr2_f64(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::array<double, 2> x = r_make_arr2_f64(k); return ck_arr2_f64(x, k) && (vk_addr_c09a == ad_arr2_f64(x)) ? 0 : 13; }
 case 2: { std::array<double, 2> x = r_try_arr2_f64(k, false); return ck_arr2_f64(x, k) && (vk_addr_c09a == ad_arr2_f64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_arr2_f64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<double, 2> x = mk_arr2_f64(k); auto a = ad_arr2_f64(x); std::array<double, 2> y = r_echo_arr2_f64(std::move(x), k); return vk_addr_c09a == a && ad_arr2_f64(y) == a && ck_arr2_f64(y, k) ? 0 : 17; }
 case 5: { return r_mix_arr2_f64(200, mk_arr2_f64(k), -1.5, k, mk_arr2_f64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::array<double, 2> x = mk_arr2_f64(k); std::array<double, 2> y = o.r_m_arr2_f64(std::move(x), k); return vk_addr_c09a == 0 && ck_arr2_f64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_arr9_bool(std::array<bool, 9> x, std::int32_t k) { note(ad_arr9_bool(x)); if (!ck_arr9_bool(x, k)) return false; return true; }
std::array<bool, 9> c_make_arr9_bool(std::int32_t k) { std::array<bool, 9> x = mk_arr9_bool(k); note(ad_arr9_bool(x)); return x; }
std::array<bool, 9> c_try_arr9_bool(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<bool, 9> x = mk_arr9_bool(k); note(ad_arr9_bool(x)); return x; }
std::array<bool, 9> c_echo_arr9_bool(std::array<bool, 9> x, std::int32_t k) { note(ck_arr9_bool(x, k) ? ad_arr9_bool(x) : 1); return std::move(x); }
bool c_mix_arr9_bool(std::uint8_t a, std::array<bool, 9> x, double b, std::int32_t k, std::array<bool, 9> y, std::uint16_t c) { return a == 200 && ck_arr9_bool(x, k) && b == -1.5 && ck_arr9_bool(y, (k + 1) & 3) && c == 60000; }
std::array<bool, 9> S3::c_m_arr9_bool(std::array<bool, 9> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_arr9_bool(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_arr9_bool(rust::Fn<std::array<bool, 9>(std::array<bool, 9>, std::int32_t)> f, std::int32_t k) { std::array<bool, 9> y = f(mk_arr9_bool(k), k); return ck_arr9_bool(y, k); }
std::int32_t c_run_arr9_bool(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<bool, 9> x = mk_arr9_bool(k); auto a = ad_arr9_bool(x); if (!r_take_arr9_bool(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::array<bool, 9> x = r_make_arr9_bool(k); return ck_arr9_bool(x, k) && (vk_addr_c09a == ad_arr9_bool(x)) ? 0 : 13; }
 case 2: { std::array<bool, 9> x = r_try_arr9_bool(k, false); return ck_arr9_bool(x, k) && (vk_addr_c09a == ad_arr9_bool(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_arr9_bool(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<bool, 9> x = mk_arr9_bool(k); auto a = ad_arr9_bool(x); std::array<bool, 9> y = r_echo_arr9_bool(std::move(x), k); return vk_addr_c09a == a && ad_arr9_bool(y) == a && ck_arr9_bool(y, k) ? 0 : 17; }
 case 5: { return r_mix_arr9_bool(200, mk_arr9_bool(k), -1.5, k, mk_arr9_bool((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::array<bool, 9> x = mk_arr9_bool(k); std::array<bool, 9> y = o.r_m_arr9_bool(std::move(x), k); return vk_addr_c09a == 0 && ck_arr9_bool(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) { note(ad_UniquePtr_CObj(x)); if (!ck_UniquePtr_CObj(x, k)) return false; return true; }
std::unique_ptr<CObj> c_make_UniquePtr_CObj(std::int32_t k) { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> c_try_UniquePtr_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> c_echo_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) { note(ck_UniquePtr_CObj(x, k) ? ad_UniquePtr_CObj(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> x, double b, std::int32_t k, std::unique_ptr<CObj> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CObj(x, k) && b == -1.5 && ck_UniquePtr_CObj(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<CObj> CObj::c_m_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_UniquePtr_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<CObj> y = f(mk_UniquePtr_CObj(k), k); return ck_UniquePtr_CObj(y, k); }
std::int32_t c_run_UniquePtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); auto a = ad_UniquePtr_CObj(x); if (!r_take_UniquePtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::unique_ptr<CObj> x = r_make_UniquePtr_CObj(k); return ck_UniquePtr_CObj(x, k) && (vk_addr_c09a == ad_UniquePtr_CObj(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<CObj> x = r_try_UniquePtr_CObj(k, false); return ck_UniquePtr_CObj(x, k) && (vk_addr_c09a == ad_UniquePtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); auto a = ad_UniquePtr_CObj(x); std::unique_ptr<CObj> y = r_echo_UniquePtr_CObj(std::move(x), k); return vk_addr_c09a == a && ad_UniquePtr_CObj(y) == a && ck_UniquePtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CObj(200, mk_UniquePtr_CObj(k), -1.5, k, mk_UniquePtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); std::unique_ptr<CObj> y = o.r_m_UniquePtr_CObj(std::move(x), k); return vk_addr_c09a == 0 && ck_UniquePtr_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ad_SharedPtr_CObj(x)); if (!ck_SharedPtr_CObj(x, k)) return false; return true; }
std::shared_ptr<CObj> c_make_SharedPtr_CObj(std::int32_t k) { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> c_try_SharedPtr_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> c_echo_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ck_SharedPtr_CObj(x, k) ? ad_SharedPtr_CObj(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> x, double b, std::int32_t k, std::shared_ptr<CObj> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_CObj(x, k) && b == -1.5 && ck_SharedPtr_CObj(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<CObj> CObj::c_m_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_SharedPtr_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<CObj> y = f(mk_SharedPtr_CObj(k), k); return ck_SharedPtr_CObj(y, k); }
std::int32_t c_run_SharedPtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); auto a = ad_SharedPtr_CObj(x); if (!r_take_SharedPtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::shared_ptr<CObj> x = r_make_SharedPtr_CObj(k); return ck_SharedPtr_CObj(x, k) && (vk_addr_c09a == ad_SharedPtr_CObj(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<CObj> x = r_try_SharedPtr_CObj(k, false); return ck_SharedPtr_CObj(x, k) && (vk_addr_c09a == ad_SharedPtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); auto a = ad_SharedPtr_CObj(x); std::shared_ptr<CObj> y = r_echo_SharedPtr_CObj(std::move(x), k); return vk_addr_c09a == a && ad_SharedPtr_CObj(y) == a && ck_SharedPtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_CObj(200, mk_SharedPtr_CObj(k), -1.5, k, mk_SharedPtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); std::shared_ptr<CObj> y = o.r_m_SharedPtr_CObj(std::move(x), k); return vk_addr_c09a == 0 && ck_SharedPtr_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k) { note(ad_UniquePtr_CxxString(x)); if (!ck_UniquePtr_CxxString(x, k)) return false; return true; }
std::unique_ptr<std::string> c_make_UniquePtr_CxxString(std::int32_t k) { std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); note(ad_UniquePtr_CxxString(x)); return x; }
std::unique_ptr<std::string> c_try_UniquePtr_CxxString(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); note(ad_UniquePtr_CxxString(x)); return x; }
std::unique_ptr<std::string> c_echo_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k) { note(ck_UniquePtr_CxxString(x, k) ? ad_UniquePtr_CxxString(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CxxString(std::uint8_t a, std::unique_ptr<std::string> x, double b, std::int32_t k, std::unique_ptr<std::string> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CxxString(x, k) && b == -1.5 && ck_UniquePtr_CxxString(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<std::string> S3::c_m_UniquePtr_CxxString(std::unique_ptr<std::string> x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_UniquePtr_CxxString(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CxxString(rust::Fn<std::unique_ptr<std::string>(std::unique_ptr<std::string>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<std::string> y = f(mk_UniquePtr_CxxString(k), k); return ck_UniquePtr_CxxString(y, k); }
std::int32_t c_run_UniquePtr_CxxString(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); auto a = ad_UniquePtr_CxxString(x); if (!r_take_UniquePtr_CxxString(std::move(x), k)) return 10; if (vk_addr_c09a != a) return 11; return 0; }
 case 1: { std::unique_ptr<std::string> x = r_make_UniquePtr_CxxString(k); return ck_UniquePtr_CxxString(x, k) && (vk_addr_c09a == ad_UniquePtr_CxxString(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<std::string> x = r_try_UniquePtr_CxxString(k, false); return ck_UniquePtr_CxxString(x, k) && (vk_addr_c09a == ad_UniquePtr_CxxString(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CxxString(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); auto a = ad_UniquePtr_CxxString(x); std::unique_ptr<std::string> y = r_echo_UniquePtr_CxxString(std::move(x), k); return vk_addr_c09a == a && ad_UniquePtr_CxxString(y) == a && ck_UniquePtr_CxxString(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CxxString(200, mk_UniquePtr_CxxString(k), -1.5, k, mk_UniquePtr_CxxString((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::unique_ptr<std::string> x = mk_UniquePtr_CxxString(k); std::unique_ptr<std::string> y = o.r_m_UniquePtr_CxxString(std::move(x), k); return vk_addr_c09a == 0 && ck_UniquePtr_CxxString(y, k) ? 0 : 19; }
 }
 return -1; }
}
