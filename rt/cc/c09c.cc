// Generated by gen_sig.py.
#include "rt/src/c09c.rs.h"
namespace c09c {
[[maybe_unused]] static float mk_f32(int k);
[[maybe_unused]] static bool ck_f32(float const & v, int k); [[maybe_unused]] static std::uintptr_t ad_f32(float const & v);
[[maybe_unused]] static S3 mk_S3(int k);
[[maybe_unused]] static bool ck_S3(S3 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S3(S3 const & v);
[[maybe_unused]] static std::uint8_t mk_u8(int k);
[[maybe_unused]] static bool ck_u8(std::uint8_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u8(std::uint8_t const & v);
[[maybe_unused]] static std::array<std::uint8_t, 4> mk_arr4_u8(int k);
[[maybe_unused]] static bool ck_arr4_u8(std::array<std::uint8_t, 4> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr4_u8(std::array<std::uint8_t, 4> const & v);
[[maybe_unused]] static std::array<std::uint8_t, 4> const & mk_ref_arr4_u8(int k);
[[maybe_unused]] static bool ck_ref_arr4_u8(std::array<std::uint8_t, 4> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ref_arr4_u8(std::array<std::uint8_t, 4> const & v);
[[maybe_unused]] static std::uint8_t & mk_mut_u8(int k);
[[maybe_unused]] static bool ck_mut_u8(std::uint8_t & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_u8(std::uint8_t & v);
[[maybe_unused]] static std::int64_t mk_i64(int k);
[[maybe_unused]] static bool ck_i64(std::int64_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i64(std::int64_t const & v);
[[maybe_unused]] static std::int64_t & mk_mut_i64(int k);
[[maybe_unused]] static bool ck_mut_i64(std::int64_t & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_i64(std::int64_t & v);
[[maybe_unused]] static float & mk_mut_f32(int k);
[[maybe_unused]] static bool ck_mut_f32(float & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_f32(float & v);
[[maybe_unused]] static bool mk_bool(int k);
[[maybe_unused]] static bool ck_bool(bool const & v, int k); [[maybe_unused]] static std::uintptr_t ad_bool(bool const & v);
[[maybe_unused]] static bool & mk_mut_bool(int k);
[[maybe_unused]] static bool ck_mut_bool(bool & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_bool(bool & v);
[[maybe_unused]] static rust::String mk_String(int k);
[[maybe_unused]] static bool ck_String(rust::String const & v, int k); [[maybe_unused]] static std::uintptr_t ad_String(rust::String const & v);
[[maybe_unused]] static rust::String & mk_mut_String(int k);
[[maybe_unused]] static bool ck_mut_String(rust::String & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_String(rust::String & v);
[[maybe_unused]] static S2 mk_S2(int k);
[[maybe_unused]] static bool ck_S2(S2 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S2(S2 const & v);
[[maybe_unused]] static S2 & mk_mut_S2(int k);
[[maybe_unused]] static bool ck_mut_S2(S2 & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_S2(S2 & v);
[[maybe_unused]] static S7 mk_S7(int k);
[[maybe_unused]] static bool ck_S7(S7 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_S7(S7 const & v);
[[maybe_unused]] static S7 & mk_mut_S7(int k);
[[maybe_unused]] static bool ck_mut_S7(S7 & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_S7(S7 & v);
[[maybe_unused]] static bool ck_RObj(RObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_RObj(RObj const & v);
[[maybe_unused]] static RObj & mk_mut_RObj(int k);
[[maybe_unused]] static bool ck_mut_RObj(RObj & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_RObj(RObj & v);
[[maybe_unused]] static CObj mk_CObj(int k);
[[maybe_unused]] static bool ck_CObj(CObj const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CObj(CObj const & v);
[[maybe_unused]] static CObj & mk_mut_CObj(int k);
[[maybe_unused]] static bool ck_mut_CObj(CObj & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_CObj(CObj & v);
[[maybe_unused]] static std::string mk_CxxString(int k);
[[maybe_unused]] static bool ck_CxxString(std::string const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxString(std::string const & v);
[[maybe_unused]] static std::string & mk_mut_CxxString(int k);
[[maybe_unused]] static bool ck_mut_CxxString(std::string & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_CxxString(std::string & v);
[[maybe_unused]] static std::vector<std::uint8_t> mk_CxxVector_u8(int k);
[[maybe_unused]] static bool ck_CxxVector_u8(std::vector<std::uint8_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxVector_u8(std::vector<std::uint8_t> const & v);
[[maybe_unused]] static std::vector<std::uint8_t> & mk_mut_CxxVector_u8(int k);
[[maybe_unused]] static bool ck_mut_CxxVector_u8(std::vector<std::uint8_t> & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_CxxVector_u8(std::vector<std::uint8_t> & v);
[[maybe_unused]] static std::vector<S2> mk_CxxVector_S2(int k);
[[maybe_unused]] static bool ck_CxxVector_S2(std::vector<S2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_CxxVector_S2(std::vector<S2> const & v);
[[maybe_unused]] static std::vector<S2> & mk_mut_CxxVector_S2(int k);
[[maybe_unused]] static bool ck_mut_CxxVector_S2(std::vector<S2> & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_CxxVector_S2(std::vector<S2> & v);
[[maybe_unused]] static rust::Vec<std::uint8_t> mk_Vec_u8(int k);
[[maybe_unused]] static bool ck_Vec_u8(rust::Vec<std::uint8_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_u8(rust::Vec<std::uint8_t> const & v);
[[maybe_unused]] static rust::Vec<std::uint8_t> & mk_mut_Vec_u8(int k);
[[maybe_unused]] static bool ck_mut_Vec_u8(rust::Vec<std::uint8_t> & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_Vec_u8(rust::Vec<std::uint8_t> & v);
[[maybe_unused]] static rust::Vec<rust::String> mk_Vec_String(int k);
[[maybe_unused]] static bool ck_Vec_String(rust::Vec<rust::String> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Vec_String(rust::Vec<rust::String> const & v);
[[maybe_unused]] static rust::Vec<rust::String> & mk_mut_Vec_String(int k);
[[maybe_unused]] static bool ck_mut_Vec_String(rust::Vec<rust::String> & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_Vec_String(rust::Vec<rust::String> & v);
[[maybe_unused]] static rust::Box<RObj> mk_Box_RObj(int k);
[[maybe_unused]] static bool ck_Box_RObj(rust::Box<RObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Box_RObj(rust::Box<RObj> const & v);
[[maybe_unused]] static rust::Box<RObj> & mk_mut_Box_RObj(int k);
[[maybe_unused]] static bool ck_mut_Box_RObj(rust::Box<RObj> & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_Box_RObj(rust::Box<RObj> & v);
[[maybe_unused]] static std::unique_ptr<CObj> mk_UniquePtr_CObj(int k);
[[maybe_unused]] static bool ck_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_UniquePtr_CObj(std::unique_ptr<CObj> const & v);
[[maybe_unused]] static std::unique_ptr<CObj> & mk_mut_UniquePtr_CObj(int k);
[[maybe_unused]] static bool ck_mut_UniquePtr_CObj(std::unique_ptr<CObj> & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_UniquePtr_CObj(std::unique_ptr<CObj> & v);
[[maybe_unused]] static std::shared_ptr<CObj> mk_SharedPtr_CObj(int k);
[[maybe_unused]] static bool ck_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_SharedPtr_CObj(std::shared_ptr<CObj> const & v);
[[maybe_unused]] static std::shared_ptr<CObj> & mk_mut_SharedPtr_CObj(int k);
[[maybe_unused]] static bool ck_mut_SharedPtr_CObj(std::shared_ptr<CObj> & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_SharedPtr_CObj(std::shared_ptr<CObj> & v);
[[maybe_unused]] static Ei32 mk_Ei32(int k);
[[maybe_unused]] static bool ck_Ei32(Ei32 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Ei32(Ei32 const & v);
[[maybe_unused]] static Ei32 & mk_mut_Ei32(int k);
[[maybe_unused]] static bool ck_mut_Ei32(Ei32 & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_Ei32(Ei32 & v);
[[maybe_unused]] static double mk_f64(int k);
[[maybe_unused]] static bool ck_f64(double const & v, int k); [[maybe_unused]] static std::uintptr_t ad_f64(double const & v);
[[maybe_unused]] static TrivB mk_TrivB(int k);
[[maybe_unused]] static bool ck_TrivB(TrivB const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivB(TrivB const & v);
[[maybe_unused]] static TrivB & mk_mut_TrivB(int k);
[[maybe_unused]] static bool ck_mut_TrivB(TrivB & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_TrivB(TrivB & v);
[[maybe_unused]] static std::array<S2, 3> mk_arr3_S2(int k);
[[maybe_unused]] static bool ck_arr3_S2(std::array<S2, 3> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_arr3_S2(std::array<S2, 3> const & v);
[[maybe_unused]] static std::array<S2, 3> & mk_mut_arr3_S2(int k);
[[maybe_unused]] static bool ck_mut_arr3_S2(std::array<S2, 3> & v, int k); [[maybe_unused]] static std::uintptr_t ad_mut_arr3_S2(std::array<S2, 3> & v);
[[maybe_unused]] static rust::Slice<const std::uint8_t> mk_sl_u8(int k);
[[maybe_unused]] static bool ck_sl_u8(rust::Slice<const std::uint8_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_u8(rust::Slice<const std::uint8_t> const & v);
[[maybe_unused]] static std::uint16_t mk_u16(int k);
[[maybe_unused]] static bool ck_u16(std::uint16_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u16(std::uint16_t const & v);
[[maybe_unused]] static rust::Slice<const std::uint16_t> mk_sl_u16(int k);
[[maybe_unused]] static bool ck_sl_u16(rust::Slice<const std::uint16_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_u16(rust::Slice<const std::uint16_t> const & v);
[[maybe_unused]] static std::int32_t mk_i32(int k);
[[maybe_unused]] static bool ck_i32(std::int32_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_i32(std::int32_t const & v);
[[maybe_unused]] static rust::Slice<const std::int32_t> mk_sl_i32(int k);
[[maybe_unused]] static bool ck_sl_i32(rust::Slice<const std::int32_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_i32(rust::Slice<const std::int32_t> const & v);
[[maybe_unused]] static rust::Slice<const double> mk_sl_f64(int k);
[[maybe_unused]] static bool ck_sl_f64(rust::Slice<const double> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_f64(rust::Slice<const double> const & v);
[[maybe_unused]] static rust::Slice<const bool> mk_sl_bool(int k);
[[maybe_unused]] static bool ck_sl_bool(rust::Slice<const bool> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_bool(rust::Slice<const bool> const & v);
[[maybe_unused]] static std::size_t mk_usize(int k);
[[maybe_unused]] static bool ck_usize(std::size_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_usize(std::size_t const & v);
[[maybe_unused]] static rust::Slice<const std::size_t> mk_sl_usize(int k);
[[maybe_unused]] static bool ck_sl_usize(rust::Slice<const std::size_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_usize(rust::Slice<const std::size_t> const & v);
[[maybe_unused]] static char mk_c_char(int k);
[[maybe_unused]] static bool ck_c_char(char const & v, int k); [[maybe_unused]] static std::uintptr_t ad_c_char(char const & v);
[[maybe_unused]] static rust::Slice<const char> mk_sl_c_char(int k);
[[maybe_unused]] static bool ck_sl_c_char(rust::Slice<const char> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_c_char(rust::Slice<const char> const & v);
[[maybe_unused]] static rust::Slice<const rust::String> mk_sl_String(int k);
[[maybe_unused]] static bool ck_sl_String(rust::Slice<const rust::String> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_String(rust::Slice<const rust::String> const & v);
[[maybe_unused]] static rust::Slice<const S2> mk_sl_S2(int k);
[[maybe_unused]] static bool ck_sl_S2(rust::Slice<const S2> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_S2(rust::Slice<const S2> const & v);
[[maybe_unused]] static rust::Slice<const S7> mk_sl_S7(int k);
[[maybe_unused]] static bool ck_sl_S7(rust::Slice<const S7> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_S7(rust::Slice<const S7> const & v);
[[maybe_unused]] static Ei8 mk_Ei8(int k);
[[maybe_unused]] static bool ck_Ei8(Ei8 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Ei8(Ei8 const & v);
[[maybe_unused]] static rust::Slice<const Ei8> mk_sl_Ei8(int k);
[[maybe_unused]] static bool ck_sl_Ei8(rust::Slice<const Ei8> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_Ei8(rust::Slice<const Ei8> const & v);
[[maybe_unused]] static TrivA mk_TrivA(int k);
[[maybe_unused]] static bool ck_TrivA(TrivA const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivA(TrivA const & v);
[[maybe_unused]] static rust::Slice<const TrivA> mk_sl_TrivA(int k);
[[maybe_unused]] static bool ck_sl_TrivA(rust::Slice<const TrivA> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_TrivA(rust::Slice<const TrivA> const & v);
[[maybe_unused]] static rust::Slice<const RObj> mk_sl_RObj(int k);
[[maybe_unused]] static bool ck_sl_RObj(rust::Slice<const RObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_RObj(rust::Slice<const RObj> const & v);
[[maybe_unused]] static rust::Slice<const rust::Box<RObj>> mk_sl_Box_RObj(int k);
[[maybe_unused]] static bool ck_sl_Box_RObj(rust::Slice<const rust::Box<RObj>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_Box_RObj(rust::Slice<const rust::Box<RObj>> const & v);
[[maybe_unused]] static rust::Slice<const std::unique_ptr<CObj>> mk_sl_UniquePtr_CObj(int k);
[[maybe_unused]] static bool ck_sl_UniquePtr_CObj(rust::Slice<const std::unique_ptr<CObj>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_UniquePtr_CObj(rust::Slice<const std::unique_ptr<CObj>> const & v);
[[maybe_unused]] static rust::Slice<const rust::Vec<std::uint8_t>> mk_sl_Vec_u8(int k);
[[maybe_unused]] static bool ck_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> const & v);
[[maybe_unused]] static rust::Slice<const float> mk_sl_f32(int k);
[[maybe_unused]] static bool ck_sl_f32(rust::Slice<const float> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_f32(rust::Slice<const float> const & v);
[[maybe_unused]] static rust::isize mk_isize(int k);
[[maybe_unused]] static bool ck_isize(rust::isize const & v, int k); [[maybe_unused]] static std::uintptr_t ad_isize(rust::isize const & v);
[[maybe_unused]] static rust::Slice<const rust::isize> mk_sl_isize(int k);
[[maybe_unused]] static bool ck_sl_isize(rust::Slice<const rust::isize> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_isize(rust::Slice<const rust::isize> const & v);
[[maybe_unused]] static rust::Slice<const std::array<std::uint8_t, 4>> mk_sl_arr4_u8(int k);
[[maybe_unused]] static bool ck_sl_arr4_u8(rust::Slice<const std::array<std::uint8_t, 4>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_sl_arr4_u8(rust::Slice<const std::array<std::uint8_t, 4>> const & v);
[[maybe_unused]] static rust::Slice<std::uint8_t> mk_slm_u8(int k);
[[maybe_unused]] static bool ck_slm_u8(rust::Slice<std::uint8_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_u8(rust::Slice<std::uint8_t> const & v);
[[maybe_unused]] static rust::Slice<std::int64_t> mk_slm_i64(int k);
[[maybe_unused]] static bool ck_slm_i64(rust::Slice<std::int64_t> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_i64(rust::Slice<std::int64_t> const & v);
[[maybe_unused]] static rust::Slice<float> mk_slm_f32(int k);
[[maybe_unused]] static bool ck_slm_f32(rust::Slice<float> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_f32(rust::Slice<float> const & v);
[[maybe_unused]] static rust::Slice<rust::String> mk_slm_String(int k);
[[maybe_unused]] static bool ck_slm_String(rust::Slice<rust::String> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_String(rust::Slice<rust::String> const & v);
[[maybe_unused]] static rust::Slice<S7> mk_slm_S7(int k);
[[maybe_unused]] static bool ck_slm_S7(rust::Slice<S7> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_S7(rust::Slice<S7> const & v);
[[maybe_unused]] static rust::Slice<RObj> mk_slm_RObj(int k);
[[maybe_unused]] static bool ck_slm_RObj(rust::Slice<RObj> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_RObj(rust::Slice<RObj> const & v);
[[maybe_unused]] static rust::Slice<char> mk_slm_c_char(int k);
[[maybe_unused]] static bool ck_slm_c_char(rust::Slice<char> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_c_char(rust::Slice<char> const & v);
[[maybe_unused]] static Eu16 mk_Eu16(int k);
[[maybe_unused]] static bool ck_Eu16(Eu16 const & v, int k); [[maybe_unused]] static std::uintptr_t ad_Eu16(Eu16 const & v);
[[maybe_unused]] static rust::Slice<Eu16> mk_slm_Eu16(int k);
[[maybe_unused]] static bool ck_slm_Eu16(rust::Slice<Eu16> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_Eu16(rust::Slice<Eu16> const & v);
[[maybe_unused]] static std::uint64_t mk_u64(int k);
[[maybe_unused]] static bool ck_u64(std::uint64_t const & v, int k); [[maybe_unused]] static std::uintptr_t ad_u64(std::uint64_t const & v);
[[maybe_unused]] static TrivC mk_TrivC(int k);
[[maybe_unused]] static bool ck_TrivC(TrivC const & v, int k); [[maybe_unused]] static std::uintptr_t ad_TrivC(TrivC const & v);
[[maybe_unused]] static rust::Slice<TrivC> mk_slm_TrivC(int k);
[[maybe_unused]] static bool ck_slm_TrivC(rust::Slice<TrivC> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_TrivC(rust::Slice<TrivC> const & v);
[[maybe_unused]] static rust::Slice<rust::Box<RObj>> mk_slm_Box_RObj(int k);
[[maybe_unused]] static bool ck_slm_Box_RObj(rust::Slice<rust::Box<RObj>> const & v, int k); [[maybe_unused]] static std::uintptr_t ad_slm_Box_RObj(rust::Slice<rust::Box<RObj>> const & v);
[[maybe_unused]] static std::uint8_t const * mk_ptrconst_u8(int k);
[[maybe_unused]] static bool ck_ptrconst_u8(std::uint8_t const * const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ptrconst_u8(std::uint8_t const * const & v);
[[maybe_unused]] static std::uint64_t * mk_ptrmut_u64(int k);
[[maybe_unused]] static bool ck_ptrmut_u64(std::uint64_t * const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ptrmut_u64(std::uint64_t * const & v);
[[maybe_unused]] static S2 const * mk_ptrconst_S2(int k);
[[maybe_unused]] static bool ck_ptrconst_S2(S2 const * const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ptrconst_S2(S2 const * const & v);
[[maybe_unused]] static S7 * mk_ptrmut_S7(int k);
[[maybe_unused]] static bool ck_ptrmut_S7(S7 * const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ptrmut_S7(S7 * const & v);
[[maybe_unused]] static CObj * mk_ptrmut_CObj(int k);
[[maybe_unused]] static bool ck_ptrmut_CObj(CObj * const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ptrmut_CObj(CObj * const & v);
[[maybe_unused]] static CObj const * mk_ptrconst_CObj(int k);
[[maybe_unused]] static bool ck_ptrconst_CObj(CObj const * const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ptrconst_CObj(CObj const * const & v);
[[maybe_unused]] static RObj const * mk_ptrconst_RObj(int k);
[[maybe_unused]] static bool ck_ptrconst_RObj(RObj const * const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ptrconst_RObj(RObj const * const & v);
[[maybe_unused]] static RObj * mk_ptrmut_RObj(int k);
[[maybe_unused]] static bool ck_ptrmut_RObj(RObj * const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ptrmut_RObj(RObj * const & v);
[[maybe_unused]] static std::string const * mk_ptrconst_CxxString(int k);
[[maybe_unused]] static bool ck_ptrconst_CxxString(std::string const * const & v, int k); [[maybe_unused]] static std::uintptr_t ad_ptrconst_CxxString(std::string const * const & v);
[[maybe_unused]] static std::array<std::uint8_t, 4> &cs_arr4_u8(int k); [[maybe_unused]] static std::array<std::uint8_t, 4> &cp_arr4_u8(int k);
[[maybe_unused]] static std::uint8_t &cs_u8(int k); [[maybe_unused]] static std::uint8_t &cp_u8(int k);
[[maybe_unused]] static std::int64_t &cs_i64(int k); [[maybe_unused]] static std::int64_t &cp_i64(int k);
[[maybe_unused]] static float &cs_f32(int k); [[maybe_unused]] static float &cp_f32(int k);
[[maybe_unused]] static bool &cs_bool(int k); [[maybe_unused]] static bool &cp_bool(int k);
[[maybe_unused]] static rust::String &cs_String(int k); [[maybe_unused]] static rust::String &cp_String(int k);
[[maybe_unused]] static S2 &cs_S2(int k); [[maybe_unused]] static S2 &cp_S2(int k);
[[maybe_unused]] static S7 &cs_S7(int k); [[maybe_unused]] static S7 &cp_S7(int k);
[[maybe_unused]] static RObj &cs_RObj(int k); [[maybe_unused]] static RObj &cp_RObj(int k);
[[maybe_unused]] static CObj &cs_CObj(int k); [[maybe_unused]] static CObj &cp_CObj(int k);
[[maybe_unused]] static std::string &cs_CxxString(int k); [[maybe_unused]] static std::string &cp_CxxString(int k);
[[maybe_unused]] static std::vector<std::uint8_t> &cs_CxxVector_u8(int k); [[maybe_unused]] static std::vector<std::uint8_t> &cp_CxxVector_u8(int k);
[[maybe_unused]] static std::vector<S2> &cs_CxxVector_S2(int k); [[maybe_unused]] static std::vector<S2> &cp_CxxVector_S2(int k);
[[maybe_unused]] static rust::Vec<std::uint8_t> &cs_Vec_u8(int k); [[maybe_unused]] static rust::Vec<std::uint8_t> &cp_Vec_u8(int k);
[[maybe_unused]] static rust::Vec<rust::String> &cs_Vec_String(int k); [[maybe_unused]] static rust::Vec<rust::String> &cp_Vec_String(int k);
[[maybe_unused]] static rust::Box<RObj> &cs_Box_RObj(int k); [[maybe_unused]] static rust::Box<RObj> &cp_Box_RObj(int k);
[[maybe_unused]] static std::unique_ptr<CObj> &cs_UniquePtr_CObj(int k); [[maybe_unused]] static std::unique_ptr<CObj> &cp_UniquePtr_CObj(int k);
[[maybe_unused]] static std::shared_ptr<CObj> &cs_SharedPtr_CObj(int k); [[maybe_unused]] static std::shared_ptr<CObj> &cp_SharedPtr_CObj(int k);
[[maybe_unused]] static Ei32 &cs_Ei32(int k); [[maybe_unused]] static Ei32 &cp_Ei32(int k);
[[maybe_unused]] static TrivB &cs_TrivB(int k); [[maybe_unused]] static TrivB &cp_TrivB(int k);
[[maybe_unused]] static std::array<S2, 3> &cs_arr3_S2(int k); [[maybe_unused]] static std::array<S2, 3> &cp_arr3_S2(int k);
[[maybe_unused]] static std::uint64_t &cs_u64(int k); [[maybe_unused]] static std::uint64_t &cp_u64(int k);
[[maybe_unused]] static std::uint8_t *cs_sl_u8(int k); [[maybe_unused]] static std::uint8_t *cp_sl_u8(int k);
[[maybe_unused]] static std::uint16_t *cs_sl_u16(int k); [[maybe_unused]] static std::uint16_t *cp_sl_u16(int k);
[[maybe_unused]] static std::int32_t *cs_sl_i32(int k); [[maybe_unused]] static std::int32_t *cp_sl_i32(int k);
[[maybe_unused]] static double *cs_sl_f64(int k); [[maybe_unused]] static double *cp_sl_f64(int k);
[[maybe_unused]] static bool *cs_sl_bool(int k); [[maybe_unused]] static bool *cp_sl_bool(int k);
[[maybe_unused]] static std::size_t *cs_sl_usize(int k); [[maybe_unused]] static std::size_t *cp_sl_usize(int k);
[[maybe_unused]] static char *cs_sl_c_char(int k); [[maybe_unused]] static char *cp_sl_c_char(int k);
[[maybe_unused]] static rust::String *cs_sl_String(int k); [[maybe_unused]] static rust::String *cp_sl_String(int k);
[[maybe_unused]] static S2 *cs_sl_S2(int k); [[maybe_unused]] static S2 *cp_sl_S2(int k);
[[maybe_unused]] static S7 *cs_sl_S7(int k); [[maybe_unused]] static S7 *cp_sl_S7(int k);
[[maybe_unused]] static Ei8 *cs_sl_Ei8(int k); [[maybe_unused]] static Ei8 *cp_sl_Ei8(int k);
[[maybe_unused]] static TrivA *cs_sl_TrivA(int k); [[maybe_unused]] static TrivA *cp_sl_TrivA(int k);
[[maybe_unused]] static RObj *cs_sl_RObj(int k); [[maybe_unused]] static RObj *cp_sl_RObj(int k);
[[maybe_unused]] static rust::Box<RObj> *cs_sl_Box_RObj(int k); [[maybe_unused]] static rust::Box<RObj> *cp_sl_Box_RObj(int k);
[[maybe_unused]] static std::unique_ptr<CObj> *cs_sl_UniquePtr_CObj(int k); [[maybe_unused]] static std::unique_ptr<CObj> *cp_sl_UniquePtr_CObj(int k);
[[maybe_unused]] static rust::Vec<std::uint8_t> *cs_sl_Vec_u8(int k); [[maybe_unused]] static rust::Vec<std::uint8_t> *cp_sl_Vec_u8(int k);
[[maybe_unused]] static float *cs_sl_f32(int k); [[maybe_unused]] static float *cp_sl_f32(int k);
[[maybe_unused]] static rust::isize *cs_sl_isize(int k); [[maybe_unused]] static rust::isize *cp_sl_isize(int k);
[[maybe_unused]] static std::array<std::uint8_t, 4> *cs_sl_arr4_u8(int k); [[maybe_unused]] static std::array<std::uint8_t, 4> *cp_sl_arr4_u8(int k);
[[maybe_unused]] static std::int64_t *cs_sl_i64(int k); [[maybe_unused]] static std::int64_t *cp_sl_i64(int k);
[[maybe_unused]] static Eu16 *cs_sl_Eu16(int k); [[maybe_unused]] static Eu16 *cp_sl_Eu16(int k);
[[maybe_unused]] static TrivC *cs_sl_TrivC(int k); [[maybe_unused]] static TrivC *cp_sl_TrivC(int k);
static float mk_f32(int k) { std::uint32_t t[4] = {0x80000000, 0x7f800000, 0x3fc00000, 0x7fc00001}; float r; std::memcpy(&r, &t[k], sizeof r); return r; }
static bool ck_f32(float const & v, int k) { (void)k; return [&]{ auto w = mk_f32(k); return std::memcmp(&v, &w, sizeof w) == 0; }(); }
static std::uintptr_t ad_f32(float const & v) { (void)v; return 0; }
static S3 mk_S3(int k) { return S3{mk_f32((k + 0) & 3), mk_f32((k + 1) & 3)}; }
static bool ck_S3(S3 const & v, int k) { (void)k; return ck_f32(v.f0, (k + 0) & 3) && ck_f32(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S3(S3 const & v) { (void)v; return 0; }
static std::uint8_t mk_u8(int k) { std::uint8_t t[4] = {0, 1, 128, 255}; return t[k]; }
static bool ck_u8(std::uint8_t const & v, int k) { (void)k; return v == mk_u8(k); }
static std::uintptr_t ad_u8(std::uint8_t const & v) { (void)v; return 0; }
static std::array<std::uint8_t, 4> mk_arr4_u8(int k) { return std::array<std::uint8_t, 4>{{mk_u8((k + 0) & 3), mk_u8((k + 1) & 3), mk_u8((k + 2) & 3), mk_u8((k + 3) & 3)}}; }
static bool ck_arr4_u8(std::array<std::uint8_t, 4> const & v, int k) { (void)k; return ck_u8(v[0], (k + 0) & 3) && ck_u8(v[1], (k + 1) & 3) && ck_u8(v[2], (k + 2) & 3) && ck_u8(v[3], (k + 3) & 3); }
static std::uintptr_t ad_arr4_u8(std::array<std::uint8_t, 4> const & v) { (void)v; return 0; }
static std::array<std::uint8_t, 4> const & mk_ref_arr4_u8(int k) { return cs_arr4_u8(k); }
static bool ck_ref_arr4_u8(std::array<std::uint8_t, 4> const & v, int k) { (void)k; return ck_arr4_u8(v, k); }
static std::uintptr_t ad_ref_arr4_u8(std::array<std::uint8_t, 4> const & v) { (void)v; return std::uintptr_t(&v); }
static std::uint8_t & mk_mut_u8(int k) { return cs_u8(k); }
static bool ck_mut_u8(std::uint8_t & v, int k) { (void)k; return ck_u8(v, k); }
static std::uintptr_t ad_mut_u8(std::uint8_t & v) { (void)v; return std::uintptr_t(&v); }
static std::int64_t mk_i64(int k) { std::int64_t t[4] = {0, 1, INT64_MIN, 9223372036854775807ll}; return t[k]; }
static bool ck_i64(std::int64_t const & v, int k) { (void)k; return v == mk_i64(k); }
static std::uintptr_t ad_i64(std::int64_t const & v) { (void)v; return 0; }
static std::int64_t & mk_mut_i64(int k) { return cs_i64(k); }
static bool ck_mut_i64(std::int64_t & v, int k) { (void)k; return ck_i64(v, k); }
static std::uintptr_t ad_mut_i64(std::int64_t & v) { (void)v; return std::uintptr_t(&v); }
static float & mk_mut_f32(int k) { return cs_f32(k); }
static bool ck_mut_f32(float & v, int k) { (void)k; return ck_f32(v, k); }
static std::uintptr_t ad_mut_f32(float & v) { (void)v; return std::uintptr_t(&v); }
static bool mk_bool(int k) { return k & 1; }
static bool ck_bool(bool const & v, int k) { (void)k; return v == bool(k & 1); }
static std::uintptr_t ad_bool(bool const & v) { (void)v; return 0; }
static bool & mk_mut_bool(int k) { return cs_bool(k); }
static bool ck_mut_bool(bool & v, int k) { (void)k; return ck_bool(v, k); }
static std::uintptr_t ad_mut_bool(bool & v) { (void)v; return std::uintptr_t(&v); }
static rust::String mk_String(int k) { return rust::String(TXT[k]); }
static bool ck_String(rust::String const & v, int k) { (void)k; return std::string(v) == TXT[k]; }
static std::uintptr_t ad_String(rust::String const & v) { (void)v; return 0; }
static rust::String & mk_mut_String(int k) { return cs_String(k); }
static bool ck_mut_String(rust::String & v, int k) { (void)k; return ck_String(v, k); }
static std::uintptr_t ad_mut_String(rust::String & v) { (void)v; return std::uintptr_t(&v); }
static S2 mk_S2(int k) { return S2{mk_u8((k + 0) & 3), mk_u8((k + 1) & 3)}; }
static bool ck_S2(S2 const & v, int k) { (void)k; return ck_u8(v.f0, (k + 0) & 3) && ck_u8(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_S2(S2 const & v) { (void)v; return 0; }
static S2 & mk_mut_S2(int k) { return cs_S2(k); }
static bool ck_mut_S2(S2 & v, int k) { (void)k; return ck_S2(v, k); }
static std::uintptr_t ad_mut_S2(S2 & v) { (void)v; return std::uintptr_t(&v); }
static S7 mk_S7(int k) { return S7{mk_String((k + 0) & 3)}; }
static bool ck_S7(S7 const & v, int k) { (void)k; return ck_String(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_S7(S7 const & v) { (void)v; return 0; }
static S7 & mk_mut_S7(int k) { return cs_S7(k); }
static bool ck_mut_S7(S7 & v, int k) { (void)k; return ck_S7(v, k); }
static std::uintptr_t ad_mut_S7(S7 & v) { (void)v; return std::uintptr_t(&v); }
static bool ck_RObj(RObj const & v, int k) { (void)k; return v.r_tag() == k; }
static std::uintptr_t ad_RObj(RObj const & v) { (void)v; return 0; }
static RObj & mk_mut_RObj(int k) { return cs_RObj(k); }
static bool ck_mut_RObj(RObj & v, int k) { (void)k; return ck_RObj(v, k); }
static std::uintptr_t ad_mut_RObj(RObj & v) { (void)v; return std::uintptr_t(&v); }
static CObj mk_CObj(int k) { return CObj(k); }
static bool ck_CObj(CObj const & v, int k) { (void)k; return v.c_tag() == k; }
static std::uintptr_t ad_CObj(CObj const & v) { (void)v; return 0; }
static CObj & mk_mut_CObj(int k) { return cs_CObj(k); }
static bool ck_mut_CObj(CObj & v, int k) { (void)k; return ck_CObj(v, k); }
static std::uintptr_t ad_mut_CObj(CObj & v) { (void)v; return std::uintptr_t(&v); }
static std::string mk_CxxString(int k) { return TXT[k]; }
static bool ck_CxxString(std::string const & v, int k) { (void)k; return v == TXT[k]; }
static std::uintptr_t ad_CxxString(std::string const & v) { (void)v; return 0; }
static std::string & mk_mut_CxxString(int k) { return cs_CxxString(k); }
static bool ck_mut_CxxString(std::string & v, int k) { (void)k; return ck_CxxString(v, k); }
static std::uintptr_t ad_mut_CxxString(std::string & v) { (void)v; return std::uintptr_t(&v); }
static std::vector<std::uint8_t> mk_CxxVector_u8(int k) { std::vector<std::uint8_t> v; for (int i = 0; i < k; i++) v.push_back(mk_u8((k + i) & 3)); return v; }
static bool ck_CxxVector_u8(std::vector<std::uint8_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_CxxVector_u8(std::vector<std::uint8_t> const & v) { (void)v; return 0; }
static std::vector<std::uint8_t> & mk_mut_CxxVector_u8(int k) { return cs_CxxVector_u8(k); }
static bool ck_mut_CxxVector_u8(std::vector<std::uint8_t> & v, int k) { (void)k; return ck_CxxVector_u8(v, k); }
static std::uintptr_t ad_mut_CxxVector_u8(std::vector<std::uint8_t> & v) { (void)v; return std::uintptr_t(&v); }
static std::vector<S2> mk_CxxVector_S2(int k) { std::vector<S2> v; for (int i = 0; i < k; i++) v.push_back(mk_S2((k + i) & 3)); return v; }
static bool ck_CxxVector_S2(std::vector<S2> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_S2(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_CxxVector_S2(std::vector<S2> const & v) { (void)v; return 0; }
static std::vector<S2> & mk_mut_CxxVector_S2(int k) { return cs_CxxVector_S2(k); }
static bool ck_mut_CxxVector_S2(std::vector<S2> & v, int k) { (void)k; return ck_CxxVector_S2(v, k); }
static std::uintptr_t ad_mut_CxxVector_S2(std::vector<S2> & v) { (void)v; return std::uintptr_t(&v); }
static rust::Vec<std::uint8_t> mk_Vec_u8(int k) { rust::Vec<std::uint8_t> v; for (int i = 0; i < k; i++) v.push_back(mk_u8((k + i) & 3)); return v; }
static bool ck_Vec_u8(rust::Vec<std::uint8_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_u8(rust::Vec<std::uint8_t> const & v) { (void)v; return 0; }
static rust::Vec<std::uint8_t> & mk_mut_Vec_u8(int k) { return cs_Vec_u8(k); }
static bool ck_mut_Vec_u8(rust::Vec<std::uint8_t> & v, int k) { (void)k; return ck_Vec_u8(v, k); }
static std::uintptr_t ad_mut_Vec_u8(rust::Vec<std::uint8_t> & v) { (void)v; return std::uintptr_t(&v); }
static rust::Vec<rust::String> mk_Vec_String(int k) { rust::Vec<rust::String> v; for (int i = 0; i < k; i++) v.push_back(mk_String((k + i) & 3)); return v; }
static bool ck_Vec_String(rust::Vec<rust::String> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_String(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_Vec_String(rust::Vec<rust::String> const & v) { (void)v; return 0; }
static rust::Vec<rust::String> & mk_mut_Vec_String(int k) { return cs_Vec_String(k); }
static bool ck_mut_Vec_String(rust::Vec<rust::String> & v, int k) { (void)k; return ck_Vec_String(v, k); }
static std::uintptr_t ad_mut_Vec_String(rust::Vec<rust::String> & v) { (void)v; return std::uintptr_t(&v); }
static rust::Box<RObj> mk_Box_RObj(int k) { return r_new(k); }
static bool ck_Box_RObj(rust::Box<RObj> const & v, int k) { (void)k; return ck_RObj(*v, k); }
static std::uintptr_t ad_Box_RObj(rust::Box<RObj> const & v) { (void)v; return 0; }
static rust::Box<RObj> & mk_mut_Box_RObj(int k) { return cs_Box_RObj(k); }
static bool ck_mut_Box_RObj(rust::Box<RObj> & v, int k) { (void)k; return ck_Box_RObj(v, k); }
static std::uintptr_t ad_mut_Box_RObj(rust::Box<RObj> & v) { (void)v; return std::uintptr_t(&v); }
static std::unique_ptr<CObj> mk_UniquePtr_CObj(int k) { return k == 3 ? nullptr : std::unique_ptr<CObj>(new CObj(k)); }
static bool ck_UniquePtr_CObj(std::unique_ptr<CObj> const & v, int k) { (void)k; return k == 3 ? !v : v && ck_CObj(*v, k); }
static std::uintptr_t ad_UniquePtr_CObj(std::unique_ptr<CObj> const & v) { (void)v; return 0; }
static std::unique_ptr<CObj> & mk_mut_UniquePtr_CObj(int k) { return cs_UniquePtr_CObj(k); }
static bool ck_mut_UniquePtr_CObj(std::unique_ptr<CObj> & v, int k) { (void)k; return ck_UniquePtr_CObj(v, k); }
static std::uintptr_t ad_mut_UniquePtr_CObj(std::unique_ptr<CObj> & v) { (void)v; return std::uintptr_t(&v); }
static std::shared_ptr<CObj> mk_SharedPtr_CObj(int k) { return k == 3 ? nullptr : std::shared_ptr<CObj>(new CObj(k)); }
static bool ck_SharedPtr_CObj(std::shared_ptr<CObj> const & v, int k) { (void)k; return k == 3 ? !v : v && v.use_count() == 1 && ck_CObj(*v, k); }
static std::uintptr_t ad_SharedPtr_CObj(std::shared_ptr<CObj> const & v) { (void)v; return 0; }
static std::shared_ptr<CObj> & mk_mut_SharedPtr_CObj(int k) { return cs_SharedPtr_CObj(k); }
static bool ck_mut_SharedPtr_CObj(std::shared_ptr<CObj> & v, int k) { (void)k; return ck_SharedPtr_CObj(v, k); }
static std::uintptr_t ad_mut_SharedPtr_CObj(std::shared_ptr<CObj> & v) { (void)v; return std::uintptr_t(&v); }
static Ei32 mk_Ei32(int k) { Ei32 t[4] = {Ei32::V0, Ei32::V1, Ei32::V2, Ei32::V3}; return t[k]; }
static bool ck_Ei32(Ei32 const & v, int k) { (void)k; return v == mk_Ei32(k); }
static std::uintptr_t ad_Ei32(Ei32 const & v) { (void)v; return 0; }
static Ei32 & mk_mut_Ei32(int k) { return cs_Ei32(k); }
static bool ck_mut_Ei32(Ei32 & v, int k) { (void)k; return ck_Ei32(v, k); }
static std::uintptr_t ad_mut_Ei32(Ei32 & v) { (void)v; return std::uintptr_t(&v); }
static double mk_f64(int k) { std::uint64_t t[4] = {0x8000000000000000, 0xfff0000000000000, 0x3ff8000000000000, 0x7ff8000000000123}; double r; std::memcpy(&r, &t[k], sizeof r); return r; }
static bool ck_f64(double const & v, int k) { (void)k; return [&]{ auto w = mk_f64(k); return std::memcmp(&v, &w, sizeof w) == 0; }(); }
static std::uintptr_t ad_f64(double const & v) { (void)v; return 0; }
static TrivB mk_TrivB(int k) { return TrivB{mk_f64((k + 0) & 3), mk_f64((k + 1) & 3)}; }
static bool ck_TrivB(TrivB const & v, int k) { (void)k; return ck_f64(v.f0, (k + 0) & 3) && ck_f64(v.f1, (k + 1) & 3); }
static std::uintptr_t ad_TrivB(TrivB const & v) { (void)v; return 0; }
static TrivB & mk_mut_TrivB(int k) { return cs_TrivB(k); }
static bool ck_mut_TrivB(TrivB & v, int k) { (void)k; return ck_TrivB(v, k); }
static std::uintptr_t ad_mut_TrivB(TrivB & v) { (void)v; return std::uintptr_t(&v); }
static std::array<S2, 3> mk_arr3_S2(int k) { return std::array<S2, 3>{{mk_S2((k + 0) & 3), mk_S2((k + 1) & 3), mk_S2((k + 2) & 3)}}; }
static bool ck_arr3_S2(std::array<S2, 3> const & v, int k) { (void)k; return ck_S2(v[0], (k + 0) & 3) && ck_S2(v[1], (k + 1) & 3) && ck_S2(v[2], (k + 2) & 3); }
static std::uintptr_t ad_arr3_S2(std::array<S2, 3> const & v) { (void)v; return 0; }
static std::array<S2, 3> & mk_mut_arr3_S2(int k) { return cs_arr3_S2(k); }
static bool ck_mut_arr3_S2(std::array<S2, 3> & v, int k) { (void)k; return ck_arr3_S2(v, k); }
static std::uintptr_t ad_mut_arr3_S2(std::array<S2, 3> & v) { (void)v; return std::uintptr_t(&v); }
static rust::Slice<const std::uint8_t> mk_sl_u8(int k) { return rust::Slice<const std::uint8_t>(cs_sl_u8(k), k); }
static bool ck_sl_u8(rust::Slice<const std::uint8_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_u8(rust::Slice<const std::uint8_t> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static std::uint16_t mk_u16(int k) { std::uint16_t t[4] = {0, 1, 32768, 65535}; return t[k]; }
static bool ck_u16(std::uint16_t const & v, int k) { (void)k; return v == mk_u16(k); }
static std::uintptr_t ad_u16(std::uint16_t const & v) { (void)v; return 0; }
static rust::Slice<const std::uint16_t> mk_sl_u16(int k) { return rust::Slice<const std::uint16_t>(cs_sl_u16(k), k); }
static bool ck_sl_u16(rust::Slice<const std::uint16_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u16(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_u16(rust::Slice<const std::uint16_t> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static std::int32_t mk_i32(int k) { std::int32_t t[4] = {0, 1, -2147483648ll, 2147483647}; return t[k]; }
static bool ck_i32(std::int32_t const & v, int k) { (void)k; return v == mk_i32(k); }
static std::uintptr_t ad_i32(std::int32_t const & v) { (void)v; return 0; }
static rust::Slice<const std::int32_t> mk_sl_i32(int k) { return rust::Slice<const std::int32_t>(cs_sl_i32(k), k); }
static bool ck_sl_i32(rust::Slice<const std::int32_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_i32(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_i32(rust::Slice<const std::int32_t> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const double> mk_sl_f64(int k) { return rust::Slice<const double>(cs_sl_f64(k), k); }
static bool ck_sl_f64(rust::Slice<const double> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_f64(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_f64(rust::Slice<const double> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const bool> mk_sl_bool(int k) { return rust::Slice<const bool>(cs_sl_bool(k), k); }
static bool ck_sl_bool(rust::Slice<const bool> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_bool(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_bool(rust::Slice<const bool> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static std::size_t mk_usize(int k) { std::size_t t[4] = {0, 1, 9223372036854775808ull, 18446744073709551615ull}; return t[k]; }
static bool ck_usize(std::size_t const & v, int k) { (void)k; return v == mk_usize(k); }
static std::uintptr_t ad_usize(std::size_t const & v) { (void)v; return 0; }
static rust::Slice<const std::size_t> mk_sl_usize(int k) { return rust::Slice<const std::size_t>(cs_sl_usize(k), k); }
static bool ck_sl_usize(rust::Slice<const std::size_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_usize(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_usize(rust::Slice<const std::size_t> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static char mk_c_char(int k) { char t[4] = {'\0', 'a', char(0x80), char(0xff)}; return t[k]; }
static bool ck_c_char(char const & v, int k) { (void)k; return v == mk_c_char(k); }
static std::uintptr_t ad_c_char(char const & v) { (void)v; return 0; }
static rust::Slice<const char> mk_sl_c_char(int k) { return rust::Slice<const char>(cs_sl_c_char(k), k); }
static bool ck_sl_c_char(rust::Slice<const char> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_c_char(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_c_char(rust::Slice<const char> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const rust::String> mk_sl_String(int k) { return rust::Slice<const rust::String>(cs_sl_String(k), k); }
static bool ck_sl_String(rust::Slice<const rust::String> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_String(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_String(rust::Slice<const rust::String> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const S2> mk_sl_S2(int k) { return rust::Slice<const S2>(cs_sl_S2(k), k); }
static bool ck_sl_S2(rust::Slice<const S2> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_S2(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_S2(rust::Slice<const S2> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const S7> mk_sl_S7(int k) { return rust::Slice<const S7>(cs_sl_S7(k), k); }
static bool ck_sl_S7(rust::Slice<const S7> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_S7(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_S7(rust::Slice<const S7> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static Ei8 mk_Ei8(int k) { Ei8 t[4] = {Ei8::V0, Ei8::V1, Ei8::V2, Ei8::V3}; return t[k]; }
static bool ck_Ei8(Ei8 const & v, int k) { (void)k; return v == mk_Ei8(k); }
static std::uintptr_t ad_Ei8(Ei8 const & v) { (void)v; return 0; }
static rust::Slice<const Ei8> mk_sl_Ei8(int k) { return rust::Slice<const Ei8>(cs_sl_Ei8(k), k); }
static bool ck_sl_Ei8(rust::Slice<const Ei8> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_Ei8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_Ei8(rust::Slice<const Ei8> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static TrivA mk_TrivA(int k) { return TrivA{mk_i32((k + 0) & 3)}; }
static bool ck_TrivA(TrivA const & v, int k) { (void)k; return ck_i32(v.f0, (k + 0) & 3); }
static std::uintptr_t ad_TrivA(TrivA const & v) { (void)v; return 0; }
static rust::Slice<const TrivA> mk_sl_TrivA(int k) { return rust::Slice<const TrivA>(cs_sl_TrivA(k), k); }
static bool ck_sl_TrivA(rust::Slice<const TrivA> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_TrivA(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_TrivA(rust::Slice<const TrivA> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const RObj> mk_sl_RObj(int k) { return rust::Slice<const RObj>(cs_sl_RObj(k), k); }
static bool ck_sl_RObj(rust::Slice<const RObj> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_RObj(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_RObj(rust::Slice<const RObj> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const rust::Box<RObj>> mk_sl_Box_RObj(int k) { return rust::Slice<const rust::Box<RObj>>(cs_sl_Box_RObj(k), k); }
static bool ck_sl_Box_RObj(rust::Slice<const rust::Box<RObj>> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_Box_RObj(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_Box_RObj(rust::Slice<const rust::Box<RObj>> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const std::unique_ptr<CObj>> mk_sl_UniquePtr_CObj(int k) { return rust::Slice<const std::unique_ptr<CObj>>(cs_sl_UniquePtr_CObj(k), k); }
static bool ck_sl_UniquePtr_CObj(rust::Slice<const std::unique_ptr<CObj>> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_UniquePtr_CObj(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_UniquePtr_CObj(rust::Slice<const std::unique_ptr<CObj>> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const rust::Vec<std::uint8_t>> mk_sl_Vec_u8(int k) { return rust::Slice<const rust::Vec<std::uint8_t>>(cs_sl_Vec_u8(k), k); }
static bool ck_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_Vec_u8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const float> mk_sl_f32(int k) { return rust::Slice<const float>(cs_sl_f32(k), k); }
static bool ck_sl_f32(rust::Slice<const float> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_f32(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_f32(rust::Slice<const float> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::isize mk_isize(int k) { rust::isize t[4] = {0, 1, INT64_MIN, 9223372036854775807ll}; return t[k]; }
static bool ck_isize(rust::isize const & v, int k) { (void)k; return v == mk_isize(k); }
static std::uintptr_t ad_isize(rust::isize const & v) { (void)v; return 0; }
static rust::Slice<const rust::isize> mk_sl_isize(int k) { return rust::Slice<const rust::isize>(cs_sl_isize(k), k); }
static bool ck_sl_isize(rust::Slice<const rust::isize> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_isize(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_isize(rust::Slice<const rust::isize> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<const std::array<std::uint8_t, 4>> mk_sl_arr4_u8(int k) { return rust::Slice<const std::array<std::uint8_t, 4>>(cs_sl_arr4_u8(k), k); }
static bool ck_sl_arr4_u8(rust::Slice<const std::array<std::uint8_t, 4>> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_arr4_u8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_sl_arr4_u8(rust::Slice<const std::array<std::uint8_t, 4>> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<std::uint8_t> mk_slm_u8(int k) { return rust::Slice<std::uint8_t>(cs_sl_u8(k), k); }
static bool ck_slm_u8(rust::Slice<std::uint8_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_u8(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_u8(rust::Slice<std::uint8_t> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<std::int64_t> mk_slm_i64(int k) { return rust::Slice<std::int64_t>(cs_sl_i64(k), k); }
static bool ck_slm_i64(rust::Slice<std::int64_t> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_i64(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_i64(rust::Slice<std::int64_t> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<float> mk_slm_f32(int k) { return rust::Slice<float>(cs_sl_f32(k), k); }
static bool ck_slm_f32(rust::Slice<float> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_f32(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_f32(rust::Slice<float> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<rust::String> mk_slm_String(int k) { return rust::Slice<rust::String>(cs_sl_String(k), k); }
static bool ck_slm_String(rust::Slice<rust::String> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_String(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_String(rust::Slice<rust::String> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<S7> mk_slm_S7(int k) { return rust::Slice<S7>(cs_sl_S7(k), k); }
static bool ck_slm_S7(rust::Slice<S7> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_S7(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_S7(rust::Slice<S7> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<RObj> mk_slm_RObj(int k) { return rust::Slice<RObj>(cs_sl_RObj(k), k); }
static bool ck_slm_RObj(rust::Slice<RObj> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_RObj(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_RObj(rust::Slice<RObj> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<char> mk_slm_c_char(int k) { return rust::Slice<char>(cs_sl_c_char(k), k); }
static bool ck_slm_c_char(rust::Slice<char> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_c_char(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_c_char(rust::Slice<char> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static Eu16 mk_Eu16(int k) { Eu16 t[4] = {Eu16::V0, Eu16::V1, Eu16::V2, Eu16::V3}; return t[k]; }
static bool ck_Eu16(Eu16 const & v, int k) { (void)k; return v == mk_Eu16(k); }
static std::uintptr_t ad_Eu16(Eu16 const & v) { (void)v; return 0; }
static rust::Slice<Eu16> mk_slm_Eu16(int k) { return rust::Slice<Eu16>(cs_sl_Eu16(k), k); }
static bool ck_slm_Eu16(rust::Slice<Eu16> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_Eu16(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_Eu16(rust::Slice<Eu16> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static std::uint64_t mk_u64(int k) { std::uint64_t t[4] = {0, 1, 9223372036854775808ull, 18446744073709551615ull}; return t[k]; }
static bool ck_u64(std::uint64_t const & v, int k) { (void)k; return v == mk_u64(k); }
static std::uintptr_t ad_u64(std::uint64_t const & v) { (void)v; return 0; }
static TrivC mk_TrivC(int k) { return TrivC{mk_u64((k + 0) & 3), mk_u8((k + 1) & 3), mk_u64((k + 2) & 3), mk_u16((k + 3) & 3)}; }
static bool ck_TrivC(TrivC const & v, int k) { (void)k; return ck_u64(v.f0, (k + 0) & 3) && ck_u8(v.f1, (k + 1) & 3) && ck_u64(v.f2, (k + 2) & 3) && ck_u16(v.f3, (k + 3) & 3); }
static std::uintptr_t ad_TrivC(TrivC const & v) { (void)v; return 0; }
static rust::Slice<TrivC> mk_slm_TrivC(int k) { return rust::Slice<TrivC>(cs_sl_TrivC(k), k); }
static bool ck_slm_TrivC(rust::Slice<TrivC> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_TrivC(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_TrivC(rust::Slice<TrivC> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static rust::Slice<rust::Box<RObj>> mk_slm_Box_RObj(int k) { return rust::Slice<rust::Box<RObj>>(cs_sl_Box_RObj(k), k); }
static bool ck_slm_Box_RObj(rust::Slice<rust::Box<RObj>> const & v, int k) { (void)k; return v.size() == std::size_t(k) && [&]{ for (int i = 0; i < k; i++) if (!ck_Box_RObj(v[i], (k + i) & 3)) return false; return true; }(); }
static std::uintptr_t ad_slm_Box_RObj(rust::Slice<rust::Box<RObj>> const & v) { (void)v; return v.empty() ? 0 : std::uintptr_t(v.data()); }
static std::uint8_t const * mk_ptrconst_u8(int k) { return k == 3 ? nullptr : &cs_u8(k); }
static bool ck_ptrconst_u8(std::uint8_t const * const & v, int k) { (void)k; return k == 3 ? !v : ck_u8(*v, k); }
static std::uintptr_t ad_ptrconst_u8(std::uint8_t const * const & v) { (void)v; return std::uintptr_t(v); }
static std::uint64_t * mk_ptrmut_u64(int k) { return k == 3 ? nullptr : &cs_u64(k); }
static bool ck_ptrmut_u64(std::uint64_t * const & v, int k) { (void)k; return k == 3 ? !v : ck_u64(*v, k); }
static std::uintptr_t ad_ptrmut_u64(std::uint64_t * const & v) { (void)v; return std::uintptr_t(v); }
static S2 const * mk_ptrconst_S2(int k) { return k == 3 ? nullptr : &cs_S2(k); }
static bool ck_ptrconst_S2(S2 const * const & v, int k) { (void)k; return k == 3 ? !v : ck_S2(*v, k); }
static std::uintptr_t ad_ptrconst_S2(S2 const * const & v) { (void)v; return std::uintptr_t(v); }
static S7 * mk_ptrmut_S7(int k) { return k == 3 ? nullptr : &cs_S7(k); }
static bool ck_ptrmut_S7(S7 * const & v, int k) { (void)k; return k == 3 ? !v : ck_S7(*v, k); }
static std::uintptr_t ad_ptrmut_S7(S7 * const & v) { (void)v; return std::uintptr_t(v); }
static CObj * mk_ptrmut_CObj(int k) { return k == 3 ? nullptr : &cs_CObj(k); }
static bool ck_ptrmut_CObj(CObj * const & v, int k) { (void)k; return k == 3 ? !v : ck_CObj(*v, k); }
static std::uintptr_t ad_ptrmut_CObj(CObj * const & v) { (void)v; return std::uintptr_t(v); }
static CObj const * mk_ptrconst_CObj(int k) { return k == 3 ? nullptr : &cs_CObj(k); }
static bool ck_ptrconst_CObj(CObj const * const & v, int k) { (void)k; return k == 3 ? !v : ck_CObj(*v, k); }
static std::uintptr_t ad_ptrconst_CObj(CObj const * const & v) { (void)v; return std::uintptr_t(v); }
static RObj const * mk_ptrconst_RObj(int k) { return k == 3 ? nullptr : &cs_RObj(k); }
static bool ck_ptrconst_RObj(RObj const * const & v, int k) { (void)k; return k == 3 ? !v : ck_RObj(*v, k); }
static std::uintptr_t ad_ptrconst_RObj(RObj const * const & v) { (void)v; return std::uintptr_t(v); }
static RObj * mk_ptrmut_RObj(int k) { return k == 3 ? nullptr : &cs_RObj(k); }
static bool ck_ptrmut_RObj(RObj * const & v, int k) { (void)k; return k == 3 ? !v : ck_RObj(*v, k); }
static std::uintptr_t ad_ptrmut_RObj(RObj * const & v) { (void)v; return std::uintptr_t(v); }
static std::string const * mk_ptrconst_CxxString(int k) { return k == 3 ? nullptr : &cs_CxxString(k); }
static bool ck_ptrconst_CxxString(std::string const * const & v, int k) { (void)k; return k == 3 ? !v : ck_CxxString(*v, k); }
static std::uintptr_t ad_ptrconst_CxxString(std::string const * const & v) { (void)v; return std::uintptr_t(v); }
static std::unique_ptr<std::array<std::uint8_t, 4>> ST_arr4_u8[4];
static std::array<std::uint8_t, 4> &cs_arr4_u8(int k) { ST_arr4_u8[k].reset(new std::array<std::uint8_t, 4>(mk_arr4_u8(k))); return *ST_arr4_u8[k]; }
static std::array<std::uint8_t, 4> &cp_arr4_u8(int k) { return *ST_arr4_u8[k]; }
static std::unique_ptr<std::uint8_t> ST_u8[4];
static std::uint8_t &cs_u8(int k) { ST_u8[k].reset(new std::uint8_t(mk_u8(k))); return *ST_u8[k]; }
static std::uint8_t &cp_u8(int k) { return *ST_u8[k]; }
static std::unique_ptr<std::int64_t> ST_i64[4];
static std::int64_t &cs_i64(int k) { ST_i64[k].reset(new std::int64_t(mk_i64(k))); return *ST_i64[k]; }
static std::int64_t &cp_i64(int k) { return *ST_i64[k]; }
static std::unique_ptr<float> ST_f32[4];
static float &cs_f32(int k) { ST_f32[k].reset(new float(mk_f32(k))); return *ST_f32[k]; }
static float &cp_f32(int k) { return *ST_f32[k]; }
static std::unique_ptr<bool> ST_bool[4];
static bool &cs_bool(int k) { ST_bool[k].reset(new bool(mk_bool(k))); return *ST_bool[k]; }
static bool &cp_bool(int k) { return *ST_bool[k]; }
static std::unique_ptr<rust::String> ST_String[4];
static rust::String &cs_String(int k) { ST_String[k].reset(new rust::String(mk_String(k))); return *ST_String[k]; }
static rust::String &cp_String(int k) { return *ST_String[k]; }
static std::unique_ptr<S2> ST_S2[4];
static S2 &cs_S2(int k) { ST_S2[k].reset(new S2(mk_S2(k))); return *ST_S2[k]; }
static S2 &cp_S2(int k) { return *ST_S2[k]; }
static std::unique_ptr<S7> ST_S7[4];
static S7 &cs_S7(int k) { ST_S7[k].reset(new S7(mk_S7(k))); return *ST_S7[k]; }
static S7 &cp_S7(int k) { return *ST_S7[k]; }
static std::unique_ptr<rust::Box<RObj>> ST_RObj[4];
static RObj &cs_RObj(int k) { ST_RObj[k].reset(new rust::Box<RObj>(r_new(k))); return **ST_RObj[k]; }
static RObj &cp_RObj(int k) { return **ST_RObj[k]; }
std::unique_ptr<CObj> c_store_CObj(std::int32_t k) { return std::unique_ptr<CObj>(new CObj(k)); }
static std::unique_ptr<CObj> ST_CObj[4];
static CObj &cs_CObj(int k) { ST_CObj[k].reset(new CObj(k)); return *ST_CObj[k]; }
static CObj &cp_CObj(int k) { return *ST_CObj[k]; }
std::unique_ptr<std::string> c_store_CxxString(std::int32_t k) { return std::unique_ptr<std::string>(new std::string(mk_CxxString(k))); }
static std::unique_ptr<std::string> ST_CxxString[4];
static std::string &cs_CxxString(int k) { ST_CxxString[k].reset(new std::string(mk_CxxString(k))); return *ST_CxxString[k]; }
static std::string &cp_CxxString(int k) { return *ST_CxxString[k]; }
std::unique_ptr<std::vector<std::uint8_t>> c_store_CxxVector_u8(std::int32_t k) { return std::unique_ptr<std::vector<std::uint8_t>>(new std::vector<std::uint8_t>(mk_CxxVector_u8(k))); }
static std::unique_ptr<std::vector<std::uint8_t>> ST_CxxVector_u8[4];
static std::vector<std::uint8_t> &cs_CxxVector_u8(int k) { ST_CxxVector_u8[k].reset(new std::vector<std::uint8_t>(mk_CxxVector_u8(k))); return *ST_CxxVector_u8[k]; }
static std::vector<std::uint8_t> &cp_CxxVector_u8(int k) { return *ST_CxxVector_u8[k]; }
std::unique_ptr<std::vector<S2>> c_store_CxxVector_S2(std::int32_t k) { return std::unique_ptr<std::vector<S2>>(new std::vector<S2>(mk_CxxVector_S2(k))); }
static std::unique_ptr<std::vector<S2>> ST_CxxVector_S2[4];
static std::vector<S2> &cs_CxxVector_S2(int k) { ST_CxxVector_S2[k].reset(new std::vector<S2>(mk_CxxVector_S2(k))); return *ST_CxxVector_S2[k]; }
static std::vector<S2> &cp_CxxVector_S2(int k) { return *ST_CxxVector_S2[k]; }
static std::unique_ptr<rust::Vec<std::uint8_t>> ST_Vec_u8[4];
static rust::Vec<std::uint8_t> &cs_Vec_u8(int k) { ST_Vec_u8[k].reset(new rust::Vec<std::uint8_t>(mk_Vec_u8(k))); return *ST_Vec_u8[k]; }
static rust::Vec<std::uint8_t> &cp_Vec_u8(int k) { return *ST_Vec_u8[k]; }
static std::unique_ptr<rust::Vec<rust::String>> ST_Vec_String[4];
static rust::Vec<rust::String> &cs_Vec_String(int k) { ST_Vec_String[k].reset(new rust::Vec<rust::String>(mk_Vec_String(k))); return *ST_Vec_String[k]; }
static rust::Vec<rust::String> &cp_Vec_String(int k) { return *ST_Vec_String[k]; }
static std::unique_ptr<rust::Box<RObj>> ST_Box_RObj[4];
static rust::Box<RObj> &cs_Box_RObj(int k) { ST_Box_RObj[k].reset(new rust::Box<RObj>(mk_Box_RObj(k))); return *ST_Box_RObj[k]; }
static rust::Box<RObj> &cp_Box_RObj(int k) { return *ST_Box_RObj[k]; }
static std::unique_ptr<std::unique_ptr<CObj>> ST_UniquePtr_CObj[4];
static std::unique_ptr<CObj> &cs_UniquePtr_CObj(int k) { ST_UniquePtr_CObj[k].reset(new std::unique_ptr<CObj>(mk_UniquePtr_CObj(k))); return *ST_UniquePtr_CObj[k]; }
static std::unique_ptr<CObj> &cp_UniquePtr_CObj(int k) { return *ST_UniquePtr_CObj[k]; }
static std::unique_ptr<std::shared_ptr<CObj>> ST_SharedPtr_CObj[4];
static std::shared_ptr<CObj> &cs_SharedPtr_CObj(int k) { ST_SharedPtr_CObj[k].reset(new std::shared_ptr<CObj>(mk_SharedPtr_CObj(k))); return *ST_SharedPtr_CObj[k]; }
static std::shared_ptr<CObj> &cp_SharedPtr_CObj(int k) { return *ST_SharedPtr_CObj[k]; }
static std::unique_ptr<Ei32> ST_Ei32[4];
static Ei32 &cs_Ei32(int k) { ST_Ei32[k].reset(new Ei32(mk_Ei32(k))); return *ST_Ei32[k]; }
static Ei32 &cp_Ei32(int k) { return *ST_Ei32[k]; }
static std::unique_ptr<TrivB> ST_TrivB[4];
static TrivB &cs_TrivB(int k) { ST_TrivB[k].reset(new TrivB(mk_TrivB(k))); return *ST_TrivB[k]; }
static TrivB &cp_TrivB(int k) { return *ST_TrivB[k]; }
static std::unique_ptr<std::array<S2, 3>> ST_arr3_S2[4];
static std::array<S2, 3> &cs_arr3_S2(int k) { ST_arr3_S2[k].reset(new std::array<S2, 3>(mk_arr3_S2(k))); return *ST_arr3_S2[k]; }
static std::array<S2, 3> &cp_arr3_S2(int k) { return *ST_arr3_S2[k]; }
static std::unique_ptr<std::uint64_t> ST_u64[4];
static std::uint64_t &cs_u64(int k) { ST_u64[k].reset(new std::uint64_t(mk_u64(k))); return *ST_u64[k]; }
static std::uint64_t &cp_u64(int k) { return *ST_u64[k]; }
static std::unique_ptr<std::array<std::uint8_t, 4>> SL_u8[4];
static std::uint8_t *cs_sl_u8(int k) { SL_u8[k].reset(new std::array<std::uint8_t, 4>{{mk_u8((k + 0) & 3), mk_u8((k + 1) & 3), mk_u8((k + 2) & 3), mk_u8((k + 3) & 3)}}); return SL_u8[k]->data(); }
static std::uint8_t *cp_sl_u8(int k) { return SL_u8[k]->data(); }
static std::unique_ptr<std::array<std::uint16_t, 4>> SL_u16[4];
static std::uint16_t *cs_sl_u16(int k) { SL_u16[k].reset(new std::array<std::uint16_t, 4>{{mk_u16((k + 0) & 3), mk_u16((k + 1) & 3), mk_u16((k + 2) & 3), mk_u16((k + 3) & 3)}}); return SL_u16[k]->data(); }
static std::uint16_t *cp_sl_u16(int k) { return SL_u16[k]->data(); }
static std::unique_ptr<std::array<std::int32_t, 4>> SL_i32[4];
static std::int32_t *cs_sl_i32(int k) { SL_i32[k].reset(new std::array<std::int32_t, 4>{{mk_i32((k + 0) & 3), mk_i32((k + 1) & 3), mk_i32((k + 2) & 3), mk_i32((k + 3) & 3)}}); return SL_i32[k]->data(); }
static std::int32_t *cp_sl_i32(int k) { return SL_i32[k]->data(); }
static std::unique_ptr<std::array<double, 4>> SL_f64[4];
static double *cs_sl_f64(int k) { SL_f64[k].reset(new std::array<double, 4>{{mk_f64((k + 0) & 3), mk_f64((k + 1) & 3), mk_f64((k + 2) & 3), mk_f64((k + 3) & 3)}}); return SL_f64[k]->data(); }
static double *cp_sl_f64(int k) { return SL_f64[k]->data(); }
static std::unique_ptr<std::array<bool, 4>> SL_bool[4];
static bool *cs_sl_bool(int k) { SL_bool[k].reset(new std::array<bool, 4>{{mk_bool((k + 0) & 3), mk_bool((k + 1) & 3), mk_bool((k + 2) & 3), mk_bool((k + 3) & 3)}}); return SL_bool[k]->data(); }
static bool *cp_sl_bool(int k) { return SL_bool[k]->data(); }
static std::unique_ptr<std::array<std::size_t, 4>> SL_usize[4];
static std::size_t *cs_sl_usize(int k) { SL_usize[k].reset(new std::array<std::size_t, 4>{{mk_usize((k + 0) & 3), mk_usize((k + 1) & 3), mk_usize((k + 2) & 3), mk_usize((k + 3) & 3)}}); return SL_usize[k]->data(); }
static std::size_t *cp_sl_usize(int k) { return SL_usize[k]->data(); }
static std::unique_ptr<std::array<char, 4>> SL_c_char[4];
static char *cs_sl_c_char(int k) { SL_c_char[k].reset(new std::array<char, 4>{{mk_c_char((k + 0) & 3), mk_c_char((k + 1) & 3), mk_c_char((k + 2) & 3), mk_c_char((k + 3) & 3)}}); return SL_c_char[k]->data(); }
static char *cp_sl_c_char(int k) { return SL_c_char[k]->data(); }
static std::unique_ptr<std::array<rust::String, 4>> SL_String[4];
static rust::String *cs_sl_String(int k) { SL_String[k].reset(new std::array<rust::String, 4>{{mk_String((k + 0) & 3), mk_String((k + 1) & 3), mk_String((k + 2) & 3), mk_String((k + 3) & 3)}}); return SL_String[k]->data(); }
static rust::String *cp_sl_String(int k) { return SL_String[k]->data(); }
static std::unique_ptr<std::array<S2, 4>> SL_S2[4];
static S2 *cs_sl_S2(int k) { SL_S2[k].reset(new std::array<S2, 4>{{mk_S2((k + 0) & 3), mk_S2((k + 1) & 3), mk_S2((k + 2) & 3), mk_S2((k + 3) & 3)}}); return SL_S2[k]->data(); }
static S2 *cp_sl_S2(int k) { return SL_S2[k]->data(); }
static std::unique_ptr<std::array<S7, 4>> SL_S7[4];
static S7 *cs_sl_S7(int k) { SL_S7[k].reset(new std::array<S7, 4>{{mk_S7((k + 0) & 3), mk_S7((k + 1) & 3), mk_S7((k + 2) & 3), mk_S7((k + 3) & 3)}}); return SL_S7[k]->data(); }
static S7 *cp_sl_S7(int k) { return SL_S7[k]->data(); }
static std::unique_ptr<std::array<Ei8, 4>> SL_Ei8[4];
static Ei8 *cs_sl_Ei8(int k) { SL_Ei8[k].reset(new std::array<Ei8, 4>{{mk_Ei8((k + 0) & 3), mk_Ei8((k + 1) & 3), mk_Ei8((k + 2) & 3), mk_Ei8((k + 3) & 3)}}); return SL_Ei8[k]->data(); }
static Ei8 *cp_sl_Ei8(int k) { return SL_Ei8[k]->data(); }
static std::unique_ptr<std::array<TrivA, 4>> SL_TrivA[4];
static TrivA *cs_sl_TrivA(int k) { SL_TrivA[k].reset(new std::array<TrivA, 4>{{mk_TrivA((k + 0) & 3), mk_TrivA((k + 1) & 3), mk_TrivA((k + 2) & 3), mk_TrivA((k + 3) & 3)}}); return SL_TrivA[k]->data(); }
static TrivA *cp_sl_TrivA(int k) { return SL_TrivA[k]->data(); }
static std::unique_ptr<rust::Vec<RObj>> SL_RObj[4];
static RObj *cs_sl_RObj(int k) { SL_RObj[k].reset(new rust::Vec<RObj>(r_slice_RObj(k))); return SL_RObj[k]->data(); }
static RObj *cp_sl_RObj(int k) { return SL_RObj[k]->data(); }
static std::unique_ptr<std::array<rust::Box<RObj>, 4>> SL_Box_RObj[4];
static rust::Box<RObj> *cs_sl_Box_RObj(int k) { SL_Box_RObj[k].reset(new std::array<rust::Box<RObj>, 4>{{mk_Box_RObj((k + 0) & 3), mk_Box_RObj((k + 1) & 3), mk_Box_RObj((k + 2) & 3), mk_Box_RObj((k + 3) & 3)}}); return SL_Box_RObj[k]->data(); }
static rust::Box<RObj> *cp_sl_Box_RObj(int k) { return SL_Box_RObj[k]->data(); }
static std::unique_ptr<std::array<std::unique_ptr<CObj>, 4>> SL_UniquePtr_CObj[4];
static std::unique_ptr<CObj> *cs_sl_UniquePtr_CObj(int k) { SL_UniquePtr_CObj[k].reset(new std::array<std::unique_ptr<CObj>, 4>{{mk_UniquePtr_CObj((k + 0) & 3), mk_UniquePtr_CObj((k + 1) & 3), mk_UniquePtr_CObj((k + 2) & 3), mk_UniquePtr_CObj((k + 3) & 3)}}); return SL_UniquePtr_CObj[k]->data(); }
static std::unique_ptr<CObj> *cp_sl_UniquePtr_CObj(int k) { return SL_UniquePtr_CObj[k]->data(); }
static std::unique_ptr<std::array<rust::Vec<std::uint8_t>, 4>> SL_Vec_u8[4];
static rust::Vec<std::uint8_t> *cs_sl_Vec_u8(int k) { SL_Vec_u8[k].reset(new std::array<rust::Vec<std::uint8_t>, 4>{{mk_Vec_u8((k + 0) & 3), mk_Vec_u8((k + 1) & 3), mk_Vec_u8((k + 2) & 3), mk_Vec_u8((k + 3) & 3)}}); return SL_Vec_u8[k]->data(); }
static rust::Vec<std::uint8_t> *cp_sl_Vec_u8(int k) { return SL_Vec_u8[k]->data(); }
static std::unique_ptr<std::array<float, 4>> SL_f32[4];
static float *cs_sl_f32(int k) { SL_f32[k].reset(new std::array<float, 4>{{mk_f32((k + 0) & 3), mk_f32((k + 1) & 3), mk_f32((k + 2) & 3), mk_f32((k + 3) & 3)}}); return SL_f32[k]->data(); }
static float *cp_sl_f32(int k) { return SL_f32[k]->data(); }
static std::unique_ptr<std::array<rust::isize, 4>> SL_isize[4];
static rust::isize *cs_sl_isize(int k) { SL_isize[k].reset(new std::array<rust::isize, 4>{{mk_isize((k + 0) & 3), mk_isize((k + 1) & 3), mk_isize((k + 2) & 3), mk_isize((k + 3) & 3)}}); return SL_isize[k]->data(); }
static rust::isize *cp_sl_isize(int k) { return SL_isize[k]->data(); }
static std::unique_ptr<std::array<std::array<std::uint8_t, 4>, 4>> SL_arr4_u8[4];
static std::array<std::uint8_t, 4> *cs_sl_arr4_u8(int k) { SL_arr4_u8[k].reset(new std::array<std::array<std::uint8_t, 4>, 4>{{mk_arr4_u8((k + 0) & 3), mk_arr4_u8((k + 1) & 3), mk_arr4_u8((k + 2) & 3), mk_arr4_u8((k + 3) & 3)}}); return SL_arr4_u8[k]->data(); }
static std::array<std::uint8_t, 4> *cp_sl_arr4_u8(int k) { return SL_arr4_u8[k]->data(); }
static std::unique_ptr<std::array<std::int64_t, 4>> SL_i64[4];
static std::int64_t *cs_sl_i64(int k) { SL_i64[k].reset(new std::array<std::int64_t, 4>{{mk_i64((k + 0) & 3), mk_i64((k + 1) & 3), mk_i64((k + 2) & 3), mk_i64((k + 3) & 3)}}); return SL_i64[k]->data(); }
static std::int64_t *cp_sl_i64(int k) { return SL_i64[k]->data(); }
static std::unique_ptr<std::array<Eu16, 4>> SL_Eu16[4];
static Eu16 *cs_sl_Eu16(int k) { SL_Eu16[k].reset(new std::array<Eu16, 4>{{mk_Eu16((k + 0) & 3), mk_Eu16((k + 1) & 3), mk_Eu16((k + 2) & 3), mk_Eu16((k + 3) & 3)}}); return SL_Eu16[k]->data(); }
static Eu16 *cp_sl_Eu16(int k) { return SL_Eu16[k]->data(); }
static std::unique_ptr<std::array<TrivC, 4>> SL_TrivC[4];
static TrivC *cs_sl_TrivC(int k) { SL_TrivC[k].reset(new std::array<TrivC, 4>{{mk_TrivC((k + 0) & 3), mk_TrivC((k + 1) & 3), mk_TrivC((k + 2) & 3), mk_TrivC((k + 3) & 3)}}); return SL_TrivC[k]->data(); }
static TrivC *cp_sl_TrivC(int k) { return SL_TrivC[k]->data(); }
bool c_take_ref_arr4_u8(std::array<std::uint8_t, 4> const & x, std::int32_t k) { note(ad_ref_arr4_u8(x)); if (!ck_ref_arr4_u8(x, k)) return false; return true; }
std::array<std::uint8_t, 4> const & c_make_ref_arr4_u8(std::uint8_t const &, std::int32_t k) { std::array<std::uint8_t, 4> const & x = mk_ref_arr4_u8(k); note(ad_ref_arr4_u8(x)); return x; }
std::array<std::uint8_t, 4> const & c_try_ref_arr4_u8(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<std::uint8_t, 4> const & x = mk_ref_arr4_u8(k); note(ad_ref_arr4_u8(x)); return x; }
std::array<std::uint8_t, 4> const & c_echo_ref_arr4_u8(std::array<std::uint8_t, 4> const & x, std::int32_t k) { note(ck_ref_arr4_u8(x, k) ? ad_ref_arr4_u8(x) : 1); return x; }
bool c_mix_ref_arr4_u8(std::uint8_t a, std::array<std::uint8_t, 4> const & x, double b, std::int32_t k, std::array<std::uint8_t, 4> const & y, std::uint16_t c) { return a == 200 && ck_ref_arr4_u8(x, k) && b == -1.5 && ck_ref_arr4_u8(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_ref_arr4_u8(std::array<std::uint8_t, 4> const & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_ref_arr4_u8(x, k); }
bool c_cb_ref_arr4_u8(rust::Fn<std::array<std::uint8_t, 4> const &(std::array<std::uint8_t, 4> const &, std::int32_t)> f, std::int32_t k) { std::array<std::uint8_t, 4> const & y = f(mk_ref_arr4_u8(k), k); return ck_ref_arr4_u8(y, k); }
std::int32_t c_run_ref_arr4_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<std::uint8_t, 4> const & x = mk_ref_arr4_u8(k); auto a = ad_ref_arr4_u8(x); if (!r_take_ref_arr4_u8(x, k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { std::array<std::uint8_t, 4> const & x = r_make_ref_arr4_u8(Z, k); return ck_ref_arr4_u8(x, k) && (vk_addr_c09c == ad_ref_arr4_u8(x)) ? 0 : 13; }
 case 2: { std::array<std::uint8_t, 4> const & x = r_try_ref_arr4_u8(Z, k, false); return ck_ref_arr4_u8(x, k) && (vk_addr_c09c == ad_ref_arr4_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ref_arr4_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<std::uint8_t, 4> const & x = mk_ref_arr4_u8(k); auto a = ad_ref_arr4_u8(x); std::array<std::uint8_t, 4> const & y = r_echo_ref_arr4_u8(x, k); return vk_addr_c09c == a && ad_ref_arr4_u8(y) == a && ck_ref_arr4_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_ref_arr4_u8(200, mk_ref_arr4_u8(k), -1.5, k, mk_ref_arr4_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::array<std::uint8_t, 4> const & x = mk_ref_arr4_u8(k); return o.r_m_ref_arr4_u8(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_u8(std::uint8_t & x, std::int32_t k) { note(ad_mut_u8(x)); if (!ck_mut_u8(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_u8(k); } return true; }
std::uint8_t & c_make_mut_u8(std::uint8_t &, std::int32_t k) { std::uint8_t & x = mk_mut_u8(k); note(ad_mut_u8(x)); return x; }
std::uint8_t & c_try_mut_u8(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::uint8_t & x = mk_mut_u8(k); note(ad_mut_u8(x)); return x; }
std::uint8_t & c_echo_mut_u8(std::uint8_t & x, std::int32_t k) { note(ck_mut_u8(x, k) ? ad_mut_u8(x) : 1); return x; }
bool c_mix_mut_u8(std::uint8_t a, std::uint8_t & x, double b, std::int32_t k, std::uint8_t & y, std::uint16_t c) { return a == 200 && ck_mut_u8(x, k) && b == -1.5 && ck_mut_u8(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_u8(std::uint8_t & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_mut_u8(x, k); }
bool c_cb_mut_u8(rust::Fn<std::uint8_t &(std::uint8_t &, std::int32_t)> f, std::int32_t k) { std::uint8_t & y = f(mk_mut_u8(k), k); return ck_mut_u8(y, k); }
std::int32_t c_run_mut_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::uint8_t & x = mk_mut_u8(k); auto a = ad_mut_u8(x); if (!r_take_mut_u8(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_u8(cp_u8(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { std::uint8_t & x = r_make_mut_u8(Z, k); return ck_mut_u8(x, k) && (vk_addr_c09c == ad_mut_u8(x)) ? 0 : 13; }
 case 2: { std::uint8_t & x = r_try_mut_u8(Z, k, false); return ck_mut_u8(x, k) && (vk_addr_c09c == ad_mut_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::uint8_t & x = mk_mut_u8(k); auto a = ad_mut_u8(x); std::uint8_t & y = r_echo_mut_u8(x, k); return vk_addr_c09c == a && ad_mut_u8(y) == a && ck_mut_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_u8(200, mk_mut_u8(k), -1.5, k, mk_mut_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::uint8_t & x = mk_mut_u8(k); return o.r_m_mut_u8(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_i64(std::int64_t & x, std::int32_t k) { note(ad_mut_i64(x)); if (!ck_mut_i64(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_i64(k); } return true; }
std::int64_t & c_make_mut_i64(std::uint8_t &, std::int32_t k) { std::int64_t & x = mk_mut_i64(k); note(ad_mut_i64(x)); return x; }
std::int64_t & c_try_mut_i64(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::int64_t & x = mk_mut_i64(k); note(ad_mut_i64(x)); return x; }
std::int64_t & c_echo_mut_i64(std::int64_t & x, std::int32_t k) { note(ck_mut_i64(x, k) ? ad_mut_i64(x) : 1); return x; }
bool c_mix_mut_i64(std::uint8_t a, std::int64_t & x, double b, std::int32_t k, std::int64_t & y, std::uint16_t c) { return a == 200 && ck_mut_i64(x, k) && b == -1.5 && ck_mut_i64(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_i64(std::int64_t & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_mut_i64(x, k); }
bool c_cb_mut_i64(rust::Fn<std::int64_t &(std::int64_t &, std::int32_t)> f, std::int32_t k) { std::int64_t & y = f(mk_mut_i64(k), k); return ck_mut_i64(y, k); }
std::int32_t c_run_mut_i64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::int64_t & x = mk_mut_i64(k); auto a = ad_mut_i64(x); if (!r_take_mut_i64(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_i64(cp_i64(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { std::int64_t & x = r_make_mut_i64(Z, k); return ck_mut_i64(x, k) && (vk_addr_c09c == ad_mut_i64(x)) ? 0 : 13; }
 case 2: { std::int64_t & x = r_try_mut_i64(Z, k, false); return ck_mut_i64(x, k) && (vk_addr_c09c == ad_mut_i64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_i64(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::int64_t & x = mk_mut_i64(k); auto a = ad_mut_i64(x); std::int64_t & y = r_echo_mut_i64(x, k); return vk_addr_c09c == a && ad_mut_i64(y) == a && ck_mut_i64(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_i64(200, mk_mut_i64(k), -1.5, k, mk_mut_i64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::int64_t & x = mk_mut_i64(k); return o.r_m_mut_i64(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_f32(float & x, std::int32_t k) { note(ad_mut_f32(x)); if (!ck_mut_f32(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_f32(k); } return true; }
float & c_make_mut_f32(std::uint8_t &, std::int32_t k) { float & x = mk_mut_f32(k); note(ad_mut_f32(x)); return x; }
float & c_try_mut_f32(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); float & x = mk_mut_f32(k); note(ad_mut_f32(x)); return x; }
float & c_echo_mut_f32(float & x, std::int32_t k) { note(ck_mut_f32(x, k) ? ad_mut_f32(x) : 1); return x; }
bool c_mix_mut_f32(std::uint8_t a, float & x, double b, std::int32_t k, float & y, std::uint16_t c) { return a == 200 && ck_mut_f32(x, k) && b == -1.5 && ck_mut_f32(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_f32(float & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_mut_f32(x, k); }
bool c_cb_mut_f32(rust::Fn<float &(float &, std::int32_t)> f, std::int32_t k) { float & y = f(mk_mut_f32(k), k); return ck_mut_f32(y, k); }
std::int32_t c_run_mut_f32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { float & x = mk_mut_f32(k); auto a = ad_mut_f32(x); if (!r_take_mut_f32(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_f32(cp_f32(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { float & x = r_make_mut_f32(Z, k); return ck_mut_f32(x, k) && (vk_addr_c09c == ad_mut_f32(x)) ? 0 : 13; }
 case 2: { float & x = r_try_mut_f32(Z, k, false); return ck_mut_f32(x, k) && (vk_addr_c09c == ad_mut_f32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_f32(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { float & x = mk_mut_f32(k); auto a = ad_mut_f32(x); float & y = r_echo_mut_f32(x, k); return vk_addr_c09c == a && ad_mut_f32(y) == a && ck_mut_f32(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_f32(200, mk_mut_f32(k), -1.5, k, mk_mut_f32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; float & x = mk_mut_f32(k); return o.r_m_mut_f32(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_bool(bool & x, std::int32_t k) { note(ad_mut_bool(x)); if (!ck_mut_bool(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_bool(k); } return true; }
bool & c_make_mut_bool(std::uint8_t &, std::int32_t k) { bool & x = mk_mut_bool(k); note(ad_mut_bool(x)); return x; }
bool & c_try_mut_bool(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); bool & x = mk_mut_bool(k); note(ad_mut_bool(x)); return x; }
bool & c_echo_mut_bool(bool & x, std::int32_t k) { note(ck_mut_bool(x, k) ? ad_mut_bool(x) : 1); return x; }
bool c_mix_mut_bool(std::uint8_t a, bool & x, double b, std::int32_t k, bool & y, std::uint16_t c) { return a == 200 && ck_mut_bool(x, k) && b == -1.5 && ck_mut_bool(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_bool(bool & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_mut_bool(x, k); }
bool c_cb_mut_bool(rust::Fn<bool &(bool &, std::int32_t)> f, std::int32_t k) { bool & y = f(mk_mut_bool(k), k); return ck_mut_bool(y, k); }
std::int32_t c_run_mut_bool(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { bool & x = mk_mut_bool(k); auto a = ad_mut_bool(x); if (!r_take_mut_bool(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_bool(cp_bool(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { bool & x = r_make_mut_bool(Z, k); return ck_mut_bool(x, k) && (vk_addr_c09c == ad_mut_bool(x)) ? 0 : 13; }
 case 2: { bool & x = r_try_mut_bool(Z, k, false); return ck_mut_bool(x, k) && (vk_addr_c09c == ad_mut_bool(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_bool(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { bool & x = mk_mut_bool(k); auto a = ad_mut_bool(x); bool & y = r_echo_mut_bool(x, k); return vk_addr_c09c == a && ad_mut_bool(y) == a && ck_mut_bool(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_bool(200, mk_mut_bool(k), -1.5, k, mk_mut_bool((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; bool & x = mk_mut_bool(k); return o.r_m_mut_bool(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_String(rust::String & x, std::int32_t k) { note(ad_mut_String(x)); if (!ck_mut_String(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_String(k); } return true; }
rust::String & c_make_mut_String(std::uint8_t &, std::int32_t k) { rust::String & x = mk_mut_String(k); note(ad_mut_String(x)); return x; }
rust::String & c_try_mut_String(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::String & x = mk_mut_String(k); note(ad_mut_String(x)); return x; }
rust::String & c_echo_mut_String(rust::String & x, std::int32_t k) { note(ck_mut_String(x, k) ? ad_mut_String(x) : 1); return x; }
bool c_mix_mut_String(std::uint8_t a, rust::String & x, double b, std::int32_t k, rust::String & y, std::uint16_t c) { return a == 200 && ck_mut_String(x, k) && b == -1.5 && ck_mut_String(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_String(rust::String & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_mut_String(x, k); }
bool c_cb_mut_String(rust::Fn<rust::String &(rust::String &, std::int32_t)> f, std::int32_t k) { rust::String & y = f(mk_mut_String(k), k); return ck_mut_String(y, k); }
std::int32_t c_run_mut_String(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::String & x = mk_mut_String(k); auto a = ad_mut_String(x); if (!r_take_mut_String(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_String(cp_String(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { rust::String & x = r_make_mut_String(Z, k); return ck_mut_String(x, k) && (vk_addr_c09c == ad_mut_String(x)) ? 0 : 13; }
 case 2: { rust::String & x = r_try_mut_String(Z, k, false); return ck_mut_String(x, k) && (vk_addr_c09c == ad_mut_String(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_String(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::String & x = mk_mut_String(k); auto a = ad_mut_String(x); rust::String & y = r_echo_mut_String(x, k); return vk_addr_c09c == a && ad_mut_String(y) == a && ck_mut_String(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_String(200, mk_mut_String(k), -1.5, k, mk_mut_String((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::String & x = mk_mut_String(k); return o.r_m_mut_String(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_S2(S2 & x, std::int32_t k) { note(ad_mut_S2(x)); if (!ck_mut_S2(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_S2(k); } return true; }
S2 & c_make_mut_S2(std::uint8_t &, std::int32_t k) { S2 & x = mk_mut_S2(k); note(ad_mut_S2(x)); return x; }
S2 & c_try_mut_S2(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S2 & x = mk_mut_S2(k); note(ad_mut_S2(x)); return x; }
S2 & c_echo_mut_S2(S2 & x, std::int32_t k) { note(ck_mut_S2(x, k) ? ad_mut_S2(x) : 1); return x; }
bool c_mix_mut_S2(std::uint8_t a, S2 & x, double b, std::int32_t k, S2 & y, std::uint16_t c) { return a == 200 && ck_mut_S2(x, k) && b == -1.5 && ck_mut_S2(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_S2(S2 & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_mut_S2(x, k); }
bool c_cb_mut_S2(rust::Fn<S2 &(S2 &, std::int32_t)> f, std::int32_t k) { S2 & y = f(mk_mut_S2(k), k); return ck_mut_S2(y, k); }
std::int32_t c_run_mut_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S2 & x = mk_mut_S2(k); auto a = ad_mut_S2(x); if (!r_take_mut_S2(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_S2(cp_S2(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { S2 & x = r_make_mut_S2(Z, k); return ck_mut_S2(x, k) && (vk_addr_c09c == ad_mut_S2(x)) ? 0 : 13; }
 case 2: { S2 & x = r_try_mut_S2(Z, k, false); return ck_mut_S2(x, k) && (vk_addr_c09c == ad_mut_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_S2(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S2 & x = mk_mut_S2(k); auto a = ad_mut_S2(x); S2 & y = r_echo_mut_S2(x, k); return vk_addr_c09c == a && ad_mut_S2(y) == a && ck_mut_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_S2(200, mk_mut_S2(k), -1.5, k, mk_mut_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S2 & x = mk_mut_S2(k); return o.r_m_mut_S2(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_S7(S7 & x, std::int32_t k) { note(ad_mut_S7(x)); if (!ck_mut_S7(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_S7(k); } return true; }
S7 & c_make_mut_S7(std::uint8_t &, std::int32_t k) { S7 & x = mk_mut_S7(k); note(ad_mut_S7(x)); return x; }
S7 & c_try_mut_S7(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S7 & x = mk_mut_S7(k); note(ad_mut_S7(x)); return x; }
S7 & c_echo_mut_S7(S7 & x, std::int32_t k) { note(ck_mut_S7(x, k) ? ad_mut_S7(x) : 1); return x; }
bool c_mix_mut_S7(std::uint8_t a, S7 & x, double b, std::int32_t k, S7 & y, std::uint16_t c) { return a == 200 && ck_mut_S7(x, k) && b == -1.5 && ck_mut_S7(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_S7(S7 & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_mut_S7(x, k); }
bool c_cb_mut_S7(rust::Fn<S7 &(S7 &, std::int32_t)> f, std::int32_t k) { S7 & y = f(mk_mut_S7(k), k); return ck_mut_S7(y, k); }
std::int32_t c_run_mut_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S7 & x = mk_mut_S7(k); auto a = ad_mut_S7(x); if (!r_take_mut_S7(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_S7(cp_S7(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { S7 & x = r_make_mut_S7(Z, k); return ck_mut_S7(x, k) && (vk_addr_c09c == ad_mut_S7(x)) ? 0 : 13; }
 case 2: { S7 & x = r_try_mut_S7(Z, k, false); return ck_mut_S7(x, k) && (vk_addr_c09c == ad_mut_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_S7(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S7 & x = mk_mut_S7(k); auto a = ad_mut_S7(x); S7 & y = r_echo_mut_S7(x, k); return vk_addr_c09c == a && ad_mut_S7(y) == a && ck_mut_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_S7(200, mk_mut_S7(k), -1.5, k, mk_mut_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S7 & x = mk_mut_S7(k); return o.r_m_mut_S7(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_RObj(RObj & x, std::int32_t k) { note(ad_mut_RObj(x)); if (!ck_mut_RObj(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x.r_set(k); } return true; }
RObj & c_make_mut_RObj(std::uint8_t &, std::int32_t k) { RObj & x = mk_mut_RObj(k); note(ad_mut_RObj(x)); return x; }
RObj & c_try_mut_RObj(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); RObj & x = mk_mut_RObj(k); note(ad_mut_RObj(x)); return x; }
RObj & c_echo_mut_RObj(RObj & x, std::int32_t k) { note(ck_mut_RObj(x, k) ? ad_mut_RObj(x) : 1); return x; }
bool c_mix_mut_RObj(std::uint8_t a, RObj & x, double b, std::int32_t k, RObj & y, std::uint16_t c) { return a == 200 && ck_mut_RObj(x, k) && b == -1.5 && ck_mut_RObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_RObj(RObj & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_mut_RObj(x, k); }
bool c_cb_mut_RObj(rust::Fn<RObj &(RObj &, std::int32_t)> f, std::int32_t k) { RObj & y = f(mk_mut_RObj(k), k); return ck_mut_RObj(y, k); }
std::int32_t c_run_mut_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { RObj & x = mk_mut_RObj(k); auto a = ad_mut_RObj(x); if (!r_take_mut_RObj(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_RObj(cp_RObj(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { RObj & x = r_make_mut_RObj(Z, k); return ck_mut_RObj(x, k) && (vk_addr_c09c == ad_mut_RObj(x)) ? 0 : 13; }
 case 2: { RObj & x = r_try_mut_RObj(Z, k, false); return ck_mut_RObj(x, k) && (vk_addr_c09c == ad_mut_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_RObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { RObj & x = mk_mut_RObj(k); auto a = ad_mut_RObj(x); RObj & y = r_echo_mut_RObj(x, k); return vk_addr_c09c == a && ad_mut_RObj(y) == a && ck_mut_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_RObj(200, mk_mut_RObj(k), -1.5, k, mk_mut_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; RObj & x = mk_mut_RObj(k); return o.r_m_mut_RObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_CObj(CObj & x, std::int32_t k) { note(ad_mut_CObj(x)); if (!ck_mut_CObj(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x.c_set(k); } return true; }
CObj & c_make_mut_CObj(std::uint8_t &, std::int32_t k) { CObj & x = mk_mut_CObj(k); note(ad_mut_CObj(x)); return x; }
CObj & c_try_mut_CObj(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); CObj & x = mk_mut_CObj(k); note(ad_mut_CObj(x)); return x; }
CObj & c_echo_mut_CObj(CObj & x, std::int32_t k) { note(ck_mut_CObj(x, k) ? ad_mut_CObj(x) : 1); return x; }
bool c_mix_mut_CObj(std::uint8_t a, CObj & x, double b, std::int32_t k, CObj & y, std::uint16_t c) { return a == 200 && ck_mut_CObj(x, k) && b == -1.5 && ck_mut_CObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_CObj(CObj & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_mut_CObj(x, k); }
bool c_cb_mut_CObj(rust::Fn<CObj &(CObj &, std::int32_t)> f, std::int32_t k) { CObj & y = f(mk_mut_CObj(k), k); return ck_mut_CObj(y, k); }
std::int32_t c_run_mut_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { CObj & x = mk_mut_CObj(k); auto a = ad_mut_CObj(x); if (!r_take_mut_CObj(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_CObj(cp_CObj(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { CObj & x = r_make_mut_CObj(Z, k); return ck_mut_CObj(x, k) && (vk_addr_c09c == ad_mut_CObj(x)) ? 0 : 13; }
 case 2: { CObj & x = r_try_mut_CObj(Z, k, false); return ck_mut_CObj(x, k) && (vk_addr_c09c == ad_mut_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_CObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { CObj & x = mk_mut_CObj(k); auto a = ad_mut_CObj(x); CObj & y = r_echo_mut_CObj(x, k); return vk_addr_c09c == a && ad_mut_CObj(y) == a && ck_mut_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_CObj(200, mk_mut_CObj(k), -1.5, k, mk_mut_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; CObj & x = mk_mut_CObj(k); return o.r_m_mut_CObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_CxxString(std::string & x, std::int32_t k) { note(ad_mut_CxxString(x)); if (!ck_mut_CxxString(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_CxxString(k); } return true; }
std::string & c_make_mut_CxxString(std::uint8_t &, std::int32_t k) { std::string & x = mk_mut_CxxString(k); note(ad_mut_CxxString(x)); return x; }
std::string & c_try_mut_CxxString(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::string & x = mk_mut_CxxString(k); note(ad_mut_CxxString(x)); return x; }
std::string & c_echo_mut_CxxString(std::string & x, std::int32_t k) { note(ck_mut_CxxString(x, k) ? ad_mut_CxxString(x) : 1); return x; }
bool c_mix_mut_CxxString(std::uint8_t a, std::string & x, double b, std::int32_t k, std::string & y, std::uint16_t c) { return a == 200 && ck_mut_CxxString(x, k) && b == -1.5 && ck_mut_CxxString(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_CxxString(std::string & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_mut_CxxString(x, k); }
bool c_cb_mut_CxxString(rust::Fn<std::string &(std::string &, std::int32_t)> f, std::int32_t k) { std::string & y = f(mk_mut_CxxString(k), k); return ck_mut_CxxString(y, k); }
std::int32_t c_run_mut_CxxString(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::string & x = mk_mut_CxxString(k); auto a = ad_mut_CxxString(x); if (!r_take_mut_CxxString(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_CxxString(cp_CxxString(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { std::string & x = r_make_mut_CxxString(Z, k); return ck_mut_CxxString(x, k) && (vk_addr_c09c == ad_mut_CxxString(x)) ? 0 : 13; }
 case 2: { std::string & x = r_try_mut_CxxString(Z, k, false); return ck_mut_CxxString(x, k) && (vk_addr_c09c == ad_mut_CxxString(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_CxxString(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::string & x = mk_mut_CxxString(k); auto a = ad_mut_CxxString(x); std::string & y = r_echo_mut_CxxString(x, k); return vk_addr_c09c == a && ad_mut_CxxString(y) == a && ck_mut_CxxString(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_CxxString(200, mk_mut_CxxString(k), -1.5, k, mk_mut_CxxString((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::string & x = mk_mut_CxxString(k); return o.r_m_mut_CxxString(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_CxxVector_u8(std::vector<std::uint8_t> & x, std::int32_t k) { note(ad_mut_CxxVector_u8(x)); if (!ck_mut_CxxVector_u8(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_CxxVector_u8(k); } return true; }
std::vector<std::uint8_t> & c_make_mut_CxxVector_u8(std::uint8_t &, std::int32_t k) { std::vector<std::uint8_t> & x = mk_mut_CxxVector_u8(k); note(ad_mut_CxxVector_u8(x)); return x; }
std::vector<std::uint8_t> & c_try_mut_CxxVector_u8(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::vector<std::uint8_t> & x = mk_mut_CxxVector_u8(k); note(ad_mut_CxxVector_u8(x)); return x; }
std::vector<std::uint8_t> & c_echo_mut_CxxVector_u8(std::vector<std::uint8_t> & x, std::int32_t k) { note(ck_mut_CxxVector_u8(x, k) ? ad_mut_CxxVector_u8(x) : 1); return x; }
bool c_mix_mut_CxxVector_u8(std::uint8_t a, std::vector<std::uint8_t> & x, double b, std::int32_t k, std::vector<std::uint8_t> & y, std::uint16_t c) { return a == 200 && ck_mut_CxxVector_u8(x, k) && b == -1.5 && ck_mut_CxxVector_u8(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_CxxVector_u8(std::vector<std::uint8_t> & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_mut_CxxVector_u8(x, k); }
bool c_cb_mut_CxxVector_u8(rust::Fn<std::vector<std::uint8_t> &(std::vector<std::uint8_t> &, std::int32_t)> f, std::int32_t k) { std::vector<std::uint8_t> & y = f(mk_mut_CxxVector_u8(k), k); return ck_mut_CxxVector_u8(y, k); }
std::int32_t c_run_mut_CxxVector_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::vector<std::uint8_t> & x = mk_mut_CxxVector_u8(k); auto a = ad_mut_CxxVector_u8(x); if (!r_take_mut_CxxVector_u8(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_CxxVector_u8(cp_CxxVector_u8(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { std::vector<std::uint8_t> & x = r_make_mut_CxxVector_u8(Z, k); return ck_mut_CxxVector_u8(x, k) && (vk_addr_c09c == ad_mut_CxxVector_u8(x)) ? 0 : 13; }
 case 2: { std::vector<std::uint8_t> & x = r_try_mut_CxxVector_u8(Z, k, false); return ck_mut_CxxVector_u8(x, k) && (vk_addr_c09c == ad_mut_CxxVector_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_CxxVector_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::vector<std::uint8_t> & x = mk_mut_CxxVector_u8(k); auto a = ad_mut_CxxVector_u8(x); std::vector<std::uint8_t> & y = r_echo_mut_CxxVector_u8(x, k); return vk_addr_c09c == a && ad_mut_CxxVector_u8(y) == a && ck_mut_CxxVector_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_CxxVector_u8(200, mk_mut_CxxVector_u8(k), -1.5, k, mk_mut_CxxVector_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::vector<std::uint8_t> & x = mk_mut_CxxVector_u8(k); return o.r_m_mut_CxxVector_u8(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_CxxVector_S2(std::vector<S2> & x, std::int32_t k) { note(ad_mut_CxxVector_S2(x)); if (!ck_mut_CxxVector_S2(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_CxxVector_S2(k); } return true; }
std::vector<S2> & c_make_mut_CxxVector_S2(std::uint8_t &, std::int32_t k) { std::vector<S2> & x = mk_mut_CxxVector_S2(k); note(ad_mut_CxxVector_S2(x)); return x; }
std::vector<S2> & c_try_mut_CxxVector_S2(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::vector<S2> & x = mk_mut_CxxVector_S2(k); note(ad_mut_CxxVector_S2(x)); return x; }
std::vector<S2> & c_echo_mut_CxxVector_S2(std::vector<S2> & x, std::int32_t k) { note(ck_mut_CxxVector_S2(x, k) ? ad_mut_CxxVector_S2(x) : 1); return x; }
bool c_mix_mut_CxxVector_S2(std::uint8_t a, std::vector<S2> & x, double b, std::int32_t k, std::vector<S2> & y, std::uint16_t c) { return a == 200 && ck_mut_CxxVector_S2(x, k) && b == -1.5 && ck_mut_CxxVector_S2(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_CxxVector_S2(std::vector<S2> & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_mut_CxxVector_S2(x, k); }
bool c_cb_mut_CxxVector_S2(rust::Fn<std::vector<S2> &(std::vector<S2> &, std::int32_t)> f, std::int32_t k) { std::vector<S2> & y = f(mk_mut_CxxVector_S2(k), k); return ck_mut_CxxVector_S2(y, k); }
std::int32_t c_run_mut_CxxVector_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::vector<S2> & x = mk_mut_CxxVector_S2(k); auto a = ad_mut_CxxVector_S2(x); if (!r_take_mut_CxxVector_S2(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_CxxVector_S2(cp_CxxVector_S2(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { std::vector<S2> & x = r_make_mut_CxxVector_S2(Z, k); return ck_mut_CxxVector_S2(x, k) && (vk_addr_c09c == ad_mut_CxxVector_S2(x)) ? 0 : 13; }
 case 2: { std::vector<S2> & x = r_try_mut_CxxVector_S2(Z, k, false); return ck_mut_CxxVector_S2(x, k) && (vk_addr_c09c == ad_mut_CxxVector_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_CxxVector_S2(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::vector<S2> & x = mk_mut_CxxVector_S2(k); auto a = ad_mut_CxxVector_S2(x); std::vector<S2> & y = r_echo_mut_CxxVector_S2(x, k); return vk_addr_c09c == a && ad_mut_CxxVector_S2(y) == a && ck_mut_CxxVector_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_CxxVector_S2(200, mk_mut_CxxVector_S2(k), -1.5, k, mk_mut_CxxVector_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::vector<S2> & x = mk_mut_CxxVector_S2(k); return o.r_m_mut_CxxVector_S2(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_Vec_u8(rust::Vec<std::uint8_t> & x, std::int32_t k) { note(ad_mut_Vec_u8(x)); if (!ck_mut_Vec_u8(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_Vec_u8(k); } return true; }
rust::Vec<std::uint8_t> & c_make_mut_Vec_u8(std::uint8_t &, std::int32_t k) { rust::Vec<std::uint8_t> & x = mk_mut_Vec_u8(k); note(ad_mut_Vec_u8(x)); return x; }
rust::Vec<std::uint8_t> & c_try_mut_Vec_u8(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<std::uint8_t> & x = mk_mut_Vec_u8(k); note(ad_mut_Vec_u8(x)); return x; }
rust::Vec<std::uint8_t> & c_echo_mut_Vec_u8(rust::Vec<std::uint8_t> & x, std::int32_t k) { note(ck_mut_Vec_u8(x, k) ? ad_mut_Vec_u8(x) : 1); return x; }
bool c_mix_mut_Vec_u8(std::uint8_t a, rust::Vec<std::uint8_t> & x, double b, std::int32_t k, rust::Vec<std::uint8_t> & y, std::uint16_t c) { return a == 200 && ck_mut_Vec_u8(x, k) && b == -1.5 && ck_mut_Vec_u8(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_Vec_u8(rust::Vec<std::uint8_t> & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_mut_Vec_u8(x, k); }
bool c_cb_mut_Vec_u8(rust::Fn<rust::Vec<std::uint8_t> &(rust::Vec<std::uint8_t> &, std::int32_t)> f, std::int32_t k) { rust::Vec<std::uint8_t> & y = f(mk_mut_Vec_u8(k), k); return ck_mut_Vec_u8(y, k); }
std::int32_t c_run_mut_Vec_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<std::uint8_t> & x = mk_mut_Vec_u8(k); auto a = ad_mut_Vec_u8(x); if (!r_take_mut_Vec_u8(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_Vec_u8(cp_Vec_u8(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { rust::Vec<std::uint8_t> & x = r_make_mut_Vec_u8(Z, k); return ck_mut_Vec_u8(x, k) && (vk_addr_c09c == ad_mut_Vec_u8(x)) ? 0 : 13; }
 case 2: { rust::Vec<std::uint8_t> & x = r_try_mut_Vec_u8(Z, k, false); return ck_mut_Vec_u8(x, k) && (vk_addr_c09c == ad_mut_Vec_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_Vec_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<std::uint8_t> & x = mk_mut_Vec_u8(k); auto a = ad_mut_Vec_u8(x); rust::Vec<std::uint8_t> & y = r_echo_mut_Vec_u8(x, k); return vk_addr_c09c == a && ad_mut_Vec_u8(y) == a && ck_mut_Vec_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_Vec_u8(200, mk_mut_Vec_u8(k), -1.5, k, mk_mut_Vec_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<std::uint8_t> & x = mk_mut_Vec_u8(k); return o.r_m_mut_Vec_u8(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_Vec_String(rust::Vec<rust::String> & x, std::int32_t k) { note(ad_mut_Vec_String(x)); if (!ck_mut_Vec_String(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_Vec_String(k); } return true; }
rust::Vec<rust::String> & c_make_mut_Vec_String(std::uint8_t &, std::int32_t k) { rust::Vec<rust::String> & x = mk_mut_Vec_String(k); note(ad_mut_Vec_String(x)); return x; }
rust::Vec<rust::String> & c_try_mut_Vec_String(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Vec<rust::String> & x = mk_mut_Vec_String(k); note(ad_mut_Vec_String(x)); return x; }
rust::Vec<rust::String> & c_echo_mut_Vec_String(rust::Vec<rust::String> & x, std::int32_t k) { note(ck_mut_Vec_String(x, k) ? ad_mut_Vec_String(x) : 1); return x; }
bool c_mix_mut_Vec_String(std::uint8_t a, rust::Vec<rust::String> & x, double b, std::int32_t k, rust::Vec<rust::String> & y, std::uint16_t c) { return a == 200 && ck_mut_Vec_String(x, k) && b == -1.5 && ck_mut_Vec_String(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_Vec_String(rust::Vec<rust::String> & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_mut_Vec_String(x, k); }
bool c_cb_mut_Vec_String(rust::Fn<rust::Vec<rust::String> &(rust::Vec<rust::String> &, std::int32_t)> f, std::int32_t k) { rust::Vec<rust::String> & y = f(mk_mut_Vec_String(k), k); return ck_mut_Vec_String(y, k); }
std::int32_t c_run_mut_Vec_String(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Vec<rust::String> & x = mk_mut_Vec_String(k); auto a = ad_mut_Vec_String(x); if (!r_take_mut_Vec_String(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_Vec_String(cp_Vec_String(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { rust::Vec<rust::String> & x = r_make_mut_Vec_String(Z, k); return ck_mut_Vec_String(x, k) && (vk_addr_c09c == ad_mut_Vec_String(x)) ? 0 : 13; }
 case 2: { rust::Vec<rust::String> & x = r_try_mut_Vec_String(Z, k, false); return ck_mut_Vec_String(x, k) && (vk_addr_c09c == ad_mut_Vec_String(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_Vec_String(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Vec<rust::String> & x = mk_mut_Vec_String(k); auto a = ad_mut_Vec_String(x); rust::Vec<rust::String> & y = r_echo_mut_Vec_String(x, k); return vk_addr_c09c == a && ad_mut_Vec_String(y) == a && ck_mut_Vec_String(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_Vec_String(200, mk_mut_Vec_String(k), -1.5, k, mk_mut_Vec_String((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Vec<rust::String> & x = mk_mut_Vec_String(k); return o.r_m_mut_Vec_String(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_Box_RObj(rust::Box<RObj> & x, std::int32_t k) { note(ad_mut_Box_RObj(x)); if (!ck_mut_Box_RObj(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_Box_RObj(k); } return true; }
rust::Box<RObj> & c_make_mut_Box_RObj(std::uint8_t &, std::int32_t k) { rust::Box<RObj> & x = mk_mut_Box_RObj(k); note(ad_mut_Box_RObj(x)); return x; }
rust::Box<RObj> & c_try_mut_Box_RObj(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Box<RObj> & x = mk_mut_Box_RObj(k); note(ad_mut_Box_RObj(x)); return x; }
rust::Box<RObj> & c_echo_mut_Box_RObj(rust::Box<RObj> & x, std::int32_t k) { note(ck_mut_Box_RObj(x, k) ? ad_mut_Box_RObj(x) : 1); return x; }
bool c_mix_mut_Box_RObj(std::uint8_t a, rust::Box<RObj> & x, double b, std::int32_t k, rust::Box<RObj> & y, std::uint16_t c) { return a == 200 && ck_mut_Box_RObj(x, k) && b == -1.5 && ck_mut_Box_RObj(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_Box_RObj(rust::Box<RObj> & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_mut_Box_RObj(x, k); }
bool c_cb_mut_Box_RObj(rust::Fn<rust::Box<RObj> &(rust::Box<RObj> &, std::int32_t)> f, std::int32_t k) { rust::Box<RObj> & y = f(mk_mut_Box_RObj(k), k); return ck_mut_Box_RObj(y, k); }
std::int32_t c_run_mut_Box_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Box<RObj> & x = mk_mut_Box_RObj(k); auto a = ad_mut_Box_RObj(x); if (!r_take_mut_Box_RObj(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_Box_RObj(cp_Box_RObj(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { rust::Box<RObj> & x = r_make_mut_Box_RObj(Z, k); return ck_mut_Box_RObj(x, k) && (vk_addr_c09c == ad_mut_Box_RObj(x)) ? 0 : 13; }
 case 2: { rust::Box<RObj> & x = r_try_mut_Box_RObj(Z, k, false); return ck_mut_Box_RObj(x, k) && (vk_addr_c09c == ad_mut_Box_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_Box_RObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Box<RObj> & x = mk_mut_Box_RObj(k); auto a = ad_mut_Box_RObj(x); rust::Box<RObj> & y = r_echo_mut_Box_RObj(x, k); return vk_addr_c09c == a && ad_mut_Box_RObj(y) == a && ck_mut_Box_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_Box_RObj(200, mk_mut_Box_RObj(k), -1.5, k, mk_mut_Box_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Box<RObj> & x = mk_mut_Box_RObj(k); return o.r_m_mut_Box_RObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_UniquePtr_CObj(std::unique_ptr<CObj> & x, std::int32_t k) { note(ad_mut_UniquePtr_CObj(x)); if (!ck_mut_UniquePtr_CObj(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_UniquePtr_CObj(k); } return true; }
std::unique_ptr<CObj> & c_make_mut_UniquePtr_CObj(std::uint8_t &, std::int32_t k) { std::unique_ptr<CObj> & x = mk_mut_UniquePtr_CObj(k); note(ad_mut_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> & c_try_mut_UniquePtr_CObj(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<CObj> & x = mk_mut_UniquePtr_CObj(k); note(ad_mut_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> & c_echo_mut_UniquePtr_CObj(std::unique_ptr<CObj> & x, std::int32_t k) { note(ck_mut_UniquePtr_CObj(x, k) ? ad_mut_UniquePtr_CObj(x) : 1); return x; }
bool c_mix_mut_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> & x, double b, std::int32_t k, std::unique_ptr<CObj> & y, std::uint16_t c) { return a == 200 && ck_mut_UniquePtr_CObj(x, k) && b == -1.5 && ck_mut_UniquePtr_CObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_UniquePtr_CObj(std::unique_ptr<CObj> & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_mut_UniquePtr_CObj(x, k); }
bool c_cb_mut_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj> &(std::unique_ptr<CObj> &, std::int32_t)> f, std::int32_t k) { std::unique_ptr<CObj> & y = f(mk_mut_UniquePtr_CObj(k), k); return ck_mut_UniquePtr_CObj(y, k); }
std::int32_t c_run_mut_UniquePtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<CObj> & x = mk_mut_UniquePtr_CObj(k); auto a = ad_mut_UniquePtr_CObj(x); if (!r_take_mut_UniquePtr_CObj(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_UniquePtr_CObj(cp_UniquePtr_CObj(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { std::unique_ptr<CObj> & x = r_make_mut_UniquePtr_CObj(Z, k); return ck_mut_UniquePtr_CObj(x, k) && (vk_addr_c09c == ad_mut_UniquePtr_CObj(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<CObj> & x = r_try_mut_UniquePtr_CObj(Z, k, false); return ck_mut_UniquePtr_CObj(x, k) && (vk_addr_c09c == ad_mut_UniquePtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_UniquePtr_CObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<CObj> & x = mk_mut_UniquePtr_CObj(k); auto a = ad_mut_UniquePtr_CObj(x); std::unique_ptr<CObj> & y = r_echo_mut_UniquePtr_CObj(x, k); return vk_addr_c09c == a && ad_mut_UniquePtr_CObj(y) == a && ck_mut_UniquePtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_UniquePtr_CObj(200, mk_mut_UniquePtr_CObj(k), -1.5, k, mk_mut_UniquePtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::unique_ptr<CObj> & x = mk_mut_UniquePtr_CObj(k); return o.r_m_mut_UniquePtr_CObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_SharedPtr_CObj(std::shared_ptr<CObj> & x, std::int32_t k) { note(ad_mut_SharedPtr_CObj(x)); if (!ck_mut_SharedPtr_CObj(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_SharedPtr_CObj(k); } return true; }
std::shared_ptr<CObj> & c_make_mut_SharedPtr_CObj(std::uint8_t &, std::int32_t k) { std::shared_ptr<CObj> & x = mk_mut_SharedPtr_CObj(k); note(ad_mut_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> & c_try_mut_SharedPtr_CObj(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<CObj> & x = mk_mut_SharedPtr_CObj(k); note(ad_mut_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> & c_echo_mut_SharedPtr_CObj(std::shared_ptr<CObj> & x, std::int32_t k) { note(ck_mut_SharedPtr_CObj(x, k) ? ad_mut_SharedPtr_CObj(x) : 1); return x; }
bool c_mix_mut_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> & x, double b, std::int32_t k, std::shared_ptr<CObj> & y, std::uint16_t c) { return a == 200 && ck_mut_SharedPtr_CObj(x, k) && b == -1.5 && ck_mut_SharedPtr_CObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_SharedPtr_CObj(std::shared_ptr<CObj> & x, std::int32_t k) { return ck_CObj(*this, 2) && ck_mut_SharedPtr_CObj(x, k); }
bool c_cb_mut_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj> &(std::shared_ptr<CObj> &, std::int32_t)> f, std::int32_t k) { std::shared_ptr<CObj> & y = f(mk_mut_SharedPtr_CObj(k), k); return ck_mut_SharedPtr_CObj(y, k); }
std::int32_t c_run_mut_SharedPtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<CObj> & x = mk_mut_SharedPtr_CObj(k); auto a = ad_mut_SharedPtr_CObj(x); if (!r_take_mut_SharedPtr_CObj(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_SharedPtr_CObj(cp_SharedPtr_CObj(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { std::shared_ptr<CObj> & x = r_make_mut_SharedPtr_CObj(Z, k); return ck_mut_SharedPtr_CObj(x, k) && (vk_addr_c09c == ad_mut_SharedPtr_CObj(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<CObj> & x = r_try_mut_SharedPtr_CObj(Z, k, false); return ck_mut_SharedPtr_CObj(x, k) && (vk_addr_c09c == ad_mut_SharedPtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_SharedPtr_CObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<CObj> & x = mk_mut_SharedPtr_CObj(k); auto a = ad_mut_SharedPtr_CObj(x); std::shared_ptr<CObj> & y = r_echo_mut_SharedPtr_CObj(x, k); return vk_addr_c09c == a && ad_mut_SharedPtr_CObj(y) == a && ck_mut_SharedPtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_SharedPtr_CObj(200, mk_mut_SharedPtr_CObj(k), -1.5, k, mk_mut_SharedPtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::shared_ptr<CObj> & x = mk_mut_SharedPtr_CObj(k); return o.r_m_mut_SharedPtr_CObj(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_Ei32(Ei32 & x, std::int32_t k) { note(ad_mut_Ei32(x)); if (!ck_mut_Ei32(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_Ei32(k); } return true; }
Ei32 & c_make_mut_Ei32(std::uint8_t &, std::int32_t k) { Ei32 & x = mk_mut_Ei32(k); note(ad_mut_Ei32(x)); return x; }
Ei32 & c_try_mut_Ei32(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); Ei32 & x = mk_mut_Ei32(k); note(ad_mut_Ei32(x)); return x; }
Ei32 & c_echo_mut_Ei32(Ei32 & x, std::int32_t k) { note(ck_mut_Ei32(x, k) ? ad_mut_Ei32(x) : 1); return x; }
bool c_mix_mut_Ei32(std::uint8_t a, Ei32 & x, double b, std::int32_t k, Ei32 & y, std::uint16_t c) { return a == 200 && ck_mut_Ei32(x, k) && b == -1.5 && ck_mut_Ei32(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_Ei32(Ei32 & x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_mut_Ei32(x, k); }
bool c_cb_mut_Ei32(rust::Fn<Ei32 &(Ei32 &, std::int32_t)> f, std::int32_t k) { Ei32 & y = f(mk_mut_Ei32(k), k); return ck_mut_Ei32(y, k); }
std::int32_t c_run_mut_Ei32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { Ei32 & x = mk_mut_Ei32(k); auto a = ad_mut_Ei32(x); if (!r_take_mut_Ei32(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_Ei32(cp_Ei32(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { Ei32 & x = r_make_mut_Ei32(Z, k); return ck_mut_Ei32(x, k) && (vk_addr_c09c == ad_mut_Ei32(x)) ? 0 : 13; }
 case 2: { Ei32 & x = r_try_mut_Ei32(Z, k, false); return ck_mut_Ei32(x, k) && (vk_addr_c09c == ad_mut_Ei32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_Ei32(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { Ei32 & x = mk_mut_Ei32(k); auto a = ad_mut_Ei32(x); Ei32 & y = r_echo_mut_Ei32(x, k); return vk_addr_c09c == a && ad_mut_Ei32(y) == a && ck_mut_Ei32(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_Ei32(200, mk_mut_Ei32(k), -1.5, k, mk_mut_Ei32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; Ei32 & x = mk_mut_Ei32(k); return o.r_m_mut_Ei32(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_TrivB(TrivB & x, std::int32_t k) { note(ad_mut_TrivB(x)); if (!ck_mut_TrivB(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_TrivB(k); } return true; }
TrivB & c_make_mut_TrivB(std::uint8_t &, std::int32_t k) { TrivB & x = mk_mut_TrivB(k); note(ad_mut_TrivB(x)); return x; }
TrivB & c_try_mut_TrivB(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); TrivB & x = mk_mut_TrivB(k); note(ad_mut_TrivB(x)); return x; }
TrivB & c_echo_mut_TrivB(TrivB & x, std::int32_t k) { note(ck_mut_TrivB(x, k) ? ad_mut_TrivB(x) : 1); return x; }
bool c_mix_mut_TrivB(std::uint8_t a, TrivB & x, double b, std::int32_t k, TrivB & y, std::uint16_t c) { return a == 200 && ck_mut_TrivB(x, k) && b == -1.5 && ck_mut_TrivB(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_mut_TrivB(TrivB & x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_mut_TrivB(x, k); }
bool c_cb_mut_TrivB(rust::Fn<TrivB &(TrivB &, std::int32_t)> f, std::int32_t k) { TrivB & y = f(mk_mut_TrivB(k), k); return ck_mut_TrivB(y, k); }
std::int32_t c_run_mut_TrivB(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { TrivB & x = mk_mut_TrivB(k); auto a = ad_mut_TrivB(x); if (!r_take_mut_TrivB(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_TrivB(cp_TrivB(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { TrivB & x = r_make_mut_TrivB(Z, k); return ck_mut_TrivB(x, k) && (vk_addr_c09c == ad_mut_TrivB(x)) ? 0 : 13; }
 case 2: { TrivB & x = r_try_mut_TrivB(Z, k, false); return ck_mut_TrivB(x, k) && (vk_addr_c09c == ad_mut_TrivB(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_TrivB(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { TrivB & x = mk_mut_TrivB(k); auto a = ad_mut_TrivB(x); TrivB & y = r_echo_mut_TrivB(x, k); return vk_addr_c09c == a && ad_mut_TrivB(y) == a && ck_mut_TrivB(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_TrivB(200, mk_mut_TrivB(k), -1.5, k, mk_mut_TrivB((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; TrivB & x = mk_mut_TrivB(k); return o.r_m_mut_TrivB(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_mut_arr3_S2(std::array<S2, 3> & x, std::int32_t k) { note(ad_mut_arr3_S2(x)); if (!ck_mut_arr3_S2(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; x = mk_arr3_S2(k); } return true; }
std::array<S2, 3> & c_make_mut_arr3_S2(std::uint8_t &, std::int32_t k) { std::array<S2, 3> & x = mk_mut_arr3_S2(k); note(ad_mut_arr3_S2(x)); return x; }
std::array<S2, 3> & c_try_mut_arr3_S2(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::array<S2, 3> & x = mk_mut_arr3_S2(k); note(ad_mut_arr3_S2(x)); return x; }
std::array<S2, 3> & c_echo_mut_arr3_S2(std::array<S2, 3> & x, std::int32_t k) { note(ck_mut_arr3_S2(x, k) ? ad_mut_arr3_S2(x) : 1); return x; }
bool c_mix_mut_arr3_S2(std::uint8_t a, std::array<S2, 3> & x, double b, std::int32_t k, std::array<S2, 3> & y, std::uint16_t c) { return a == 200 && ck_mut_arr3_S2(x, k) && b == -1.5 && ck_mut_arr3_S2(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_mut_arr3_S2(std::array<S2, 3> & x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_mut_arr3_S2(x, k); }
bool c_cb_mut_arr3_S2(rust::Fn<std::array<S2, 3> &(std::array<S2, 3> &, std::int32_t)> f, std::int32_t k) { std::array<S2, 3> & y = f(mk_mut_arr3_S2(k), k); return ck_mut_arr3_S2(y, k); }
std::int32_t c_run_mut_arr3_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::array<S2, 3> & x = mk_mut_arr3_S2(k); auto a = ad_mut_arr3_S2(x); if (!r_take_mut_arr3_S2(x, k)) return 10; if (vk_addr_c09c != a) return 11; if (!ck_mut_arr3_S2(cp_arr3_S2(k), (k + 1) & 3)) return 12; return 0; }
 case 1: { std::array<S2, 3> & x = r_make_mut_arr3_S2(Z, k); return ck_mut_arr3_S2(x, k) && (vk_addr_c09c == ad_mut_arr3_S2(x)) ? 0 : 13; }
 case 2: { std::array<S2, 3> & x = r_try_mut_arr3_S2(Z, k, false); return ck_mut_arr3_S2(x, k) && (vk_addr_c09c == ad_mut_arr3_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_mut_arr3_S2(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::array<S2, 3> & x = mk_mut_arr3_S2(k); auto a = ad_mut_arr3_S2(x); std::array<S2, 3> & y = r_echo_mut_arr3_S2(x, k); return vk_addr_c09c == a && ad_mut_arr3_S2(y) == a && ck_mut_arr3_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_mut_arr3_S2(200, mk_mut_arr3_S2(k), -1.5, k, mk_mut_arr3_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::array<S2, 3> & x = mk_mut_arr3_S2(k); return o.r_m_mut_arr3_S2(x, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_u8(rust::Slice<const std::uint8_t> x, std::int32_t k) { note(ad_sl_u8(x)); if (!ck_sl_u8(x, k)) return false; return true; }
rust::Slice<const std::uint8_t> c_make_sl_u8(std::uint8_t const &, std::int32_t k) { rust::Slice<const std::uint8_t> x = mk_sl_u8(k); note(ad_sl_u8(x)); return x; }
rust::Slice<const std::uint8_t> c_try_sl_u8(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const std::uint8_t> x = mk_sl_u8(k); note(ad_sl_u8(x)); return x; }
rust::Slice<const std::uint8_t> c_echo_sl_u8(rust::Slice<const std::uint8_t> x, std::int32_t k) { note(ck_sl_u8(x, k) ? ad_sl_u8(x) : 1); return x; }
bool c_mix_sl_u8(std::uint8_t a, rust::Slice<const std::uint8_t> x, double b, std::int32_t k, rust::Slice<const std::uint8_t> y, std::uint16_t c) { return a == 200 && ck_sl_u8(x, k) && b == -1.5 && ck_sl_u8(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_sl_u8(rust::Slice<const std::uint8_t> x, std::int32_t k) { return ck_CObj(*this, 2) && ck_sl_u8(x, k); }
bool c_cb_sl_u8(rust::Fn<rust::Slice<const std::uint8_t>(rust::Slice<const std::uint8_t>, std::int32_t)> f, std::int32_t k) { rust::Slice<const std::uint8_t> y = f(mk_sl_u8(k), k); return ck_sl_u8(y, k); }
std::int32_t c_run_sl_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const std::uint8_t> x = mk_sl_u8(k); auto a = ad_sl_u8(x); if (!r_take_sl_u8(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const std::uint8_t> x = r_make_sl_u8(Z, k); return ck_sl_u8(x, k) && (vk_addr_c09c == ad_sl_u8(x)) ? 0 : 13; }
 case 2: { rust::Slice<const std::uint8_t> x = r_try_sl_u8(Z, k, false); return ck_sl_u8(x, k) && (vk_addr_c09c == ad_sl_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const std::uint8_t> x = mk_sl_u8(k); auto a = ad_sl_u8(x); rust::Slice<const std::uint8_t> y = r_echo_sl_u8(std::move(x), k); return vk_addr_c09c == a && ad_sl_u8(y) == a && ck_sl_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_u8(200, mk_sl_u8(k), -1.5, k, mk_sl_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const std::uint8_t> x = mk_sl_u8(k); return o.r_m_sl_u8(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_u16(rust::Slice<const std::uint16_t> x, std::int32_t k) { note(ad_sl_u16(x)); if (!ck_sl_u16(x, k)) return false; return true; }
rust::Slice<const std::uint16_t> c_make_sl_u16(std::uint8_t const &, std::int32_t k) { rust::Slice<const std::uint16_t> x = mk_sl_u16(k); note(ad_sl_u16(x)); return x; }
rust::Slice<const std::uint16_t> c_try_sl_u16(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const std::uint16_t> x = mk_sl_u16(k); note(ad_sl_u16(x)); return x; }
rust::Slice<const std::uint16_t> c_echo_sl_u16(rust::Slice<const std::uint16_t> x, std::int32_t k) { note(ck_sl_u16(x, k) ? ad_sl_u16(x) : 1); return x; }
bool c_mix_sl_u16(std::uint8_t a, rust::Slice<const std::uint16_t> x, double b, std::int32_t k, rust::Slice<const std::uint16_t> y, std::uint16_t c) { return a == 200 && ck_sl_u16(x, k) && b == -1.5 && ck_sl_u16(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_u16(rust::Slice<const std::uint16_t> x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_sl_u16(x, k); }
bool c_cb_sl_u16(rust::Fn<rust::Slice<const std::uint16_t>(rust::Slice<const std::uint16_t>, std::int32_t)> f, std::int32_t k) { rust::Slice<const std::uint16_t> y = f(mk_sl_u16(k), k); return ck_sl_u16(y, k); }
std::int32_t c_run_sl_u16(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const std::uint16_t> x = mk_sl_u16(k); auto a = ad_sl_u16(x); if (!r_take_sl_u16(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const std::uint16_t> x = r_make_sl_u16(Z, k); return ck_sl_u16(x, k) && (vk_addr_c09c == ad_sl_u16(x)) ? 0 : 13; }
 case 2: { rust::Slice<const std::uint16_t> x = r_try_sl_u16(Z, k, false); return ck_sl_u16(x, k) && (vk_addr_c09c == ad_sl_u16(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_u16(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const std::uint16_t> x = mk_sl_u16(k); auto a = ad_sl_u16(x); rust::Slice<const std::uint16_t> y = r_echo_sl_u16(std::move(x), k); return vk_addr_c09c == a && ad_sl_u16(y) == a && ck_sl_u16(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_u16(200, mk_sl_u16(k), -1.5, k, mk_sl_u16((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const std::uint16_t> x = mk_sl_u16(k); return o.r_m_sl_u16(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_i32(rust::Slice<const std::int32_t> x, std::int32_t k) { note(ad_sl_i32(x)); if (!ck_sl_i32(x, k)) return false; return true; }
rust::Slice<const std::int32_t> c_make_sl_i32(std::uint8_t const &, std::int32_t k) { rust::Slice<const std::int32_t> x = mk_sl_i32(k); note(ad_sl_i32(x)); return x; }
rust::Slice<const std::int32_t> c_try_sl_i32(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const std::int32_t> x = mk_sl_i32(k); note(ad_sl_i32(x)); return x; }
rust::Slice<const std::int32_t> c_echo_sl_i32(rust::Slice<const std::int32_t> x, std::int32_t k) { note(ck_sl_i32(x, k) ? ad_sl_i32(x) : 1); return x; }
bool c_mix_sl_i32(std::uint8_t a, rust::Slice<const std::int32_t> x, double b, std::int32_t k, rust::Slice<const std::int32_t> y, std::uint16_t c) { return a == 200 && ck_sl_i32(x, k) && b == -1.5 && ck_sl_i32(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_i32(rust::Slice<const std::int32_t> x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_sl_i32(x, k); }
bool c_cb_sl_i32(rust::Fn<rust::Slice<const std::int32_t>(rust::Slice<const std::int32_t>, std::int32_t)> f, std::int32_t k) { rust::Slice<const std::int32_t> y = f(mk_sl_i32(k), k); return ck_sl_i32(y, k); }
std::int32_t c_run_sl_i32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const std::int32_t> x = mk_sl_i32(k); auto a = ad_sl_i32(x); if (!r_take_sl_i32(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const std::int32_t> x = r_make_sl_i32(Z, k); return ck_sl_i32(x, k) && (vk_addr_c09c == ad_sl_i32(x)) ? 0 : 13; }
 case 2: { rust::Slice<const std::int32_t> x = r_try_sl_i32(Z, k, false); return ck_sl_i32(x, k) && (vk_addr_c09c == ad_sl_i32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_i32(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const std::int32_t> x = mk_sl_i32(k); auto a = ad_sl_i32(x); rust::Slice<const std::int32_t> y = r_echo_sl_i32(std::move(x), k); return vk_addr_c09c == a && ad_sl_i32(y) == a && ck_sl_i32(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_i32(200, mk_sl_i32(k), -1.5, k, mk_sl_i32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<const std::int32_t> x = mk_sl_i32(k); return o.r_m_sl_i32(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_f64(rust::Slice<const double> x, std::int32_t k) { note(ad_sl_f64(x)); if (!ck_sl_f64(x, k)) return false; return true; }
rust::Slice<const double> c_make_sl_f64(std::uint8_t const &, std::int32_t k) { rust::Slice<const double> x = mk_sl_f64(k); note(ad_sl_f64(x)); return x; }
rust::Slice<const double> c_try_sl_f64(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const double> x = mk_sl_f64(k); note(ad_sl_f64(x)); return x; }
rust::Slice<const double> c_echo_sl_f64(rust::Slice<const double> x, std::int32_t k) { note(ck_sl_f64(x, k) ? ad_sl_f64(x) : 1); return x; }
bool c_mix_sl_f64(std::uint8_t a, rust::Slice<const double> x, double b, std::int32_t k, rust::Slice<const double> y, std::uint16_t c) { return a == 200 && ck_sl_f64(x, k) && b == -1.5 && ck_sl_f64(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_sl_f64(rust::Slice<const double> x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_sl_f64(x, k); }
bool c_cb_sl_f64(rust::Fn<rust::Slice<const double>(rust::Slice<const double>, std::int32_t)> f, std::int32_t k) { rust::Slice<const double> y = f(mk_sl_f64(k), k); return ck_sl_f64(y, k); }
std::int32_t c_run_sl_f64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const double> x = mk_sl_f64(k); auto a = ad_sl_f64(x); if (!r_take_sl_f64(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const double> x = r_make_sl_f64(Z, k); return ck_sl_f64(x, k) && (vk_addr_c09c == ad_sl_f64(x)) ? 0 : 13; }
 case 2: { rust::Slice<const double> x = r_try_sl_f64(Z, k, false); return ck_sl_f64(x, k) && (vk_addr_c09c == ad_sl_f64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_f64(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const double> x = mk_sl_f64(k); auto a = ad_sl_f64(x); rust::Slice<const double> y = r_echo_sl_f64(std::move(x), k); return vk_addr_c09c == a && ad_sl_f64(y) == a && ck_sl_f64(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_f64(200, mk_sl_f64(k), -1.5, k, mk_sl_f64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<const double> x = mk_sl_f64(k); return o.r_m_sl_f64(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_bool(rust::Slice<const bool> x, std::int32_t k) { note(ad_sl_bool(x)); if (!ck_sl_bool(x, k)) return false; return true; }
rust::Slice<const bool> c_make_sl_bool(std::uint8_t const &, std::int32_t k) { rust::Slice<const bool> x = mk_sl_bool(k); note(ad_sl_bool(x)); return x; }
rust::Slice<const bool> c_try_sl_bool(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const bool> x = mk_sl_bool(k); note(ad_sl_bool(x)); return x; }
rust::Slice<const bool> c_echo_sl_bool(rust::Slice<const bool> x, std::int32_t k) { note(ck_sl_bool(x, k) ? ad_sl_bool(x) : 1); return x; }
bool c_mix_sl_bool(std::uint8_t a, rust::Slice<const bool> x, double b, std::int32_t k, rust::Slice<const bool> y, std::uint16_t c) { return a == 200 && ck_sl_bool(x, k) && b == -1.5 && ck_sl_bool(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_sl_bool(rust::Slice<const bool> x, std::int32_t k) { return ck_CObj(*this, 2) && ck_sl_bool(x, k); }
bool c_cb_sl_bool(rust::Fn<rust::Slice<const bool>(rust::Slice<const bool>, std::int32_t)> f, std::int32_t k) { rust::Slice<const bool> y = f(mk_sl_bool(k), k); return ck_sl_bool(y, k); }
std::int32_t c_run_sl_bool(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const bool> x = mk_sl_bool(k); auto a = ad_sl_bool(x); if (!r_take_sl_bool(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const bool> x = r_make_sl_bool(Z, k); return ck_sl_bool(x, k) && (vk_addr_c09c == ad_sl_bool(x)) ? 0 : 13; }
 case 2: { rust::Slice<const bool> x = r_try_sl_bool(Z, k, false); return ck_sl_bool(x, k) && (vk_addr_c09c == ad_sl_bool(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_bool(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const bool> x = mk_sl_bool(k); auto a = ad_sl_bool(x); rust::Slice<const bool> y = r_echo_sl_bool(std::move(x), k); return vk_addr_c09c == a && ad_sl_bool(y) == a && ck_sl_bool(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_bool(200, mk_sl_bool(k), -1.5, k, mk_sl_bool((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const bool> x = mk_sl_bool(k); return o.r_m_sl_bool(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_usize(rust::Slice<const std::size_t> x, std::int32_t k) { note(ad_sl_usize(x)); if (!ck_sl_usize(x, k)) return false; return true; }
rust::Slice<const std::size_t> c_make_sl_usize(std::uint8_t const &, std::int32_t k) { rust::Slice<const std::size_t> x = mk_sl_usize(k); note(ad_sl_usize(x)); return x; }
rust::Slice<const std::size_t> c_try_sl_usize(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const std::size_t> x = mk_sl_usize(k); note(ad_sl_usize(x)); return x; }
rust::Slice<const std::size_t> c_echo_sl_usize(rust::Slice<const std::size_t> x, std::int32_t k) { note(ck_sl_usize(x, k) ? ad_sl_usize(x) : 1); return x; }
bool c_mix_sl_usize(std::uint8_t a, rust::Slice<const std::size_t> x, double b, std::int32_t k, rust::Slice<const std::size_t> y, std::uint16_t c) { return a == 200 && ck_sl_usize(x, k) && b == -1.5 && ck_sl_usize(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_usize(rust::Slice<const std::size_t> x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_sl_usize(x, k); }
bool c_cb_sl_usize(rust::Fn<rust::Slice<const std::size_t>(rust::Slice<const std::size_t>, std::int32_t)> f, std::int32_t k) { rust::Slice<const std::size_t> y = f(mk_sl_usize(k), k); return ck_sl_usize(y, k); }
std::int32_t c_run_sl_usize(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const std::size_t> x = mk_sl_usize(k); auto a = ad_sl_usize(x); if (!r_take_sl_usize(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const std::size_t> x = r_make_sl_usize(Z, k); return ck_sl_usize(x, k) && (vk_addr_c09c == ad_sl_usize(x)) ? 0 : 13; }
 case 2: { rust::Slice<const std::size_t> x = r_try_sl_usize(Z, k, false); return ck_sl_usize(x, k) && (vk_addr_c09c == ad_sl_usize(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_usize(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const std::size_t> x = mk_sl_usize(k); auto a = ad_sl_usize(x); rust::Slice<const std::size_t> y = r_echo_sl_usize(std::move(x), k); return vk_addr_c09c == a && ad_sl_usize(y) == a && ck_sl_usize(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_usize(200, mk_sl_usize(k), -1.5, k, mk_sl_usize((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const std::size_t> x = mk_sl_usize(k); return o.r_m_sl_usize(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_c_char(rust::Slice<const char> x, std::int32_t k) { note(ad_sl_c_char(x)); if (!ck_sl_c_char(x, k)) return false; return true; }
rust::Slice<const char> c_make_sl_c_char(std::uint8_t const &, std::int32_t k) { rust::Slice<const char> x = mk_sl_c_char(k); note(ad_sl_c_char(x)); return x; }
rust::Slice<const char> c_try_sl_c_char(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const char> x = mk_sl_c_char(k); note(ad_sl_c_char(x)); return x; }
rust::Slice<const char> c_echo_sl_c_char(rust::Slice<const char> x, std::int32_t k) { note(ck_sl_c_char(x, k) ? ad_sl_c_char(x) : 1); return x; }
bool c_mix_sl_c_char(std::uint8_t a, rust::Slice<const char> x, double b, std::int32_t k, rust::Slice<const char> y, std::uint16_t c) { return a == 200 && ck_sl_c_char(x, k) && b == -1.5 && ck_sl_c_char(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_c_char(rust::Slice<const char> x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_sl_c_char(x, k); }
bool c_cb_sl_c_char(rust::Fn<rust::Slice<const char>(rust::Slice<const char>, std::int32_t)> f, std::int32_t k) { rust::Slice<const char> y = f(mk_sl_c_char(k), k); return ck_sl_c_char(y, k); }
std::int32_t c_run_sl_c_char(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const char> x = mk_sl_c_char(k); auto a = ad_sl_c_char(x); if (!r_take_sl_c_char(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const char> x = r_make_sl_c_char(Z, k); return ck_sl_c_char(x, k) && (vk_addr_c09c == ad_sl_c_char(x)) ? 0 : 13; }
 case 2: { rust::Slice<const char> x = r_try_sl_c_char(Z, k, false); return ck_sl_c_char(x, k) && (vk_addr_c09c == ad_sl_c_char(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_c_char(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const char> x = mk_sl_c_char(k); auto a = ad_sl_c_char(x); rust::Slice<const char> y = r_echo_sl_c_char(std::move(x), k); return vk_addr_c09c == a && ad_sl_c_char(y) == a && ck_sl_c_char(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_c_char(200, mk_sl_c_char(k), -1.5, k, mk_sl_c_char((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<const char> x = mk_sl_c_char(k); return o.r_m_sl_c_char(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_String(rust::Slice<const rust::String> x, std::int32_t k) { note(ad_sl_String(x)); if (!ck_sl_String(x, k)) return false; return true; }
rust::Slice<const rust::String> c_make_sl_String(std::uint8_t const &, std::int32_t k) { rust::Slice<const rust::String> x = mk_sl_String(k); note(ad_sl_String(x)); return x; }
rust::Slice<const rust::String> c_try_sl_String(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const rust::String> x = mk_sl_String(k); note(ad_sl_String(x)); return x; }
rust::Slice<const rust::String> c_echo_sl_String(rust::Slice<const rust::String> x, std::int32_t k) { note(ck_sl_String(x, k) ? ad_sl_String(x) : 1); return x; }
bool c_mix_sl_String(std::uint8_t a, rust::Slice<const rust::String> x, double b, std::int32_t k, rust::Slice<const rust::String> y, std::uint16_t c) { return a == 200 && ck_sl_String(x, k) && b == -1.5 && ck_sl_String(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_sl_String(rust::Slice<const rust::String> x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_sl_String(x, k); }
bool c_cb_sl_String(rust::Fn<rust::Slice<const rust::String>(rust::Slice<const rust::String>, std::int32_t)> f, std::int32_t k) { rust::Slice<const rust::String> y = f(mk_sl_String(k), k); return ck_sl_String(y, k); }
std::int32_t c_run_sl_String(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const rust::String> x = mk_sl_String(k); auto a = ad_sl_String(x); if (!r_take_sl_String(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const rust::String> x = r_make_sl_String(Z, k); return ck_sl_String(x, k) && (vk_addr_c09c == ad_sl_String(x)) ? 0 : 13; }
 case 2: { rust::Slice<const rust::String> x = r_try_sl_String(Z, k, false); return ck_sl_String(x, k) && (vk_addr_c09c == ad_sl_String(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_String(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const rust::String> x = mk_sl_String(k); auto a = ad_sl_String(x); rust::Slice<const rust::String> y = r_echo_sl_String(std::move(x), k); return vk_addr_c09c == a && ad_sl_String(y) == a && ck_sl_String(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_String(200, mk_sl_String(k), -1.5, k, mk_sl_String((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<const rust::String> x = mk_sl_String(k); return o.r_m_sl_String(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_S2(rust::Slice<const S2> x, std::int32_t k) { note(ad_sl_S2(x)); if (!ck_sl_S2(x, k)) return false; return true; }
rust::Slice<const S2> c_make_sl_S2(std::uint8_t const &, std::int32_t k) { rust::Slice<const S2> x = mk_sl_S2(k); note(ad_sl_S2(x)); return x; }
rust::Slice<const S2> c_try_sl_S2(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const S2> x = mk_sl_S2(k); note(ad_sl_S2(x)); return x; }
rust::Slice<const S2> c_echo_sl_S2(rust::Slice<const S2> x, std::int32_t k) { note(ck_sl_S2(x, k) ? ad_sl_S2(x) : 1); return x; }
bool c_mix_sl_S2(std::uint8_t a, rust::Slice<const S2> x, double b, std::int32_t k, rust::Slice<const S2> y, std::uint16_t c) { return a == 200 && ck_sl_S2(x, k) && b == -1.5 && ck_sl_S2(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_sl_S2(rust::Slice<const S2> x, std::int32_t k) { return ck_CObj(*this, 2) && ck_sl_S2(x, k); }
bool c_cb_sl_S2(rust::Fn<rust::Slice<const S2>(rust::Slice<const S2>, std::int32_t)> f, std::int32_t k) { rust::Slice<const S2> y = f(mk_sl_S2(k), k); return ck_sl_S2(y, k); }
std::int32_t c_run_sl_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const S2> x = mk_sl_S2(k); auto a = ad_sl_S2(x); if (!r_take_sl_S2(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const S2> x = r_make_sl_S2(Z, k); return ck_sl_S2(x, k) && (vk_addr_c09c == ad_sl_S2(x)) ? 0 : 13; }
 case 2: { rust::Slice<const S2> x = r_try_sl_S2(Z, k, false); return ck_sl_S2(x, k) && (vk_addr_c09c == ad_sl_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_S2(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const S2> x = mk_sl_S2(k); auto a = ad_sl_S2(x); rust::Slice<const S2> y = r_echo_sl_S2(std::move(x), k); return vk_addr_c09c == a && ad_sl_S2(y) == a && ck_sl_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_S2(200, mk_sl_S2(k), -1.5, k, mk_sl_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const S2> x = mk_sl_S2(k); return o.r_m_sl_S2(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_S7(rust::Slice<const S7> x, std::int32_t k) { note(ad_sl_S7(x)); if (!ck_sl_S7(x, k)) return false; return true; }
rust::Slice<const S7> c_make_sl_S7(std::uint8_t const &, std::int32_t k) { rust::Slice<const S7> x = mk_sl_S7(k); note(ad_sl_S7(x)); return x; }
rust::Slice<const S7> c_try_sl_S7(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const S7> x = mk_sl_S7(k); note(ad_sl_S7(x)); return x; }
rust::Slice<const S7> c_echo_sl_S7(rust::Slice<const S7> x, std::int32_t k) { note(ck_sl_S7(x, k) ? ad_sl_S7(x) : 1); return x; }
bool c_mix_sl_S7(std::uint8_t a, rust::Slice<const S7> x, double b, std::int32_t k, rust::Slice<const S7> y, std::uint16_t c) { return a == 200 && ck_sl_S7(x, k) && b == -1.5 && ck_sl_S7(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_S7(rust::Slice<const S7> x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_sl_S7(x, k); }
bool c_cb_sl_S7(rust::Fn<rust::Slice<const S7>(rust::Slice<const S7>, std::int32_t)> f, std::int32_t k) { rust::Slice<const S7> y = f(mk_sl_S7(k), k); return ck_sl_S7(y, k); }
std::int32_t c_run_sl_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const S7> x = mk_sl_S7(k); auto a = ad_sl_S7(x); if (!r_take_sl_S7(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const S7> x = r_make_sl_S7(Z, k); return ck_sl_S7(x, k) && (vk_addr_c09c == ad_sl_S7(x)) ? 0 : 13; }
 case 2: { rust::Slice<const S7> x = r_try_sl_S7(Z, k, false); return ck_sl_S7(x, k) && (vk_addr_c09c == ad_sl_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_S7(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const S7> x = mk_sl_S7(k); auto a = ad_sl_S7(x); rust::Slice<const S7> y = r_echo_sl_S7(std::move(x), k); return vk_addr_c09c == a && ad_sl_S7(y) == a && ck_sl_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_S7(200, mk_sl_S7(k), -1.5, k, mk_sl_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const S7> x = mk_sl_S7(k); return o.r_m_sl_S7(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_Ei8(rust::Slice<const Ei8> x, std::int32_t k) { note(ad_sl_Ei8(x)); if (!ck_sl_Ei8(x, k)) return false; return true; }
rust::Slice<const Ei8> c_make_sl_Ei8(std::uint8_t const &, std::int32_t k) { rust::Slice<const Ei8> x = mk_sl_Ei8(k); note(ad_sl_Ei8(x)); return x; }
rust::Slice<const Ei8> c_try_sl_Ei8(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const Ei8> x = mk_sl_Ei8(k); note(ad_sl_Ei8(x)); return x; }
rust::Slice<const Ei8> c_echo_sl_Ei8(rust::Slice<const Ei8> x, std::int32_t k) { note(ck_sl_Ei8(x, k) ? ad_sl_Ei8(x) : 1); return x; }
bool c_mix_sl_Ei8(std::uint8_t a, rust::Slice<const Ei8> x, double b, std::int32_t k, rust::Slice<const Ei8> y, std::uint16_t c) { return a == 200 && ck_sl_Ei8(x, k) && b == -1.5 && ck_sl_Ei8(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_Ei8(rust::Slice<const Ei8> x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_sl_Ei8(x, k); }
bool c_cb_sl_Ei8(rust::Fn<rust::Slice<const Ei8>(rust::Slice<const Ei8>, std::int32_t)> f, std::int32_t k) { rust::Slice<const Ei8> y = f(mk_sl_Ei8(k), k); return ck_sl_Ei8(y, k); }
std::int32_t c_run_sl_Ei8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const Ei8> x = mk_sl_Ei8(k); auto a = ad_sl_Ei8(x); if (!r_take_sl_Ei8(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const Ei8> x = r_make_sl_Ei8(Z, k); return ck_sl_Ei8(x, k) && (vk_addr_c09c == ad_sl_Ei8(x)) ? 0 : 13; }
 case 2: { rust::Slice<const Ei8> x = r_try_sl_Ei8(Z, k, false); return ck_sl_Ei8(x, k) && (vk_addr_c09c == ad_sl_Ei8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_Ei8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const Ei8> x = mk_sl_Ei8(k); auto a = ad_sl_Ei8(x); rust::Slice<const Ei8> y = r_echo_sl_Ei8(std::move(x), k); return vk_addr_c09c == a && ad_sl_Ei8(y) == a && ck_sl_Ei8(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_Ei8(200, mk_sl_Ei8(k), -1.5, k, mk_sl_Ei8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<const Ei8> x = mk_sl_Ei8(k); return o.r_m_sl_Ei8(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_TrivA(rust::Slice<const TrivA> x, std::int32_t k) { note(ad_sl_TrivA(x)); if (!ck_sl_TrivA(x, k)) return false; return true; }
rust::Slice<const TrivA> c_make_sl_TrivA(std::uint8_t const &, std::int32_t k) { rust::Slice<const TrivA> x = mk_sl_TrivA(k); note(ad_sl_TrivA(x)); return x; }
rust::Slice<const TrivA> c_try_sl_TrivA(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const TrivA> x = mk_sl_TrivA(k); note(ad_sl_TrivA(x)); return x; }
rust::Slice<const TrivA> c_echo_sl_TrivA(rust::Slice<const TrivA> x, std::int32_t k) { note(ck_sl_TrivA(x, k) ? ad_sl_TrivA(x) : 1); return x; }
bool c_mix_sl_TrivA(std::uint8_t a, rust::Slice<const TrivA> x, double b, std::int32_t k, rust::Slice<const TrivA> y, std::uint16_t c) { return a == 200 && ck_sl_TrivA(x, k) && b == -1.5 && ck_sl_TrivA(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_sl_TrivA(rust::Slice<const TrivA> x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_sl_TrivA(x, k); }
bool c_cb_sl_TrivA(rust::Fn<rust::Slice<const TrivA>(rust::Slice<const TrivA>, std::int32_t)> f, std::int32_t k) { rust::Slice<const TrivA> y = f(mk_sl_TrivA(k), k); return ck_sl_TrivA(y, k); }
std::int32_t c_run_sl_TrivA(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const TrivA> x = mk_sl_TrivA(k); auto a = ad_sl_TrivA(x); if (!r_take_sl_TrivA(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const TrivA> x = r_make_sl_TrivA(Z, k); return ck_sl_TrivA(x, k) && (vk_addr_c09c == ad_sl_TrivA(x)) ? 0 : 13; }
 case 2: { rust::Slice<const TrivA> x = r_try_sl_TrivA(Z, k, false); return ck_sl_TrivA(x, k) && (vk_addr_c09c == ad_sl_TrivA(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_TrivA(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const TrivA> x = mk_sl_TrivA(k); auto a = ad_sl_TrivA(x); rust::Slice<const TrivA> y = r_echo_sl_TrivA(std::move(x), k); return vk_addr_c09c == a && ad_sl_TrivA(y) == a && ck_sl_TrivA(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_TrivA(200, mk_sl_TrivA(k), -1.5, k, mk_sl_TrivA((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<const TrivA> x = mk_sl_TrivA(k); return o.r_m_sl_TrivA(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_RObj(rust::Slice<const RObj> x, std::int32_t k) { note(ad_sl_RObj(x)); if (!ck_sl_RObj(x, k)) return false; return true; }
rust::Slice<const RObj> c_make_sl_RObj(std::uint8_t const &, std::int32_t k) { rust::Slice<const RObj> x = mk_sl_RObj(k); note(ad_sl_RObj(x)); return x; }
rust::Slice<const RObj> c_try_sl_RObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const RObj> x = mk_sl_RObj(k); note(ad_sl_RObj(x)); return x; }
rust::Slice<const RObj> c_echo_sl_RObj(rust::Slice<const RObj> x, std::int32_t k) { note(ck_sl_RObj(x, k) ? ad_sl_RObj(x) : 1); return x; }
bool c_mix_sl_RObj(std::uint8_t a, rust::Slice<const RObj> x, double b, std::int32_t k, rust::Slice<const RObj> y, std::uint16_t c) { return a == 200 && ck_sl_RObj(x, k) && b == -1.5 && ck_sl_RObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_sl_RObj(rust::Slice<const RObj> x, std::int32_t k) { return ck_CObj(*this, 2) && ck_sl_RObj(x, k); }
bool c_cb_sl_RObj(rust::Fn<rust::Slice<const RObj>(rust::Slice<const RObj>, std::int32_t)> f, std::int32_t k) { rust::Slice<const RObj> y = f(mk_sl_RObj(k), k); return ck_sl_RObj(y, k); }
std::int32_t c_run_sl_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const RObj> x = mk_sl_RObj(k); auto a = ad_sl_RObj(x); if (!r_take_sl_RObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const RObj> x = r_make_sl_RObj(Z, k); return ck_sl_RObj(x, k) && (vk_addr_c09c == ad_sl_RObj(x)) ? 0 : 13; }
 case 2: { rust::Slice<const RObj> x = r_try_sl_RObj(Z, k, false); return ck_sl_RObj(x, k) && (vk_addr_c09c == ad_sl_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_RObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const RObj> x = mk_sl_RObj(k); auto a = ad_sl_RObj(x); rust::Slice<const RObj> y = r_echo_sl_RObj(std::move(x), k); return vk_addr_c09c == a && ad_sl_RObj(y) == a && ck_sl_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_RObj(200, mk_sl_RObj(k), -1.5, k, mk_sl_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const RObj> x = mk_sl_RObj(k); return o.r_m_sl_RObj(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_Box_RObj(rust::Slice<const rust::Box<RObj>> x, std::int32_t k) { note(ad_sl_Box_RObj(x)); if (!ck_sl_Box_RObj(x, k)) return false; return true; }
rust::Slice<const rust::Box<RObj>> c_make_sl_Box_RObj(std::uint8_t const &, std::int32_t k) { rust::Slice<const rust::Box<RObj>> x = mk_sl_Box_RObj(k); note(ad_sl_Box_RObj(x)); return x; }
rust::Slice<const rust::Box<RObj>> c_try_sl_Box_RObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const rust::Box<RObj>> x = mk_sl_Box_RObj(k); note(ad_sl_Box_RObj(x)); return x; }
rust::Slice<const rust::Box<RObj>> c_echo_sl_Box_RObj(rust::Slice<const rust::Box<RObj>> x, std::int32_t k) { note(ck_sl_Box_RObj(x, k) ? ad_sl_Box_RObj(x) : 1); return x; }
bool c_mix_sl_Box_RObj(std::uint8_t a, rust::Slice<const rust::Box<RObj>> x, double b, std::int32_t k, rust::Slice<const rust::Box<RObj>> y, std::uint16_t c) { return a == 200 && ck_sl_Box_RObj(x, k) && b == -1.5 && ck_sl_Box_RObj(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_Box_RObj(rust::Slice<const rust::Box<RObj>> x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_sl_Box_RObj(x, k); }
bool c_cb_sl_Box_RObj(rust::Fn<rust::Slice<const rust::Box<RObj>>(rust::Slice<const rust::Box<RObj>>, std::int32_t)> f, std::int32_t k) { rust::Slice<const rust::Box<RObj>> y = f(mk_sl_Box_RObj(k), k); return ck_sl_Box_RObj(y, k); }
std::int32_t c_run_sl_Box_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const rust::Box<RObj>> x = mk_sl_Box_RObj(k); auto a = ad_sl_Box_RObj(x); if (!r_take_sl_Box_RObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const rust::Box<RObj>> x = r_make_sl_Box_RObj(Z, k); return ck_sl_Box_RObj(x, k) && (vk_addr_c09c == ad_sl_Box_RObj(x)) ? 0 : 13; }
 case 2: { rust::Slice<const rust::Box<RObj>> x = r_try_sl_Box_RObj(Z, k, false); return ck_sl_Box_RObj(x, k) && (vk_addr_c09c == ad_sl_Box_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_Box_RObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const rust::Box<RObj>> x = mk_sl_Box_RObj(k); auto a = ad_sl_Box_RObj(x); rust::Slice<const rust::Box<RObj>> y = r_echo_sl_Box_RObj(std::move(x), k); return vk_addr_c09c == a && ad_sl_Box_RObj(y) == a && ck_sl_Box_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_Box_RObj(200, mk_sl_Box_RObj(k), -1.5, k, mk_sl_Box_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const rust::Box<RObj>> x = mk_sl_Box_RObj(k); return o.r_m_sl_Box_RObj(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_UniquePtr_CObj(rust::Slice<const std::unique_ptr<CObj>> x, std::int32_t k) { note(ad_sl_UniquePtr_CObj(x)); if (!ck_sl_UniquePtr_CObj(x, k)) return false; return true; }
rust::Slice<const std::unique_ptr<CObj>> c_make_sl_UniquePtr_CObj(std::uint8_t const &, std::int32_t k) { rust::Slice<const std::unique_ptr<CObj>> x = mk_sl_UniquePtr_CObj(k); note(ad_sl_UniquePtr_CObj(x)); return x; }
rust::Slice<const std::unique_ptr<CObj>> c_try_sl_UniquePtr_CObj(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const std::unique_ptr<CObj>> x = mk_sl_UniquePtr_CObj(k); note(ad_sl_UniquePtr_CObj(x)); return x; }
rust::Slice<const std::unique_ptr<CObj>> c_echo_sl_UniquePtr_CObj(rust::Slice<const std::unique_ptr<CObj>> x, std::int32_t k) { note(ck_sl_UniquePtr_CObj(x, k) ? ad_sl_UniquePtr_CObj(x) : 1); return x; }
bool c_mix_sl_UniquePtr_CObj(std::uint8_t a, rust::Slice<const std::unique_ptr<CObj>> x, double b, std::int32_t k, rust::Slice<const std::unique_ptr<CObj>> y, std::uint16_t c) { return a == 200 && ck_sl_UniquePtr_CObj(x, k) && b == -1.5 && ck_sl_UniquePtr_CObj(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_UniquePtr_CObj(rust::Slice<const std::unique_ptr<CObj>> x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_sl_UniquePtr_CObj(x, k); }
bool c_cb_sl_UniquePtr_CObj(rust::Fn<rust::Slice<const std::unique_ptr<CObj>>(rust::Slice<const std::unique_ptr<CObj>>, std::int32_t)> f, std::int32_t k) { rust::Slice<const std::unique_ptr<CObj>> y = f(mk_sl_UniquePtr_CObj(k), k); return ck_sl_UniquePtr_CObj(y, k); }
std::int32_t c_run_sl_UniquePtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const std::unique_ptr<CObj>> x = mk_sl_UniquePtr_CObj(k); auto a = ad_sl_UniquePtr_CObj(x); if (!r_take_sl_UniquePtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const std::unique_ptr<CObj>> x = r_make_sl_UniquePtr_CObj(Z, k); return ck_sl_UniquePtr_CObj(x, k) && (vk_addr_c09c == ad_sl_UniquePtr_CObj(x)) ? 0 : 13; }
 case 2: { rust::Slice<const std::unique_ptr<CObj>> x = r_try_sl_UniquePtr_CObj(Z, k, false); return ck_sl_UniquePtr_CObj(x, k) && (vk_addr_c09c == ad_sl_UniquePtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_UniquePtr_CObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const std::unique_ptr<CObj>> x = mk_sl_UniquePtr_CObj(k); auto a = ad_sl_UniquePtr_CObj(x); rust::Slice<const std::unique_ptr<CObj>> y = r_echo_sl_UniquePtr_CObj(std::move(x), k); return vk_addr_c09c == a && ad_sl_UniquePtr_CObj(y) == a && ck_sl_UniquePtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_UniquePtr_CObj(200, mk_sl_UniquePtr_CObj(k), -1.5, k, mk_sl_UniquePtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<const std::unique_ptr<CObj>> x = mk_sl_UniquePtr_CObj(k); return o.r_m_sl_UniquePtr_CObj(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> x, std::int32_t k) { note(ad_sl_Vec_u8(x)); if (!ck_sl_Vec_u8(x, k)) return false; return true; }
rust::Slice<const rust::Vec<std::uint8_t>> c_make_sl_Vec_u8(std::uint8_t const &, std::int32_t k) { rust::Slice<const rust::Vec<std::uint8_t>> x = mk_sl_Vec_u8(k); note(ad_sl_Vec_u8(x)); return x; }
rust::Slice<const rust::Vec<std::uint8_t>> c_try_sl_Vec_u8(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const rust::Vec<std::uint8_t>> x = mk_sl_Vec_u8(k); note(ad_sl_Vec_u8(x)); return x; }
rust::Slice<const rust::Vec<std::uint8_t>> c_echo_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> x, std::int32_t k) { note(ck_sl_Vec_u8(x, k) ? ad_sl_Vec_u8(x) : 1); return x; }
bool c_mix_sl_Vec_u8(std::uint8_t a, rust::Slice<const rust::Vec<std::uint8_t>> x, double b, std::int32_t k, rust::Slice<const rust::Vec<std::uint8_t>> y, std::uint16_t c) { return a == 200 && ck_sl_Vec_u8(x, k) && b == -1.5 && ck_sl_Vec_u8(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_sl_Vec_u8(rust::Slice<const rust::Vec<std::uint8_t>> x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_sl_Vec_u8(x, k); }
bool c_cb_sl_Vec_u8(rust::Fn<rust::Slice<const rust::Vec<std::uint8_t>>(rust::Slice<const rust::Vec<std::uint8_t>>, std::int32_t)> f, std::int32_t k) { rust::Slice<const rust::Vec<std::uint8_t>> y = f(mk_sl_Vec_u8(k), k); return ck_sl_Vec_u8(y, k); }
std::int32_t c_run_sl_Vec_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const rust::Vec<std::uint8_t>> x = mk_sl_Vec_u8(k); auto a = ad_sl_Vec_u8(x); if (!r_take_sl_Vec_u8(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const rust::Vec<std::uint8_t>> x = r_make_sl_Vec_u8(Z, k); return ck_sl_Vec_u8(x, k) && (vk_addr_c09c == ad_sl_Vec_u8(x)) ? 0 : 13; }
 case 2: { rust::Slice<const rust::Vec<std::uint8_t>> x = r_try_sl_Vec_u8(Z, k, false); return ck_sl_Vec_u8(x, k) && (vk_addr_c09c == ad_sl_Vec_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_Vec_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const rust::Vec<std::uint8_t>> x = mk_sl_Vec_u8(k); auto a = ad_sl_Vec_u8(x); rust::Slice<const rust::Vec<std::uint8_t>> y = r_echo_sl_Vec_u8(std::move(x), k); return vk_addr_c09c == a && ad_sl_Vec_u8(y) == a && ck_sl_Vec_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_Vec_u8(200, mk_sl_Vec_u8(k), -1.5, k, mk_sl_Vec_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<const rust::Vec<std::uint8_t>> x = mk_sl_Vec_u8(k); return o.r_m_sl_Vec_u8(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_f32(rust::Slice<const float> x, std::int32_t k) { note(ad_sl_f32(x)); if (!ck_sl_f32(x, k)) return false; return true; }
rust::Slice<const float> c_make_sl_f32(std::uint8_t const &, std::int32_t k) { rust::Slice<const float> x = mk_sl_f32(k); note(ad_sl_f32(x)); return x; }
rust::Slice<const float> c_try_sl_f32(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const float> x = mk_sl_f32(k); note(ad_sl_f32(x)); return x; }
rust::Slice<const float> c_echo_sl_f32(rust::Slice<const float> x, std::int32_t k) { note(ck_sl_f32(x, k) ? ad_sl_f32(x) : 1); return x; }
bool c_mix_sl_f32(std::uint8_t a, rust::Slice<const float> x, double b, std::int32_t k, rust::Slice<const float> y, std::uint16_t c) { return a == 200 && ck_sl_f32(x, k) && b == -1.5 && ck_sl_f32(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_sl_f32(rust::Slice<const float> x, std::int32_t k) { return ck_CObj(*this, 2) && ck_sl_f32(x, k); }
bool c_cb_sl_f32(rust::Fn<rust::Slice<const float>(rust::Slice<const float>, std::int32_t)> f, std::int32_t k) { rust::Slice<const float> y = f(mk_sl_f32(k), k); return ck_sl_f32(y, k); }
std::int32_t c_run_sl_f32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const float> x = mk_sl_f32(k); auto a = ad_sl_f32(x); if (!r_take_sl_f32(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const float> x = r_make_sl_f32(Z, k); return ck_sl_f32(x, k) && (vk_addr_c09c == ad_sl_f32(x)) ? 0 : 13; }
 case 2: { rust::Slice<const float> x = r_try_sl_f32(Z, k, false); return ck_sl_f32(x, k) && (vk_addr_c09c == ad_sl_f32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_f32(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const float> x = mk_sl_f32(k); auto a = ad_sl_f32(x); rust::Slice<const float> y = r_echo_sl_f32(std::move(x), k); return vk_addr_c09c == a && ad_sl_f32(y) == a && ck_sl_f32(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_f32(200, mk_sl_f32(k), -1.5, k, mk_sl_f32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const float> x = mk_sl_f32(k); return o.r_m_sl_f32(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_isize(rust::Slice<const rust::isize> x, std::int32_t k) { note(ad_sl_isize(x)); if (!ck_sl_isize(x, k)) return false; return true; }
rust::Slice<const rust::isize> c_make_sl_isize(std::uint8_t const &, std::int32_t k) { rust::Slice<const rust::isize> x = mk_sl_isize(k); note(ad_sl_isize(x)); return x; }
rust::Slice<const rust::isize> c_try_sl_isize(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const rust::isize> x = mk_sl_isize(k); note(ad_sl_isize(x)); return x; }
rust::Slice<const rust::isize> c_echo_sl_isize(rust::Slice<const rust::isize> x, std::int32_t k) { note(ck_sl_isize(x, k) ? ad_sl_isize(x) : 1); return x; }
bool c_mix_sl_isize(std::uint8_t a, rust::Slice<const rust::isize> x, double b, std::int32_t k, rust::Slice<const rust::isize> y, std::uint16_t c) { return a == 200 && ck_sl_isize(x, k) && b == -1.5 && ck_sl_isize(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_isize(rust::Slice<const rust::isize> x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_sl_isize(x, k); }
bool c_cb_sl_isize(rust::Fn<rust::Slice<const rust::isize>(rust::Slice<const rust::isize>, std::int32_t)> f, std::int32_t k) { rust::Slice<const rust::isize> y = f(mk_sl_isize(k), k); return ck_sl_isize(y, k); }
std::int32_t c_run_sl_isize(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const rust::isize> x = mk_sl_isize(k); auto a = ad_sl_isize(x); if (!r_take_sl_isize(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const rust::isize> x = r_make_sl_isize(Z, k); return ck_sl_isize(x, k) && (vk_addr_c09c == ad_sl_isize(x)) ? 0 : 13; }
 case 2: { rust::Slice<const rust::isize> x = r_try_sl_isize(Z, k, false); return ck_sl_isize(x, k) && (vk_addr_c09c == ad_sl_isize(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_isize(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const rust::isize> x = mk_sl_isize(k); auto a = ad_sl_isize(x); rust::Slice<const rust::isize> y = r_echo_sl_isize(std::move(x), k); return vk_addr_c09c == a && ad_sl_isize(y) == a && ck_sl_isize(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_isize(200, mk_sl_isize(k), -1.5, k, mk_sl_isize((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<const rust::isize> x = mk_sl_isize(k); return o.r_m_sl_isize(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_sl_arr4_u8(rust::Slice<const std::array<std::uint8_t, 4>> x, std::int32_t k) { note(ad_sl_arr4_u8(x)); if (!ck_sl_arr4_u8(x, k)) return false; return true; }
rust::Slice<const std::array<std::uint8_t, 4>> c_make_sl_arr4_u8(std::uint8_t const &, std::int32_t k) { rust::Slice<const std::array<std::uint8_t, 4>> x = mk_sl_arr4_u8(k); note(ad_sl_arr4_u8(x)); return x; }
rust::Slice<const std::array<std::uint8_t, 4>> c_try_sl_arr4_u8(std::uint8_t const &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<const std::array<std::uint8_t, 4>> x = mk_sl_arr4_u8(k); note(ad_sl_arr4_u8(x)); return x; }
rust::Slice<const std::array<std::uint8_t, 4>> c_echo_sl_arr4_u8(rust::Slice<const std::array<std::uint8_t, 4>> x, std::int32_t k) { note(ck_sl_arr4_u8(x, k) ? ad_sl_arr4_u8(x) : 1); return x; }
bool c_mix_sl_arr4_u8(std::uint8_t a, rust::Slice<const std::array<std::uint8_t, 4>> x, double b, std::int32_t k, rust::Slice<const std::array<std::uint8_t, 4>> y, std::uint16_t c) { return a == 200 && ck_sl_arr4_u8(x, k) && b == -1.5 && ck_sl_arr4_u8(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_sl_arr4_u8(rust::Slice<const std::array<std::uint8_t, 4>> x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_sl_arr4_u8(x, k); }
bool c_cb_sl_arr4_u8(rust::Fn<rust::Slice<const std::array<std::uint8_t, 4>>(rust::Slice<const std::array<std::uint8_t, 4>>, std::int32_t)> f, std::int32_t k) { rust::Slice<const std::array<std::uint8_t, 4>> y = f(mk_sl_arr4_u8(k), k); return ck_sl_arr4_u8(y, k); }
std::int32_t c_run_sl_arr4_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<const std::array<std::uint8_t, 4>> x = mk_sl_arr4_u8(k); auto a = ad_sl_arr4_u8(x); if (!r_take_sl_arr4_u8(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { rust::Slice<const std::array<std::uint8_t, 4>> x = r_make_sl_arr4_u8(Z, k); return ck_sl_arr4_u8(x, k) && (vk_addr_c09c == ad_sl_arr4_u8(x)) ? 0 : 13; }
 case 2: { rust::Slice<const std::array<std::uint8_t, 4>> x = r_try_sl_arr4_u8(Z, k, false); return ck_sl_arr4_u8(x, k) && (vk_addr_c09c == ad_sl_arr4_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_sl_arr4_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<const std::array<std::uint8_t, 4>> x = mk_sl_arr4_u8(k); auto a = ad_sl_arr4_u8(x); rust::Slice<const std::array<std::uint8_t, 4>> y = r_echo_sl_arr4_u8(std::move(x), k); return vk_addr_c09c == a && ad_sl_arr4_u8(y) == a && ck_sl_arr4_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_sl_arr4_u8(200, mk_sl_arr4_u8(k), -1.5, k, mk_sl_arr4_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<const std::array<std::uint8_t, 4>> x = mk_sl_arr4_u8(k); return o.r_m_sl_arr4_u8(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_u8(rust::Slice<std::uint8_t> x, std::int32_t k) { note(ad_slm_u8(x)); if (!ck_slm_u8(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y = mk_u8(j); } } return true; }
rust::Slice<std::uint8_t> c_make_slm_u8(std::uint8_t &, std::int32_t k) { rust::Slice<std::uint8_t> x = mk_slm_u8(k); note(ad_slm_u8(x)); return x; }
rust::Slice<std::uint8_t> c_try_slm_u8(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<std::uint8_t> x = mk_slm_u8(k); note(ad_slm_u8(x)); return x; }
rust::Slice<std::uint8_t> c_echo_slm_u8(rust::Slice<std::uint8_t> x, std::int32_t k) { note(ck_slm_u8(x, k) ? ad_slm_u8(x) : 1); return std::move(x); }
bool c_mix_slm_u8(std::uint8_t a, rust::Slice<std::uint8_t> x, double b, std::int32_t k, rust::Slice<std::uint8_t> y, std::uint16_t c) { return a == 200 && ck_slm_u8(x, k) && b == -1.5 && ck_slm_u8(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_slm_u8(rust::Slice<std::uint8_t> x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_slm_u8(x, k); }
bool c_cb_slm_u8(rust::Fn<rust::Slice<std::uint8_t>(rust::Slice<std::uint8_t>, std::int32_t)> f, std::int32_t k) { rust::Slice<std::uint8_t> y = f(mk_slm_u8(k), k); return ck_slm_u8(y, k); }
std::int32_t c_run_slm_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<std::uint8_t> x = mk_slm_u8(k); auto a = ad_slm_u8(x); if (!r_take_slm_u8(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<std::uint8_t> p(cp_sl_u8(k), k); for (int i = 0; i < k; i++) if (!ck_u8(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<std::uint8_t> x = r_make_slm_u8(Z, k); return ck_slm_u8(x, k) && (vk_addr_c09c == ad_slm_u8(x)) ? 0 : 13; }
 case 2: { rust::Slice<std::uint8_t> x = r_try_slm_u8(Z, k, false); return ck_slm_u8(x, k) && (vk_addr_c09c == ad_slm_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_u8(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<std::uint8_t> x = mk_slm_u8(k); auto a = ad_slm_u8(x); rust::Slice<std::uint8_t> y = r_echo_slm_u8(std::move(x), k); return vk_addr_c09c == a && ad_slm_u8(y) == a && ck_slm_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_u8(200, mk_slm_u8(k), -1.5, k, mk_slm_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<std::uint8_t> x = mk_slm_u8(k); return o.r_m_slm_u8(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_i64(rust::Slice<std::int64_t> x, std::int32_t k) { note(ad_slm_i64(x)); if (!ck_slm_i64(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y = mk_i64(j); } } return true; }
rust::Slice<std::int64_t> c_make_slm_i64(std::uint8_t &, std::int32_t k) { rust::Slice<std::int64_t> x = mk_slm_i64(k); note(ad_slm_i64(x)); return x; }
rust::Slice<std::int64_t> c_try_slm_i64(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<std::int64_t> x = mk_slm_i64(k); note(ad_slm_i64(x)); return x; }
rust::Slice<std::int64_t> c_echo_slm_i64(rust::Slice<std::int64_t> x, std::int32_t k) { note(ck_slm_i64(x, k) ? ad_slm_i64(x) : 1); return std::move(x); }
bool c_mix_slm_i64(std::uint8_t a, rust::Slice<std::int64_t> x, double b, std::int32_t k, rust::Slice<std::int64_t> y, std::uint16_t c) { return a == 200 && ck_slm_i64(x, k) && b == -1.5 && ck_slm_i64(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_slm_i64(rust::Slice<std::int64_t> x, std::int32_t k) { return ck_CObj(*this, 2) && ck_slm_i64(x, k); }
bool c_cb_slm_i64(rust::Fn<rust::Slice<std::int64_t>(rust::Slice<std::int64_t>, std::int32_t)> f, std::int32_t k) { rust::Slice<std::int64_t> y = f(mk_slm_i64(k), k); return ck_slm_i64(y, k); }
std::int32_t c_run_slm_i64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<std::int64_t> x = mk_slm_i64(k); auto a = ad_slm_i64(x); if (!r_take_slm_i64(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<std::int64_t> p(cp_sl_i64(k), k); for (int i = 0; i < k; i++) if (!ck_i64(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<std::int64_t> x = r_make_slm_i64(Z, k); return ck_slm_i64(x, k) && (vk_addr_c09c == ad_slm_i64(x)) ? 0 : 13; }
 case 2: { rust::Slice<std::int64_t> x = r_try_slm_i64(Z, k, false); return ck_slm_i64(x, k) && (vk_addr_c09c == ad_slm_i64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_i64(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<std::int64_t> x = mk_slm_i64(k); auto a = ad_slm_i64(x); rust::Slice<std::int64_t> y = r_echo_slm_i64(std::move(x), k); return vk_addr_c09c == a && ad_slm_i64(y) == a && ck_slm_i64(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_i64(200, mk_slm_i64(k), -1.5, k, mk_slm_i64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<std::int64_t> x = mk_slm_i64(k); return o.r_m_slm_i64(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_f32(rust::Slice<float> x, std::int32_t k) { note(ad_slm_f32(x)); if (!ck_slm_f32(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y = mk_f32(j); } } return true; }
rust::Slice<float> c_make_slm_f32(std::uint8_t &, std::int32_t k) { rust::Slice<float> x = mk_slm_f32(k); note(ad_slm_f32(x)); return x; }
rust::Slice<float> c_try_slm_f32(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<float> x = mk_slm_f32(k); note(ad_slm_f32(x)); return x; }
rust::Slice<float> c_echo_slm_f32(rust::Slice<float> x, std::int32_t k) { note(ck_slm_f32(x, k) ? ad_slm_f32(x) : 1); return std::move(x); }
bool c_mix_slm_f32(std::uint8_t a, rust::Slice<float> x, double b, std::int32_t k, rust::Slice<float> y, std::uint16_t c) { return a == 200 && ck_slm_f32(x, k) && b == -1.5 && ck_slm_f32(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_slm_f32(rust::Slice<float> x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_slm_f32(x, k); }
bool c_cb_slm_f32(rust::Fn<rust::Slice<float>(rust::Slice<float>, std::int32_t)> f, std::int32_t k) { rust::Slice<float> y = f(mk_slm_f32(k), k); return ck_slm_f32(y, k); }
std::int32_t c_run_slm_f32(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<float> x = mk_slm_f32(k); auto a = ad_slm_f32(x); if (!r_take_slm_f32(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<float> p(cp_sl_f32(k), k); for (int i = 0; i < k; i++) if (!ck_f32(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<float> x = r_make_slm_f32(Z, k); return ck_slm_f32(x, k) && (vk_addr_c09c == ad_slm_f32(x)) ? 0 : 13; }
 case 2: { rust::Slice<float> x = r_try_slm_f32(Z, k, false); return ck_slm_f32(x, k) && (vk_addr_c09c == ad_slm_f32(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_f32(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<float> x = mk_slm_f32(k); auto a = ad_slm_f32(x); rust::Slice<float> y = r_echo_slm_f32(std::move(x), k); return vk_addr_c09c == a && ad_slm_f32(y) == a && ck_slm_f32(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_f32(200, mk_slm_f32(k), -1.5, k, mk_slm_f32((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<float> x = mk_slm_f32(k); return o.r_m_slm_f32(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_String(rust::Slice<rust::String> x, std::int32_t k) { note(ad_slm_String(x)); if (!ck_slm_String(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y = mk_String(j); } } return true; }
rust::Slice<rust::String> c_make_slm_String(std::uint8_t &, std::int32_t k) { rust::Slice<rust::String> x = mk_slm_String(k); note(ad_slm_String(x)); return x; }
rust::Slice<rust::String> c_try_slm_String(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<rust::String> x = mk_slm_String(k); note(ad_slm_String(x)); return x; }
rust::Slice<rust::String> c_echo_slm_String(rust::Slice<rust::String> x, std::int32_t k) { note(ck_slm_String(x, k) ? ad_slm_String(x) : 1); return std::move(x); }
bool c_mix_slm_String(std::uint8_t a, rust::Slice<rust::String> x, double b, std::int32_t k, rust::Slice<rust::String> y, std::uint16_t c) { return a == 200 && ck_slm_String(x, k) && b == -1.5 && ck_slm_String(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_slm_String(rust::Slice<rust::String> x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_slm_String(x, k); }
bool c_cb_slm_String(rust::Fn<rust::Slice<rust::String>(rust::Slice<rust::String>, std::int32_t)> f, std::int32_t k) { rust::Slice<rust::String> y = f(mk_slm_String(k), k); return ck_slm_String(y, k); }
std::int32_t c_run_slm_String(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<rust::String> x = mk_slm_String(k); auto a = ad_slm_String(x); if (!r_take_slm_String(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<rust::String> p(cp_sl_String(k), k); for (int i = 0; i < k; i++) if (!ck_String(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<rust::String> x = r_make_slm_String(Z, k); return ck_slm_String(x, k) && (vk_addr_c09c == ad_slm_String(x)) ? 0 : 13; }
 case 2: { rust::Slice<rust::String> x = r_try_slm_String(Z, k, false); return ck_slm_String(x, k) && (vk_addr_c09c == ad_slm_String(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_String(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<rust::String> x = mk_slm_String(k); auto a = ad_slm_String(x); rust::Slice<rust::String> y = r_echo_slm_String(std::move(x), k); return vk_addr_c09c == a && ad_slm_String(y) == a && ck_slm_String(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_String(200, mk_slm_String(k), -1.5, k, mk_slm_String((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<rust::String> x = mk_slm_String(k); return o.r_m_slm_String(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_S7(rust::Slice<S7> x, std::int32_t k) { note(ad_slm_S7(x)); if (!ck_slm_S7(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y = mk_S7(j); } } return true; }
rust::Slice<S7> c_make_slm_S7(std::uint8_t &, std::int32_t k) { rust::Slice<S7> x = mk_slm_S7(k); note(ad_slm_S7(x)); return x; }
rust::Slice<S7> c_try_slm_S7(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<S7> x = mk_slm_S7(k); note(ad_slm_S7(x)); return x; }
rust::Slice<S7> c_echo_slm_S7(rust::Slice<S7> x, std::int32_t k) { note(ck_slm_S7(x, k) ? ad_slm_S7(x) : 1); return std::move(x); }
bool c_mix_slm_S7(std::uint8_t a, rust::Slice<S7> x, double b, std::int32_t k, rust::Slice<S7> y, std::uint16_t c) { return a == 200 && ck_slm_S7(x, k) && b == -1.5 && ck_slm_S7(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_slm_S7(rust::Slice<S7> x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_slm_S7(x, k); }
bool c_cb_slm_S7(rust::Fn<rust::Slice<S7>(rust::Slice<S7>, std::int32_t)> f, std::int32_t k) { rust::Slice<S7> y = f(mk_slm_S7(k), k); return ck_slm_S7(y, k); }
std::int32_t c_run_slm_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<S7> x = mk_slm_S7(k); auto a = ad_slm_S7(x); if (!r_take_slm_S7(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<S7> p(cp_sl_S7(k), k); for (int i = 0; i < k; i++) if (!ck_S7(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<S7> x = r_make_slm_S7(Z, k); return ck_slm_S7(x, k) && (vk_addr_c09c == ad_slm_S7(x)) ? 0 : 13; }
 case 2: { rust::Slice<S7> x = r_try_slm_S7(Z, k, false); return ck_slm_S7(x, k) && (vk_addr_c09c == ad_slm_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_S7(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<S7> x = mk_slm_S7(k); auto a = ad_slm_S7(x); rust::Slice<S7> y = r_echo_slm_S7(std::move(x), k); return vk_addr_c09c == a && ad_slm_S7(y) == a && ck_slm_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_S7(200, mk_slm_S7(k), -1.5, k, mk_slm_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<S7> x = mk_slm_S7(k); return o.r_m_slm_S7(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_RObj(rust::Slice<RObj> x, std::int32_t k) { note(ad_slm_RObj(x)); if (!ck_slm_RObj(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y.r_set(j); } } return true; }
rust::Slice<RObj> c_make_slm_RObj(std::uint8_t &, std::int32_t k) { rust::Slice<RObj> x = mk_slm_RObj(k); note(ad_slm_RObj(x)); return x; }
rust::Slice<RObj> c_try_slm_RObj(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<RObj> x = mk_slm_RObj(k); note(ad_slm_RObj(x)); return x; }
rust::Slice<RObj> c_echo_slm_RObj(rust::Slice<RObj> x, std::int32_t k) { note(ck_slm_RObj(x, k) ? ad_slm_RObj(x) : 1); return std::move(x); }
bool c_mix_slm_RObj(std::uint8_t a, rust::Slice<RObj> x, double b, std::int32_t k, rust::Slice<RObj> y, std::uint16_t c) { return a == 200 && ck_slm_RObj(x, k) && b == -1.5 && ck_slm_RObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_slm_RObj(rust::Slice<RObj> x, std::int32_t k) { return ck_CObj(*this, 2) && ck_slm_RObj(x, k); }
bool c_cb_slm_RObj(rust::Fn<rust::Slice<RObj>(rust::Slice<RObj>, std::int32_t)> f, std::int32_t k) { rust::Slice<RObj> y = f(mk_slm_RObj(k), k); return ck_slm_RObj(y, k); }
std::int32_t c_run_slm_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<RObj> x = mk_slm_RObj(k); auto a = ad_slm_RObj(x); if (!r_take_slm_RObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<RObj> p(cp_sl_RObj(k), k); for (int i = 0; i < k; i++) if (!ck_RObj(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<RObj> x = r_make_slm_RObj(Z, k); return ck_slm_RObj(x, k) && (vk_addr_c09c == ad_slm_RObj(x)) ? 0 : 13; }
 case 2: { rust::Slice<RObj> x = r_try_slm_RObj(Z, k, false); return ck_slm_RObj(x, k) && (vk_addr_c09c == ad_slm_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_RObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<RObj> x = mk_slm_RObj(k); auto a = ad_slm_RObj(x); rust::Slice<RObj> y = r_echo_slm_RObj(std::move(x), k); return vk_addr_c09c == a && ad_slm_RObj(y) == a && ck_slm_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_RObj(200, mk_slm_RObj(k), -1.5, k, mk_slm_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<RObj> x = mk_slm_RObj(k); return o.r_m_slm_RObj(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_c_char(rust::Slice<char> x, std::int32_t k) { note(ad_slm_c_char(x)); if (!ck_slm_c_char(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y = mk_c_char(j); } } return true; }
rust::Slice<char> c_make_slm_c_char(std::uint8_t &, std::int32_t k) { rust::Slice<char> x = mk_slm_c_char(k); note(ad_slm_c_char(x)); return x; }
rust::Slice<char> c_try_slm_c_char(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<char> x = mk_slm_c_char(k); note(ad_slm_c_char(x)); return x; }
rust::Slice<char> c_echo_slm_c_char(rust::Slice<char> x, std::int32_t k) { note(ck_slm_c_char(x, k) ? ad_slm_c_char(x) : 1); return std::move(x); }
bool c_mix_slm_c_char(std::uint8_t a, rust::Slice<char> x, double b, std::int32_t k, rust::Slice<char> y, std::uint16_t c) { return a == 200 && ck_slm_c_char(x, k) && b == -1.5 && ck_slm_c_char(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_slm_c_char(rust::Slice<char> x, std::int32_t k) const noexcept { return ck_S3(*this, 2) && ck_slm_c_char(x, k); }
bool c_cb_slm_c_char(rust::Fn<rust::Slice<char>(rust::Slice<char>, std::int32_t)> f, std::int32_t k) { rust::Slice<char> y = f(mk_slm_c_char(k), k); return ck_slm_c_char(y, k); }
std::int32_t c_run_slm_c_char(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<char> x = mk_slm_c_char(k); auto a = ad_slm_c_char(x); if (!r_take_slm_c_char(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<char> p(cp_sl_c_char(k), k); for (int i = 0; i < k; i++) if (!ck_c_char(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<char> x = r_make_slm_c_char(Z, k); return ck_slm_c_char(x, k) && (vk_addr_c09c == ad_slm_c_char(x)) ? 0 : 13; }
 case 2: { rust::Slice<char> x = r_try_slm_c_char(Z, k, false); return ck_slm_c_char(x, k) && (vk_addr_c09c == ad_slm_c_char(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_c_char(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<char> x = mk_slm_c_char(k); auto a = ad_slm_c_char(x); rust::Slice<char> y = r_echo_slm_c_char(std::move(x), k); return vk_addr_c09c == a && ad_slm_c_char(y) == a && ck_slm_c_char(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_c_char(200, mk_slm_c_char(k), -1.5, k, mk_slm_c_char((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<char> x = mk_slm_c_char(k); return o.r_m_slm_c_char(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_Eu16(rust::Slice<Eu16> x, std::int32_t k) { note(ad_slm_Eu16(x)); if (!ck_slm_Eu16(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y = mk_Eu16(j); } } return true; }
rust::Slice<Eu16> c_make_slm_Eu16(std::uint8_t &, std::int32_t k) { rust::Slice<Eu16> x = mk_slm_Eu16(k); note(ad_slm_Eu16(x)); return x; }
rust::Slice<Eu16> c_try_slm_Eu16(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<Eu16> x = mk_slm_Eu16(k); note(ad_slm_Eu16(x)); return x; }
rust::Slice<Eu16> c_echo_slm_Eu16(rust::Slice<Eu16> x, std::int32_t k) { note(ck_slm_Eu16(x, k) ? ad_slm_Eu16(x) : 1); return std::move(x); }
bool c_mix_slm_Eu16(std::uint8_t a, rust::Slice<Eu16> x, double b, std::int32_t k, rust::Slice<Eu16> y, std::uint16_t c) { return a == 200 && ck_slm_Eu16(x, k) && b == -1.5 && ck_slm_Eu16(y, (k + 1) & 3) && c == 60000; }
bool S3::c_m_slm_Eu16(rust::Slice<Eu16> x, std::int32_t k) noexcept { return ck_S3(*this, 2) && ck_slm_Eu16(x, k); }
bool c_cb_slm_Eu16(rust::Fn<rust::Slice<Eu16>(rust::Slice<Eu16>, std::int32_t)> f, std::int32_t k) { rust::Slice<Eu16> y = f(mk_slm_Eu16(k), k); return ck_slm_Eu16(y, k); }
std::int32_t c_run_slm_Eu16(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<Eu16> x = mk_slm_Eu16(k); auto a = ad_slm_Eu16(x); if (!r_take_slm_Eu16(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<Eu16> p(cp_sl_Eu16(k), k); for (int i = 0; i < k; i++) if (!ck_Eu16(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<Eu16> x = r_make_slm_Eu16(Z, k); return ck_slm_Eu16(x, k) && (vk_addr_c09c == ad_slm_Eu16(x)) ? 0 : 13; }
 case 2: { rust::Slice<Eu16> x = r_try_slm_Eu16(Z, k, false); return ck_slm_Eu16(x, k) && (vk_addr_c09c == ad_slm_Eu16(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_Eu16(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<Eu16> x = mk_slm_Eu16(k); auto a = ad_slm_Eu16(x); rust::Slice<Eu16> y = r_echo_slm_Eu16(std::move(x), k); return vk_addr_c09c == a && ad_slm_Eu16(y) == a && ck_slm_Eu16(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_Eu16(200, mk_slm_Eu16(k), -1.5, k, mk_slm_Eu16((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<Eu16> x = mk_slm_Eu16(k); return o.r_m_slm_Eu16(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_TrivC(rust::Slice<TrivC> x, std::int32_t k) { note(ad_slm_TrivC(x)); if (!ck_slm_TrivC(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y = mk_TrivC(j); } } return true; }
rust::Slice<TrivC> c_make_slm_TrivC(std::uint8_t &, std::int32_t k) { rust::Slice<TrivC> x = mk_slm_TrivC(k); note(ad_slm_TrivC(x)); return x; }
rust::Slice<TrivC> c_try_slm_TrivC(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<TrivC> x = mk_slm_TrivC(k); note(ad_slm_TrivC(x)); return x; }
rust::Slice<TrivC> c_echo_slm_TrivC(rust::Slice<TrivC> x, std::int32_t k) { note(ck_slm_TrivC(x, k) ? ad_slm_TrivC(x) : 1); return std::move(x); }
bool c_mix_slm_TrivC(std::uint8_t a, rust::Slice<TrivC> x, double b, std::int32_t k, rust::Slice<TrivC> y, std::uint16_t c) { return a == 200 && ck_slm_TrivC(x, k) && b == -1.5 && ck_slm_TrivC(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_slm_TrivC(rust::Slice<TrivC> x, std::int32_t k) const { return ck_CObj(*this, 2) && ck_slm_TrivC(x, k); }
bool c_cb_slm_TrivC(rust::Fn<rust::Slice<TrivC>(rust::Slice<TrivC>, std::int32_t)> f, std::int32_t k) { rust::Slice<TrivC> y = f(mk_slm_TrivC(k), k); return ck_slm_TrivC(y, k); }
std::int32_t c_run_slm_TrivC(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<TrivC> x = mk_slm_TrivC(k); auto a = ad_slm_TrivC(x); if (!r_take_slm_TrivC(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<TrivC> p(cp_sl_TrivC(k), k); for (int i = 0; i < k; i++) if (!ck_TrivC(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<TrivC> x = r_make_slm_TrivC(Z, k); return ck_slm_TrivC(x, k) && (vk_addr_c09c == ad_slm_TrivC(x)) ? 0 : 13; }
 case 2: { rust::Slice<TrivC> x = r_try_slm_TrivC(Z, k, false); return ck_slm_TrivC(x, k) && (vk_addr_c09c == ad_slm_TrivC(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_TrivC(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<TrivC> x = mk_slm_TrivC(k); auto a = ad_slm_TrivC(x); rust::Slice<TrivC> y = r_echo_slm_TrivC(std::move(x), k); return vk_addr_c09c == a && ad_slm_TrivC(y) == a && ck_slm_TrivC(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_TrivC(200, mk_slm_TrivC(k), -1.5, k, mk_slm_TrivC((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; rust::Slice<TrivC> x = mk_slm_TrivC(k); return o.r_m_slm_TrivC(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_slm_Box_RObj(rust::Slice<rust::Box<RObj>> x, std::int32_t k) { note(ad_slm_Box_RObj(x)); if (!ck_slm_Box_RObj(x, k)) return false; int k1 = (k + 1) & 3; { int k = k1; for (std::size_t i = 0; i < x.size(); i++) { auto &y = x[i]; int j = (k + int(i)) & 3; y = mk_Box_RObj(j); } } return true; }
rust::Slice<rust::Box<RObj>> c_make_slm_Box_RObj(std::uint8_t &, std::int32_t k) { rust::Slice<rust::Box<RObj>> x = mk_slm_Box_RObj(k); note(ad_slm_Box_RObj(x)); return x; }
rust::Slice<rust::Box<RObj>> c_try_slm_Box_RObj(std::uint8_t &, std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); rust::Slice<rust::Box<RObj>> x = mk_slm_Box_RObj(k); note(ad_slm_Box_RObj(x)); return x; }
rust::Slice<rust::Box<RObj>> c_echo_slm_Box_RObj(rust::Slice<rust::Box<RObj>> x, std::int32_t k) { note(ck_slm_Box_RObj(x, k) ? ad_slm_Box_RObj(x) : 1); return std::move(x); }
bool c_mix_slm_Box_RObj(std::uint8_t a, rust::Slice<rust::Box<RObj>> x, double b, std::int32_t k, rust::Slice<rust::Box<RObj>> y, std::uint16_t c) { return a == 200 && ck_slm_Box_RObj(x, k) && b == -1.5 && ck_slm_Box_RObj(y, (k + 1) & 3) && c == 60000; }
bool CObj::c_m_slm_Box_RObj(rust::Slice<rust::Box<RObj>> x, std::int32_t k) { return ck_CObj(*this, 2) && ck_slm_Box_RObj(x, k); }
bool c_cb_slm_Box_RObj(rust::Fn<rust::Slice<rust::Box<RObj>>(rust::Slice<rust::Box<RObj>>, std::int32_t)> f, std::int32_t k) { rust::Slice<rust::Box<RObj>> y = f(mk_slm_Box_RObj(k), k); return ck_slm_Box_RObj(y, k); }
std::int32_t c_run_slm_Box_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { rust::Slice<rust::Box<RObj>> x = mk_slm_Box_RObj(k); auto a = ad_slm_Box_RObj(x); if (!r_take_slm_Box_RObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; { rust::Slice<rust::Box<RObj>> p(cp_sl_Box_RObj(k), k); for (int i = 0; i < k; i++) if (!ck_Box_RObj(p[i], (k + 1 + i) & 3)) return 12; } return 0; }
 case 1: { rust::Slice<rust::Box<RObj>> x = r_make_slm_Box_RObj(Z, k); return ck_slm_Box_RObj(x, k) && (vk_addr_c09c == ad_slm_Box_RObj(x)) ? 0 : 13; }
 case 2: { rust::Slice<rust::Box<RObj>> x = r_try_slm_Box_RObj(Z, k, false); return ck_slm_Box_RObj(x, k) && (vk_addr_c09c == ad_slm_Box_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_slm_Box_RObj(Z, k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { rust::Slice<rust::Box<RObj>> x = mk_slm_Box_RObj(k); auto a = ad_slm_Box_RObj(x); rust::Slice<rust::Box<RObj>> y = r_echo_slm_Box_RObj(std::move(x), k); return vk_addr_c09c == a && ad_slm_Box_RObj(y) == a && ck_slm_Box_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_slm_Box_RObj(200, mk_slm_Box_RObj(k), -1.5, k, mk_slm_Box_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; rust::Slice<rust::Box<RObj>> x = mk_slm_Box_RObj(k); return o.r_m_slm_Box_RObj(std::move(x), k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ptrconst_u8(std::uint8_t const * x, std::int32_t k) { note(ad_ptrconst_u8(x)); if (!ck_ptrconst_u8(x, k)) return false; return true; }
std::uint8_t const * c_make_ptrconst_u8(std::int32_t k) { std::uint8_t const * x = mk_ptrconst_u8(k); note(ad_ptrconst_u8(x)); return x; }
std::uint8_t const * c_try_ptrconst_u8(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::uint8_t const * x = mk_ptrconst_u8(k); note(ad_ptrconst_u8(x)); return x; }
std::uint8_t const * c_echo_ptrconst_u8(std::uint8_t const * x, std::int32_t k) { note(ck_ptrconst_u8(x, k) ? ad_ptrconst_u8(x) : 1); return std::move(x); }
bool c_mix_ptrconst_u8(std::uint8_t a, std::uint8_t const * x, double b, std::int32_t k, std::uint8_t const * y, std::uint16_t c) { return a == 200 && ck_ptrconst_u8(x, k) && b == -1.5 && ck_ptrconst_u8(y, (k + 1) & 3) && c == 60000; }
std::uint8_t const * S3::c_m_ptrconst_u8(std::uint8_t const * x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_ptrconst_u8(x, k) ? 0 : 1); return std::move(x); }
std::int32_t c_run_ptrconst_u8(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::uint8_t const * x = mk_ptrconst_u8(k); auto a = ad_ptrconst_u8(x); if (!r_take_ptrconst_u8(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { std::uint8_t const * x = r_make_ptrconst_u8(k); return ck_ptrconst_u8(x, k) && (vk_addr_c09c == ad_ptrconst_u8(x)) ? 0 : 13; }
 case 2: { std::uint8_t const * x = r_try_ptrconst_u8(k, false); return ck_ptrconst_u8(x, k) && (vk_addr_c09c == ad_ptrconst_u8(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ptrconst_u8(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::uint8_t const * x = mk_ptrconst_u8(k); auto a = ad_ptrconst_u8(x); std::uint8_t const * y = r_echo_ptrconst_u8(std::move(x), k); return vk_addr_c09c == a && ad_ptrconst_u8(y) == a && ck_ptrconst_u8(y, k) ? 0 : 17; }
 case 5: { return r_mix_ptrconst_u8(200, mk_ptrconst_u8(k), -1.5, k, mk_ptrconst_u8((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::uint8_t const * x = mk_ptrconst_u8(k); std::uint8_t const * y = o.r_m_ptrconst_u8(std::move(x), k); return vk_addr_c09c == 0 && ck_ptrconst_u8(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ptrmut_u64(std::uint64_t * x, std::int32_t k) { note(ad_ptrmut_u64(x)); if (!ck_ptrmut_u64(x, k)) return false; return true; }
std::uint64_t * c_make_ptrmut_u64(std::int32_t k) { std::uint64_t * x = mk_ptrmut_u64(k); note(ad_ptrmut_u64(x)); return x; }
std::uint64_t * c_try_ptrmut_u64(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::uint64_t * x = mk_ptrmut_u64(k); note(ad_ptrmut_u64(x)); return x; }
std::uint64_t * c_echo_ptrmut_u64(std::uint64_t * x, std::int32_t k) { note(ck_ptrmut_u64(x, k) ? ad_ptrmut_u64(x) : 1); return std::move(x); }
bool c_mix_ptrmut_u64(std::uint8_t a, std::uint64_t * x, double b, std::int32_t k, std::uint64_t * y, std::uint16_t c) { return a == 200 && ck_ptrmut_u64(x, k) && b == -1.5 && ck_ptrmut_u64(y, (k + 1) & 3) && c == 60000; }
std::uint64_t * S3::c_m_ptrmut_u64(std::uint64_t * x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_ptrmut_u64(x, k) ? 0 : 1); return std::move(x); }
std::int32_t c_run_ptrmut_u64(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::uint64_t * x = mk_ptrmut_u64(k); auto a = ad_ptrmut_u64(x); if (!r_take_ptrmut_u64(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { std::uint64_t * x = r_make_ptrmut_u64(k); return ck_ptrmut_u64(x, k) && (vk_addr_c09c == ad_ptrmut_u64(x)) ? 0 : 13; }
 case 2: { std::uint64_t * x = r_try_ptrmut_u64(k, false); return ck_ptrmut_u64(x, k) && (vk_addr_c09c == ad_ptrmut_u64(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ptrmut_u64(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::uint64_t * x = mk_ptrmut_u64(k); auto a = ad_ptrmut_u64(x); std::uint64_t * y = r_echo_ptrmut_u64(std::move(x), k); return vk_addr_c09c == a && ad_ptrmut_u64(y) == a && ck_ptrmut_u64(y, k) ? 0 : 17; }
 case 5: { return r_mix_ptrmut_u64(200, mk_ptrmut_u64(k), -1.5, k, mk_ptrmut_u64((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::uint64_t * x = mk_ptrmut_u64(k); std::uint64_t * y = o.r_m_ptrmut_u64(std::move(x), k); return vk_addr_c09c == 0 && ck_ptrmut_u64(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ptrconst_S2(S2 const * x, std::int32_t k) { note(ad_ptrconst_S2(x)); if (!ck_ptrconst_S2(x, k)) return false; return true; }
S2 const * c_make_ptrconst_S2(std::int32_t k) { S2 const * x = mk_ptrconst_S2(k); note(ad_ptrconst_S2(x)); return x; }
S2 const * c_try_ptrconst_S2(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S2 const * x = mk_ptrconst_S2(k); note(ad_ptrconst_S2(x)); return x; }
S2 const * c_echo_ptrconst_S2(S2 const * x, std::int32_t k) { note(ck_ptrconst_S2(x, k) ? ad_ptrconst_S2(x) : 1); return std::move(x); }
bool c_mix_ptrconst_S2(std::uint8_t a, S2 const * x, double b, std::int32_t k, S2 const * y, std::uint16_t c) { return a == 200 && ck_ptrconst_S2(x, k) && b == -1.5 && ck_ptrconst_S2(y, (k + 1) & 3) && c == 60000; }
S2 const * CObj::c_m_ptrconst_S2(S2 const * x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_ptrconst_S2(x, k) ? 0 : 1); return std::move(x); }
std::int32_t c_run_ptrconst_S2(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S2 const * x = mk_ptrconst_S2(k); auto a = ad_ptrconst_S2(x); if (!r_take_ptrconst_S2(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { S2 const * x = r_make_ptrconst_S2(k); return ck_ptrconst_S2(x, k) && (vk_addr_c09c == ad_ptrconst_S2(x)) ? 0 : 13; }
 case 2: { S2 const * x = r_try_ptrconst_S2(k, false); return ck_ptrconst_S2(x, k) && (vk_addr_c09c == ad_ptrconst_S2(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ptrconst_S2(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S2 const * x = mk_ptrconst_S2(k); auto a = ad_ptrconst_S2(x); S2 const * y = r_echo_ptrconst_S2(std::move(x), k); return vk_addr_c09c == a && ad_ptrconst_S2(y) == a && ck_ptrconst_S2(y, k) ? 0 : 17; }
 case 5: { return r_mix_ptrconst_S2(200, mk_ptrconst_S2(k), -1.5, k, mk_ptrconst_S2((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; S2 const * x = mk_ptrconst_S2(k); S2 const * y = o.r_m_ptrconst_S2(std::move(x), k); return vk_addr_c09c == 0 && ck_ptrconst_S2(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ptrmut_S7(S7 * x, std::int32_t k) { note(ad_ptrmut_S7(x)); if (!ck_ptrmut_S7(x, k)) return false; return true; }
S7 * c_make_ptrmut_S7(std::int32_t k) { S7 * x = mk_ptrmut_S7(k); note(ad_ptrmut_S7(x)); return x; }
S7 * c_try_ptrmut_S7(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); S7 * x = mk_ptrmut_S7(k); note(ad_ptrmut_S7(x)); return x; }
S7 * c_echo_ptrmut_S7(S7 * x, std::int32_t k) { note(ck_ptrmut_S7(x, k) ? ad_ptrmut_S7(x) : 1); return std::move(x); }
bool c_mix_ptrmut_S7(std::uint8_t a, S7 * x, double b, std::int32_t k, S7 * y, std::uint16_t c) { return a == 200 && ck_ptrmut_S7(x, k) && b == -1.5 && ck_ptrmut_S7(y, (k + 1) & 3) && c == 60000; }
S7 * CObj::c_m_ptrmut_S7(S7 * x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_ptrmut_S7(x, k) ? 0 : 1); return std::move(x); }
std::int32_t c_run_ptrmut_S7(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { S7 * x = mk_ptrmut_S7(k); auto a = ad_ptrmut_S7(x); if (!r_take_ptrmut_S7(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { S7 * x = r_make_ptrmut_S7(k); return ck_ptrmut_S7(x, k) && (vk_addr_c09c == ad_ptrmut_S7(x)) ? 0 : 13; }
 case 2: { S7 * x = r_try_ptrmut_S7(k, false); return ck_ptrmut_S7(x, k) && (vk_addr_c09c == ad_ptrmut_S7(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ptrmut_S7(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { S7 * x = mk_ptrmut_S7(k); auto a = ad_ptrmut_S7(x); S7 * y = r_echo_ptrmut_S7(std::move(x), k); return vk_addr_c09c == a && ad_ptrmut_S7(y) == a && ck_ptrmut_S7(y, k) ? 0 : 17; }
 case 5: { return r_mix_ptrmut_S7(200, mk_ptrmut_S7(k), -1.5, k, mk_ptrmut_S7((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; S7 * x = mk_ptrmut_S7(k); S7 * y = o.r_m_ptrmut_S7(std::move(x), k); return vk_addr_c09c == 0 && ck_ptrmut_S7(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ptrmut_CObj(CObj * x, std::int32_t k) { note(ad_ptrmut_CObj(x)); if (!ck_ptrmut_CObj(x, k)) return false; return true; }
CObj * c_make_ptrmut_CObj(std::int32_t k) { CObj * x = mk_ptrmut_CObj(k); note(ad_ptrmut_CObj(x)); return x; }
CObj * c_try_ptrmut_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); CObj * x = mk_ptrmut_CObj(k); note(ad_ptrmut_CObj(x)); return x; }
CObj * c_echo_ptrmut_CObj(CObj * x, std::int32_t k) { note(ck_ptrmut_CObj(x, k) ? ad_ptrmut_CObj(x) : 1); return std::move(x); }
bool c_mix_ptrmut_CObj(std::uint8_t a, CObj * x, double b, std::int32_t k, CObj * y, std::uint16_t c) { return a == 200 && ck_ptrmut_CObj(x, k) && b == -1.5 && ck_ptrmut_CObj(y, (k + 1) & 3) && c == 60000; }
CObj * S3::c_m_ptrmut_CObj(CObj * x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_ptrmut_CObj(x, k) ? 0 : 1); return std::move(x); }
std::int32_t c_run_ptrmut_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { CObj * x = mk_ptrmut_CObj(k); auto a = ad_ptrmut_CObj(x); if (!r_take_ptrmut_CObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { CObj * x = r_make_ptrmut_CObj(k); return ck_ptrmut_CObj(x, k) && (vk_addr_c09c == ad_ptrmut_CObj(x)) ? 0 : 13; }
 case 2: { CObj * x = r_try_ptrmut_CObj(k, false); return ck_ptrmut_CObj(x, k) && (vk_addr_c09c == ad_ptrmut_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ptrmut_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { CObj * x = mk_ptrmut_CObj(k); auto a = ad_ptrmut_CObj(x); CObj * y = r_echo_ptrmut_CObj(std::move(x), k); return vk_addr_c09c == a && ad_ptrmut_CObj(y) == a && ck_ptrmut_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ptrmut_CObj(200, mk_ptrmut_CObj(k), -1.5, k, mk_ptrmut_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; CObj * x = mk_ptrmut_CObj(k); CObj * y = o.r_m_ptrmut_CObj(std::move(x), k); return vk_addr_c09c == 0 && ck_ptrmut_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ptrconst_CObj(CObj const * x, std::int32_t k) { note(ad_ptrconst_CObj(x)); if (!ck_ptrconst_CObj(x, k)) return false; return true; }
CObj const * c_make_ptrconst_CObj(std::int32_t k) { CObj const * x = mk_ptrconst_CObj(k); note(ad_ptrconst_CObj(x)); return x; }
CObj const * c_try_ptrconst_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); CObj const * x = mk_ptrconst_CObj(k); note(ad_ptrconst_CObj(x)); return x; }
CObj const * c_echo_ptrconst_CObj(CObj const * x, std::int32_t k) { note(ck_ptrconst_CObj(x, k) ? ad_ptrconst_CObj(x) : 1); return std::move(x); }
bool c_mix_ptrconst_CObj(std::uint8_t a, CObj const * x, double b, std::int32_t k, CObj const * y, std::uint16_t c) { return a == 200 && ck_ptrconst_CObj(x, k) && b == -1.5 && ck_ptrconst_CObj(y, (k + 1) & 3) && c == 60000; }
CObj const * S3::c_m_ptrconst_CObj(CObj const * x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_ptrconst_CObj(x, k) ? 0 : 1); return std::move(x); }
std::int32_t c_run_ptrconst_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { CObj const * x = mk_ptrconst_CObj(k); auto a = ad_ptrconst_CObj(x); if (!r_take_ptrconst_CObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { CObj const * x = r_make_ptrconst_CObj(k); return ck_ptrconst_CObj(x, k) && (vk_addr_c09c == ad_ptrconst_CObj(x)) ? 0 : 13; }
 case 2: { CObj const * x = r_try_ptrconst_CObj(k, false); return ck_ptrconst_CObj(x, k) && (vk_addr_c09c == ad_ptrconst_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ptrconst_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { CObj const * x = mk_ptrconst_CObj(k); auto a = ad_ptrconst_CObj(x); CObj const * y = r_echo_ptrconst_CObj(std::move(x), k); return vk_addr_c09c == a && ad_ptrconst_CObj(y) == a && ck_ptrconst_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ptrconst_CObj(200, mk_ptrconst_CObj(k), -1.5, k, mk_ptrconst_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; CObj const * x = mk_ptrconst_CObj(k); CObj const * y = o.r_m_ptrconst_CObj(std::move(x), k); return vk_addr_c09c == 0 && ck_ptrconst_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ptrconst_RObj(RObj const * x, std::int32_t k) { note(ad_ptrconst_RObj(x)); if (!ck_ptrconst_RObj(x, k)) return false; return true; }
RObj const * c_make_ptrconst_RObj(std::int32_t k) { RObj const * x = mk_ptrconst_RObj(k); note(ad_ptrconst_RObj(x)); return x; }
RObj const * c_try_ptrconst_RObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); RObj const * x = mk_ptrconst_RObj(k); note(ad_ptrconst_RObj(x)); return x; }
RObj const * c_echo_ptrconst_RObj(RObj const * x, std::int32_t k) { note(ck_ptrconst_RObj(x, k) ? ad_ptrconst_RObj(x) : 1); return std::move(x); }
bool c_mix_ptrconst_RObj(std::uint8_t a, RObj const * x, double b, std::int32_t k, RObj const * y, std::uint16_t c) { return a == 200 && ck_ptrconst_RObj(x, k) && b == -1.5 && ck_ptrconst_RObj(y, (k + 1) & 3) && c == 60000; }
RObj const * CObj::c_m_ptrconst_RObj(RObj const * x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_ptrconst_RObj(x, k) ? 0 : 1); return std::move(x); }
std::int32_t c_run_ptrconst_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { RObj const * x = mk_ptrconst_RObj(k); auto a = ad_ptrconst_RObj(x); if (!r_take_ptrconst_RObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { RObj const * x = r_make_ptrconst_RObj(k); return ck_ptrconst_RObj(x, k) && (vk_addr_c09c == ad_ptrconst_RObj(x)) ? 0 : 13; }
 case 2: { RObj const * x = r_try_ptrconst_RObj(k, false); return ck_ptrconst_RObj(x, k) && (vk_addr_c09c == ad_ptrconst_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ptrconst_RObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { RObj const * x = mk_ptrconst_RObj(k); auto a = ad_ptrconst_RObj(x); RObj const * y = r_echo_ptrconst_RObj(std::move(x), k); return vk_addr_c09c == a && ad_ptrconst_RObj(y) == a && ck_ptrconst_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ptrconst_RObj(200, mk_ptrconst_RObj(k), -1.5, k, mk_ptrconst_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; RObj const * x = mk_ptrconst_RObj(k); RObj const * y = o.r_m_ptrconst_RObj(std::move(x), k); return vk_addr_c09c == 0 && ck_ptrconst_RObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ptrmut_RObj(RObj * x, std::int32_t k) { note(ad_ptrmut_RObj(x)); if (!ck_ptrmut_RObj(x, k)) return false; return true; }
RObj * c_make_ptrmut_RObj(std::int32_t k) { RObj * x = mk_ptrmut_RObj(k); note(ad_ptrmut_RObj(x)); return x; }
RObj * c_try_ptrmut_RObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); RObj * x = mk_ptrmut_RObj(k); note(ad_ptrmut_RObj(x)); return x; }
RObj * c_echo_ptrmut_RObj(RObj * x, std::int32_t k) { note(ck_ptrmut_RObj(x, k) ? ad_ptrmut_RObj(x) : 1); return std::move(x); }
bool c_mix_ptrmut_RObj(std::uint8_t a, RObj * x, double b, std::int32_t k, RObj * y, std::uint16_t c) { return a == 200 && ck_ptrmut_RObj(x, k) && b == -1.5 && ck_ptrmut_RObj(y, (k + 1) & 3) && c == 60000; }
RObj * CObj::c_m_ptrmut_RObj(RObj * x, std::int32_t k) { note(ck_CObj(*this, 2) && ck_ptrmut_RObj(x, k) ? 0 : 1); return std::move(x); }
std::int32_t c_run_ptrmut_RObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { RObj * x = mk_ptrmut_RObj(k); auto a = ad_ptrmut_RObj(x); if (!r_take_ptrmut_RObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { RObj * x = r_make_ptrmut_RObj(k); return ck_ptrmut_RObj(x, k) && (vk_addr_c09c == ad_ptrmut_RObj(x)) ? 0 : 13; }
 case 2: { RObj * x = r_try_ptrmut_RObj(k, false); return ck_ptrmut_RObj(x, k) && (vk_addr_c09c == ad_ptrmut_RObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ptrmut_RObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { RObj * x = mk_ptrmut_RObj(k); auto a = ad_ptrmut_RObj(x); RObj * y = r_echo_ptrmut_RObj(std::move(x), k); return vk_addr_c09c == a && ad_ptrmut_RObj(y) == a && ck_ptrmut_RObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_ptrmut_RObj(200, mk_ptrmut_RObj(k), -1.5, k, mk_ptrmut_RObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; RObj * x = mk_ptrmut_RObj(k); RObj * y = o.r_m_ptrmut_RObj(std::move(x), k); return vk_addr_c09c == 0 && ck_ptrmut_RObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_ptrconst_CxxString(std::string const * x, std::int32_t k) { note(ad_ptrconst_CxxString(x)); if (!ck_ptrconst_CxxString(x, k)) return false; return true; }
std::string const * c_make_ptrconst_CxxString(std::int32_t k) { std::string const * x = mk_ptrconst_CxxString(k); note(ad_ptrconst_CxxString(x)); return x; }
std::string const * c_try_ptrconst_CxxString(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::string const * x = mk_ptrconst_CxxString(k); note(ad_ptrconst_CxxString(x)); return x; }
std::string const * c_echo_ptrconst_CxxString(std::string const * x, std::int32_t k) { note(ck_ptrconst_CxxString(x, k) ? ad_ptrconst_CxxString(x) : 1); return std::move(x); }
bool c_mix_ptrconst_CxxString(std::uint8_t a, std::string const * x, double b, std::int32_t k, std::string const * y, std::uint16_t c) { return a == 200 && ck_ptrconst_CxxString(x, k) && b == -1.5 && ck_ptrconst_CxxString(y, (k + 1) & 3) && c == 60000; }
std::string const * S3::c_m_ptrconst_CxxString(std::string const * x, std::int32_t k) const noexcept { note(ck_S3(*this, 2) && ck_ptrconst_CxxString(x, k) ? 0 : 1); return std::move(x); }
std::int32_t c_run_ptrconst_CxxString(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::string const * x = mk_ptrconst_CxxString(k); auto a = ad_ptrconst_CxxString(x); if (!r_take_ptrconst_CxxString(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { std::string const * x = r_make_ptrconst_CxxString(k); return ck_ptrconst_CxxString(x, k) && (vk_addr_c09c == ad_ptrconst_CxxString(x)) ? 0 : 13; }
 case 2: { std::string const * x = r_try_ptrconst_CxxString(k, false); return ck_ptrconst_CxxString(x, k) && (vk_addr_c09c == ad_ptrconst_CxxString(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_ptrconst_CxxString(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::string const * x = mk_ptrconst_CxxString(k); auto a = ad_ptrconst_CxxString(x); std::string const * y = r_echo_ptrconst_CxxString(std::move(x), k); return vk_addr_c09c == a && ad_ptrconst_CxxString(y) == a && ck_ptrconst_CxxString(y, k) ? 0 : 17; }
 case 5: { return r_mix_ptrconst_CxxString(200, mk_ptrconst_CxxString(k), -1.5, k, mk_ptrconst_CxxString((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { S3 s = mk_S3(2); S3 &o = s; std::string const * x = mk_ptrconst_CxxString(k); std::string const * y = o.r_m_ptrconst_CxxString(std::move(x), k); return vk_addr_c09c == 0 && ck_ptrconst_CxxString(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) { note(ad_UniquePtr_CObj(x)); if (!ck_UniquePtr_CObj(x, k)) return false; return true; }
std::unique_ptr<CObj> c_make_UniquePtr_CObj(std::int32_t k) { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> c_try_UniquePtr_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); note(ad_UniquePtr_CObj(x)); return x; }
std::unique_ptr<CObj> c_echo_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) { note(ck_UniquePtr_CObj(x, k) ? ad_UniquePtr_CObj(x) : 1); return std::move(x); }
bool c_mix_UniquePtr_CObj(std::uint8_t a, std::unique_ptr<CObj> x, double b, std::int32_t k, std::unique_ptr<CObj> y, std::uint16_t c) { return a == 200 && ck_UniquePtr_CObj(x, k) && b == -1.5 && ck_UniquePtr_CObj(y, (k + 1) & 3) && c == 60000; }
std::unique_ptr<CObj> S3::c_m_UniquePtr_CObj(std::unique_ptr<CObj> x, std::int32_t k) noexcept { note(ck_S3(*this, 2) && ck_UniquePtr_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_UniquePtr_CObj(rust::Fn<std::unique_ptr<CObj>(std::unique_ptr<CObj>, std::int32_t)> f, std::int32_t k) { std::unique_ptr<CObj> y = f(mk_UniquePtr_CObj(k), k); return ck_UniquePtr_CObj(y, k); }
std::int32_t c_run_UniquePtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); auto a = ad_UniquePtr_CObj(x); if (!r_take_UniquePtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { std::unique_ptr<CObj> x = r_make_UniquePtr_CObj(k); return ck_UniquePtr_CObj(x, k) && (vk_addr_c09c == ad_UniquePtr_CObj(x)) ? 0 : 13; }
 case 2: { std::unique_ptr<CObj> x = r_try_UniquePtr_CObj(k, false); return ck_UniquePtr_CObj(x, k) && (vk_addr_c09c == ad_UniquePtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_UniquePtr_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); auto a = ad_UniquePtr_CObj(x); std::unique_ptr<CObj> y = r_echo_UniquePtr_CObj(std::move(x), k); return vk_addr_c09c == a && ad_UniquePtr_CObj(y) == a && ck_UniquePtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_UniquePtr_CObj(200, mk_UniquePtr_CObj(k), -1.5, k, mk_UniquePtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::unique_ptr<CObj> x = mk_UniquePtr_CObj(k); std::unique_ptr<CObj> y = o.r_m_UniquePtr_CObj(std::move(x), k); return vk_addr_c09c == 0 && ck_UniquePtr_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
bool c_take_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ad_SharedPtr_CObj(x)); if (!ck_SharedPtr_CObj(x, k)) return false; return true; }
std::shared_ptr<CObj> c_make_SharedPtr_CObj(std::int32_t k) { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> c_try_SharedPtr_CObj(std::int32_t k, bool fail) { if (fail) throw std::runtime_error(TXT[k].c_str()); std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); note(ad_SharedPtr_CObj(x)); return x; }
std::shared_ptr<CObj> c_echo_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) { note(ck_SharedPtr_CObj(x, k) ? ad_SharedPtr_CObj(x) : 1); return std::move(x); }
bool c_mix_SharedPtr_CObj(std::uint8_t a, std::shared_ptr<CObj> x, double b, std::int32_t k, std::shared_ptr<CObj> y, std::uint16_t c) { return a == 200 && ck_SharedPtr_CObj(x, k) && b == -1.5 && ck_SharedPtr_CObj(y, (k + 1) & 3) && c == 60000; }
std::shared_ptr<CObj> CObj::c_m_SharedPtr_CObj(std::shared_ptr<CObj> x, std::int32_t k) const { note(ck_CObj(*this, 2) && ck_SharedPtr_CObj(x, k) ? 0 : 1); return std::move(x); }
bool c_cb_SharedPtr_CObj(rust::Fn<std::shared_ptr<CObj>(std::shared_ptr<CObj>, std::int32_t)> f, std::int32_t k) { std::shared_ptr<CObj> y = f(mk_SharedPtr_CObj(k), k); return ck_SharedPtr_CObj(y, k); }
std::int32_t c_run_SharedPtr_CObj(std::int32_t pos, std::int32_t k) { std::uint8_t Z = 0; (void)Z; switch (pos) {
 case 0: { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); auto a = ad_SharedPtr_CObj(x); if (!r_take_SharedPtr_CObj(std::move(x), k)) return 10; if (vk_addr_c09c != a) return 11; return 0; }
 case 1: { std::shared_ptr<CObj> x = r_make_SharedPtr_CObj(k); return ck_SharedPtr_CObj(x, k) && (vk_addr_c09c == ad_SharedPtr_CObj(x)) ? 0 : 13; }
 case 2: { std::shared_ptr<CObj> x = r_try_SharedPtr_CObj(k, false); return ck_SharedPtr_CObj(x, k) && (vk_addr_c09c == ad_SharedPtr_CObj(x)) ? 0 : 14; }
 case 3: { try { (void)r_try_SharedPtr_CObj(k, true); return 15; } catch (const rust::Error &e) { return std::string(e.what()) == TXT[k].c_str() ? 0 : 16; } }
 case 4: { std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); auto a = ad_SharedPtr_CObj(x); std::shared_ptr<CObj> y = r_echo_SharedPtr_CObj(std::move(x), k); return vk_addr_c09c == a && ad_SharedPtr_CObj(y) == a && ck_SharedPtr_CObj(y, k) ? 0 : 17; }
 case 5: { return r_mix_SharedPtr_CObj(200, mk_SharedPtr_CObj(k), -1.5, k, mk_SharedPtr_CObj((k + 1) & 3), 60000) ? 0 : 18; }
 case 6: { rust::Box<RObj> s = r_new(2); auto &o = *s; std::shared_ptr<CObj> x = mk_SharedPtr_CObj(k); std::shared_ptr<CObj> y = o.r_m_SharedPtr_CObj(std::move(x), k); return vk_addr_c09c == 0 && ck_SharedPtr_CObj(y, k) ? 0 : 19; }
 }
 return -1; }
}
